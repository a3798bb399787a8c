#!/usr/bin/env python3
"""campaign.py OUT.tsv [--list FILE] [--workers N] - run the properties with small budgets against every mutant listed.

Development tool. Mutants live in scratch copies under /tmp/mut; /repo and /verif are not touched.
OUT.tsv lines: id, place, description, verdict (killed by Cxx | survived | nobuild).
"""
import os, shutil, subprocess, sys, threading, queue, glob, re
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
W = "/tmp/mut"
MUT = W + "/mutate"
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOSUMDB="off", GOFLAGS="-mod=mod", CGO_ENABLED="0",
           GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", PATH="/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin")
ENV.pop("GOCACHE", None)
ORDER = {
 "dxvalue.go": "C14 C15 C17 C16 C18 C28 C12 C27 C25 C19 C21 C01 C02 C03 C04 C05 C07 C08 C13 C22 C23 C24 C26 C10 C11 C06 C09",
 "cache.go": "C19 C12 C14 C16 C20 C21 C01 C05",
 "iofiles.go": "C26", "datetime.go": "C24 C01 C15 C13 C05 C07 C08", "bin_value.go": "C26 C21 C14 C16 C25 C15",
 "jsonparse.go": "C01 C02 C03 C12 C13 C26 C24 C21 C15 C27 C14 C19 C28",
 "json_escape.go": "C01 C02 C13 C14 C17 C03",
 "msgpackparse.go": "C05 C06 C12 C13 C24 C21 C25 C19 C16", "msgpack_value.go": "C04 C13 C24 C21 C27 C12 C16 C15", "msgpack_codes.go": "C04 C05 C06",
 "bson_parse.go": "C07 C08 C09 C12 C13 C21 C24 C25 C19", "bson_code.go": "C07 C08 C09",
 "yamlparse.go": "C10 C11 C12 C20 C19 C25", "reflect_parse.go": "C22 C23 C27 C25 C24 C16 C21 C14", "struct_type.go": "C22 C23",
}
def run1(d, prop, deadline, checks=60000, seed=1):
    w = d + "/run"
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    env = dict(os.environ, TZ="America/New_York", VERIF_DEADLINE=deadline, TMPDIR=w, GOMAXPROCS="2", VERIF_CRUMB=w + "/crumb")
    n = checks
    if prop == "C20": n = 5
    cmd = ["bash", "-c", "ulimit -v 12000000; exec %s/h.test -test.run '^Test%s$' -rapid.seed=%d -rapid.checks=%d -rapid.shrinktime=0s" % (d, prop, seed, n)]
    try:
        p = subprocess.run(cmd, cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=40)
    except subprocess.TimeoutExpired:
        return True
    return p.returncode != 0

def worker(k, q, out, lock):
    d = "%s/w%d" % (W, k)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    shutil.copytree(VERIF + "/harness", d + "/h")
    gm = open(d + "/h/go.mod").read().replace("=> /repo", "=> " + d + "/repo")
    open(d + "/h/go.mod", "w").write(gm)
    env = dict(ENV, GOCACHE=d + "/cache")
    n = 0
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        mid, place, desc = m
        fn, i = mid.split("#")
        if n % 40 == 0:
            shutil.rmtree(d + "/cache", ignore_errors=True)
            shutil.copytree(W + "/basecache", d + "/cache")
        n += 1
        shutil.rmtree(d + "/repo", ignore_errors=True); os.makedirs(d + "/repo")
        for f in glob.glob(W + "/base/*.go") + [W + "/base/go.mod", W + "/base/go.sum"]:
            if not f.endswith("_test.go") and os.path.exists(f): shutil.copy(f, d + "/repo")
        a = subprocess.run([MUT, "apply", d + "/repo", fn, i], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        v = None
        if a.returncode: v = "nobuild"
        else:
            b = subprocess.run(["go", "test", "-c", "-vet=off", "-ldflags=-s -w", "-o", d + "/h.test", "."], cwd=d + "/h", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if b.returncode: v = "nobuild"
        if v is None:
            for dl in ("700ms", os.environ.get("MUT_DEADLINE", "3s")):
                ps = ORDER[fn].split()
                for p in ps if dl == "700ms" else ps[:8]:
                    if run1(d, p, dl, seed=1 if dl == "700ms" else 2):
                        v = "killed by " + p; break
                if v: break
        with lock:
            out.write("\t".join([mid, place, desc, v or "survived"]) + "\n"); out.flush()
    shutil.rmtree(d, ignore_errors=True)

def main():
    a = sys.argv[1:]
    outp = a[0]
    lst = a[a.index("--list") + 1] if "--list" in a else W + "/list.txt"
    nw = int(a[a.index("--workers") + 1]) if "--workers" in a else 8
    done = set()
    if os.path.exists(outp):
        done = {l.split("\t")[0] for l in open(outp)}
    shutil.rmtree(W + "/base", ignore_errors=True)
    shutil.copytree("/repo", W + "/base", ignore=shutil.ignore_patterns(".git"))
    if not os.path.exists(W + "/basecache"):
        env = dict(ENV, GOCACHE=W + "/basecache")
        shutil.copytree(VERIF + "/harness", W + "/bh")
        subprocess.run(["go", "test", "-c", "-vet=off", "-o", W + "/x.test", "."], cwd=W + "/bh", env=env, check=True)
        shutil.rmtree(W + "/bh")
    q = queue.Queue()
    for l in open(lst):
        m = l.rstrip("\n").split("\t")[:3]
        if m[0] not in done: q.put(m)
    lock = threading.Lock()
    with open(outp, "a") as out:
        ts = [threading.Thread(target=worker, args=(k, q, out, lock)) for k in range(nw)]
        [t.start() for t in ts]; [t.join() for t in ts]
main()
