#!/usr/bin/env python3
"""plant.py SPEC.py [id...] - turn bug specs into seeded/<id>/ after confirming each in a scratch copy of /repo.

SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo=go test body, imports=[...], needs, breaks)].
Confirmed: patch applies, touches lines of the original repository, builds, stable tests pass, demo exits 0 clean and
non-zero patched.
"""
import json, os, re, shutil, subprocess, sys, runpy
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "7b99f7a"
SCR = "/tmp/plant/repo"
DEMO_SH = '''#!/bin/bash
# run with cwd /repo after the build: exit 0 when the behaviour is right, non-zero when it is broken
DIR=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
. /opt/vp/env.sh
cd "$REPO" || exit 2
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$REPO" "$DIR" > "$T/o.json"
export TMPDIR=$T
timeout 250 go test -vet=off -count=1 -overlay "$T/o.json" -run '^TestZzDemo$' .
'''

def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)

def stable():
    sh("bash /opt/vp/test.sh /tmp/plant/out.json")
    return json.load(open("/tmp/plant/out.json"))

base = json.load(open("/opt/vp/BASELINE.json"))
def passed(o):
    for k in ("passed", "pass"):
        if k in o: return set(o[k])
    raise SystemExit(str(o)[:500])
def want():
    for k in ("stable", "passed", "pass", "tests"):
        if k in base: return set(base[k])
    raise SystemExit(str(base)[:500])

def rec(i, p, caught):
    f = os.path.join(VERIF, "tools", "planted.json")
    d = json.load(open(f)) if os.path.exists(f) else {}
    e = d.setdefault(i, {"property": p, "first": caught})
    e["now"] = caught
    json.dump(d, open(f, "w"), indent=1, sort_keys=True)

def main():
    specs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    for b in specs:
        if only and b["id"] not in only: continue
        d = os.path.join(VERIF, "seeded", b["id"])
        if os.path.exists(d) and not only: continue
        tmp = "/tmp/plant/" + b["id"]
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        imps = "".join('\t"%s"\n' % i for i in ["testing"] + b.get("imports", []))
        open(tmp + "/demo_test.go", "w").write("package dxsvalue\n\nimport (\n%s)\n\n%s\nfunc TestZzDemo(t *testing.T) {\n%s\n}\n" % (imps, b.get("pre", ""), b["demo"].strip("\n")))
        open(tmp + "/demo.sh", "w").write(DEMO_SH.replace("timeout 250 go test ", "export CGO_ENABLED=1\ntimeout 280 go test -race ") if b.get("race") else DEMO_SH)
        meta = {"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}
        json.dump(meta, open(tmp + "/meta.json", "w"), indent=1, ensure_ascii=False)
        r = sh("bash %s/demo.sh" % tmp, cwd="/repo")
        if r.returncode: print(b["id"], "DEMO FAILS CLEAN", r.stdout[-800:]); continue
        try:
            ok = True
            for f, old, new in b["edits"]:
                p = "/repo/" + f; s = open(p, newline="").read()
                crlf = "\r\n" in s
                o2, n2 = (old.replace("\n", "\r\n"), new.replace("\n", "\r\n")) if crlf else (old, new)
                if s.count(o2) != 1: print(b["id"], "edit matches", s.count(o2), repr(old[:60])); ok = False; break
                open(p, "w", newline="").write(s.replace(o2, n2))
            if not ok: continue
            diff = subprocess.run("git -C /repo diff --no-color", shell=True, stdout=subprocess.PIPE).stdout
            open(tmp + "/patch.diff", "wb").write(diff)
            # which pre-image lines change
            orig = False
            for f in set(e[0] for e in b["edits"]):
                bl = sh("git -C /repo blame -s HEAD -- %s" % f).stdout.split("\n")
                dd = sh("git -C /repo diff -U0 -- %s" % f).stdout
                for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", dd, re.M):
                    st, n = int(m.group(1)), int(m.group(2) or 1)
                    for ln in range(st, st + n):
                        if bl[ln - 1].startswith("^"): orig = True
            if not orig: print(b["id"], "NO ORIGINAL LINE CHANGED"); continue
            r = sh("bash /opt/vp/build.sh", cwd="/repo")
            if r.returncode: print(b["id"], "BUILD", r.stdout[-500:]); continue
            miss = want() - passed(stable())
            if miss: print(b["id"], "STABLE TESTS FAIL", miss); continue
            r = sh("bash %s/demo.sh" % tmp, cwd="/repo")
            if r.returncode == 0: print(b["id"], "DEMO PASSES PATCHED"); continue
            if "build failed" in r.stdout: print(b["id"], "demo build", r.stdout[-500:]); continue
            c = sh("python3 %s/run.py check %s quick" % (VERIF, b["property"]), cwd=VERIF, timeout=900)
            caught = c.returncode == 1 and "VIOLATION property=" + b["property"] in c.stdout
            shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d)
            rec(b["id"], b["property"], caught)
            print(b["id"], b["property"], "CAUGHT" if caught else "MISSED rc=%d" % c.returncode, flush=True)
        finally:
            sh("git -C /repo checkout -- .")
            shutil.rmtree(tmp, ignore_errors=True)
main()
