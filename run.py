#!/usr/bin/env python3
"""Driver of the property checks.

  run.py check <ID> [quick|thorough]   build the harness against /repo's working tree and run one property
  run.py replay <file>                 re-run the failing case recorded in a replay file
  run.py setup                         warm the build cache, compile the harness once

Exit codes: 0 the property held on everything explored; 1 with a VIOLATION line; 2 no answer (build failure,
timeout, worker killed, harness error).
"""
import json, os, re, shutil, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
SHARDS = 8
ZONES = ["UTC", "Asia/Shanghai", "America/New_York", "Europe/London", "Australia/Adelaide", "UTC", "Asia/Kathmandu", "America/Sao_Paulo"]
QUICK_TIMEOUT, THOROUGH_TIMEOUT = 780, 3 * 3600

# property -> (rapid checks per shard: quick, thorough), options
PROPS = json.load(open(os.path.join(VERIF, "budgets.json")))


def go_env():
    e = dict(os.environ)
    e.update({
        "HOME": "/root", "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOWORK": "off", "GOSUMDB": "off",
        "GOFLAGS": "-mod=mod", "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod",
        "PATH": "/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    })
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.pop("GOMEMLIMIT", None)
    e.pop("GODEBUG", None)
    return e


def build(out, race):
    # build from a copy so that nothing is ever written into /verif/harness
    src = os.path.join(os.path.dirname(out), "src")
    shutil.copytree(HARNESS, src)
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    env = go_env()
    if race:
        cmd.append("-race")
        env["CGO_ENABLED"] = "1"
    else:
        env["CGO_ENABLED"] = "0"
    p = subprocess.run(cmd + ["."], cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout





class Shard(threading.Thread):
    def __init__(self, binary, work, prop, idx, seed, checks, opts, timeout, extra=(), alone=False):
        super().__init__()
        self.alone = alone
        self.dir = os.path.join(work, "s%d%s" % (idx, "a" if alone else ""))
        os.makedirs(self.dir)
        self.binary, self.prop, self.idx, self.seed, self.checks = binary, prop, idx, seed, checks
        self.opts, self.timeout, self.extra = opts, timeout, list(extra)
        self.zone = ZONES[idx % len(ZONES)]
        # the race detector's shadow memory needs the whole address space; every other worker is capped, so that
        # one allocation far beyond what the generated input warrants ends in Go's own out-of-memory report
        self.capped = not binary.endswith("race.test")
        self.rc, self.log, self.timed_out = None, "", False

    def args(self):
        a = [self.binary, "-test.run", "^Test%s$" % self.prop, "-test.timeout", "0", "-rapid.seed=%d" % self.seed,
             "-rapid.checks=%d" % self.checks, "-rapid.shrinktime=20s"]
        if "steps" in self.opts:
            a.append("-rapid.steps=%d" % self.opts["steps"])
        return a + self.extra

    def run(self):
        env = dict(os.environ)
        env.update({"TZ": self.zone, "VERIF_STATS": os.path.join(self.dir, "stats.json"),
                    "VERIF_HASHES": os.path.join(self.dir, "hashes"), "VERIF_CRUMB": os.path.join(self.dir, "crumb"),
                    "TMPDIR": self.dir, "VERIF_DEADLINE": "%ds" % (self.timeout * 6 // 10), "GOMAXPROCS": str(self.opts.get("procs", 2)), "GOTRACEBACK": "all",
                    "GORACE": "halt_on_error=1 exitcode=66", "GOMEMLIMIT": "5GiB"})
        env.pop("GODEBUG", None)
        if self.opts.get("fresh") is True:
            env["VERIF_COLD"] = "1"
        with open(os.path.join(self.dir, "log"), "wb") as f:
            cmd = self.args()
            if self.capped:
                cmd = ["/bin/sh", "-c", 'ulimit -v %d; exec "$0" "$@"' % (8 << 20)] + cmd
            p = subprocess.Popen(cmd, cwd=self.dir, env=env, stdout=f, stderr=subprocess.STDOUT)
            try:
                self.rc = p.wait(timeout=self.timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                self.timed_out = True
        with open(os.path.join(self.dir, "log"), "rb") as f:
            self.log = f.read(8 << 20).decode("utf-8", "replace")

    def verdict(self):
        """'ok', 'violation' or 'error'"""
        if self.timed_out:
            return "error"
        if self.rc == 0:
            # "ok" only if the test really ran
            return "ok" if os.path.exists(os.path.join(self.dir, "stats.json")) and self.stats()["evaluations"] > 0 else "error"
        if "harness:" in self.log:
            return "error"
        if self.rc == 1 and "--- FAIL: Test%s" % self.prop in self.log:
            return "violation"
        if self.rc == 97 and "VERIF-WATCHDOG" in self.log:
            return "violation"
        if self.rc == 66 and "WARNING: DATA RACE" in self.log and "dxsvalue." in self.log:
            return "violation"
        if self.rc == 2 and ("fatal error:" in self.log or "panic:" in self.log or "SIGSEGV" in self.log) \
                and "github.com/suiyunonghen/dxsvalue." in self.log and not self.out_of_memory():
            return "violation"
        if self.rc == 2 and self.alone and self.out_of_memory():
            # the goroutine that asked for the memory is the one reported as running
            m = re.search(r"(?m)^goroutine \d+.*\[running.*\]:\n(?:.+\n)*", self.log)
            if m and "github.com/suiyunonghen/dxsvalue." in m.group(0):
                return "violation"
        return "error"

    def out_of_memory(self):
        return self.rc == 2 and ("out of memory" in self.log or "cannot allocate" in self.log)

    def again(self, work):
        """The same shard once more, with no other worker beside it."""
        s = Shard(self.binary, work, self.prop, self.idx, self.seed, self.checks, self.opts, self.timeout, self.extra, alone=True)
        s.start()
        s.join()
        return s

    def stats(self):
        with open(os.path.join(self.dir, "stats.json")) as f:
            return json.load(f)

    def hashes(self):
        try:
            b = open(os.path.join(self.dir, "hashes"), "rb").read()
        except OSError:
            return set()
        return set(struct.unpack("<%dQ" % (len(b) // 8), b))


def save_replay(sh):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, "%s-seed%d" % (sh.prop, sh.seed))
    fail = ""
    fd = os.path.join(sh.dir, "testdata", "rapid", "Test" + sh.prop)
    if os.path.isdir(fd):
        fs = sorted(os.listdir(fd))
        if fs:
            fail = open(os.path.join(fd, fs[-1]), errors="replace").read()
    crumb = ""
    try:
        crumb = open(os.path.join(sh.dir, "crumb"), "rb").read().split(b"\0")[0].decode("utf-8", "replace")
    except OSError:
        pass
    rec = {"property": sh.prop, "seed": sh.seed, "checks": sh.checks, "zone": sh.zone, "options": sh.opts, "exit": sh.rc,
           "rapid_failfile": fail, "last_operation": crumb[:200000], "log": sh.log[-60000:] if len(sh.log) > 60000 else sh.log}
    with open(base + ".json", "w") as f:
        json.dump(rec, f, indent=1)
    return base + ".json"


def run_shards(shards, width):
    pending, running = list(shards), []
    failed = False
    while pending or running:
        while pending and len(running) < width and not failed:
            s = pending.pop(0)
            s.start()
            running.append(s)
        if failed:
            pending = []
        for s in list(running):
            s.join(0.05)
            if not s.is_alive():
                running.remove(s)
                if s.verdict() == "violation":
                    failed = True


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = PROPS[prop]
    opts = cfg.get("opts", {})
    n = cfg["quick"] if tier == "quick" else cfg["thorough"]
    rounds = 1 if tier == "quick" else cfg.get("rounds", 2)
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        race = opts.get("race", False)  # False, True, or "mixed": every other shard
        binaries = {}
        for r in ([False, True] if race == "mixed" else [bool(race)]):
            binaries[r] = os.path.join(work, "b%d" % r, "race.test" if r else "h.test")
            os.makedirs(os.path.dirname(binaries[r]))
            rc, out = build(binaries[r], r)
            if rc != 0:
                print(out[-6000:])
                print("ERROR: the harness does not build against /repo")
                return 2
        pick = lambda i: binaries[(i % 2 == 0) if race == "mixed" else bool(race)]
        tmo = QUICK_TIMEOUT if tier == "quick" else THOROUGH_TIMEOUT
        shards = [Shard(pick(i), work, prop, i, (seed * 1000003 + i * 7919 + 1) & 0x7fffffffffff or 1, n, opts, tmo)
                  for i in range(SHARDS * rounds)]
        # short runs in fresh processes, for what only happens the first time something is used
        shards += [Shard(binaries[True], work, prop, 1000 + i, (seed * 1000003 + i * 7919 + 500009) & 0x7fffffffffff or 1, 3, dict(opts, fresh=True), tmo)
                   for i in range(opts.get("fresh", 0) * rounds)]
        run_shards(shards, opts.get("width", SHARDS))
        done = [s for s in shards if s.rc is not None or s.timed_out]
        if not any(s.verdict() == "violation" for s in done):
            # a worker that ran out of memory or was killed: is it the machine, or this case?
            for i, s in enumerate(done):
                if s.rc == -9 or s.out_of_memory():
                    done[i] = s.again(work)
                    if done[i].verdict() != "ok":
                        break
        verdicts = [(s, s.verdict()) for s in done]
        ev, hs, classes, samples, rule, cut, slow = 0, set(), {}, [], "", 0, 0
        for s, v in verdicts:
            try:
                x = s.stats()
            except (OSError, ValueError):
                continue
            ev += x["evaluations"]
            rule = x["rule"] or rule
            for k, c in (x["classes"] or {}).items():
                classes[k] = classes.get(k, 0) + c
            samples += (x["samples"] or [])[:3]
            cut += bool(x.get("cut"))
            slow = max(slow, x.get("slowest_ms", 0))
            hs |= s.hashes()
        viol = [s for s, v in verdicts if v == "violation"]
        errs = [s for s, v in verdicts if v == "error"]
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {"evaluations": ev, "distinct_nontrivial": len(hs), "rule": rule, "samples": samples[:16],
                         "classes": dict(sorted(classes.items())), "shards": len(done), "checks_per_shard": n, "short_runs_in_fresh_processes": sum(1 for s in done if s.opts.get("fresh") is True), "shards_cut_short_by_the_deadline": cut,
                         "slowest_case_cpu_ms": slow,
                         "time_zones": sorted({s.zone for s in done}), "known_findings_seen": 0},
            "assumptions": ["the process is not killed from outside", "encoding/json, time and strconv of the Go standard library are correct"],
            "wall_s": round(time.time() - t0, 2), "violations": len(viol),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
        if viol:
            s = viol[0]
            path = save_replay(s)
            print(re.sub(r"(?m)^\s+\[rapid\] draw.*\n", "", s.log)[:4000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        if errs or not done:
            for s in errs[:1]:
                print(s.log[-4000:])
                print("ERROR: shard %d of %s gave no answer (exit %s, timeout %s)" % (s.idx, prop, s.rc, s.timed_out))
            return 2
        print("OK property=%s tier=%s cases=%d distinct_nontrivial=%d slowest_case=%dms wall=%.1fs" % (prop, tier, ev, len(hs), slow, time.time() - t0))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    rec = json.load(open(path))
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        race = bool(rec["options"].get("race", False))
        binary = os.path.join(work, "b", "race.test" if race else "h.test")
        os.makedirs(os.path.dirname(binary))
        rc, out = build(binary, race)
        if rc != 0:
            print(out)
            return 2
        extra = []
        if rec["rapid_failfile"]:
            ff = os.path.join(work, "case.fail")
            open(ff, "w").write(rec["rapid_failfile"])
            extra = ["-rapid.failfile=" + ff]
        s = Shard(binary, work, rec["property"], 0, rec["seed"], rec["checks"], rec["options"], 3600, extra, alone=True)
        s.zone = rec["zone"]
        s.run()
        print(s.log[:8000])
        v = s.verdict()
        print("replay:", v)
        return {"ok": 0, "violation": 1}.get(v, 2)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def setup():
    work = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        for race in (False, True):
            rc, out = build(os.path.join(work, "h%d.test" % race), race)
            if rc != 0:
                print(out)
                return rc
            shutil.rmtree(os.path.join(work, "src"))
        print("harness builds")
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        return setup()
    if a[:1] == ["replay"] and len(a) == 2:
        return replay(a[1])
    if a[:1] == ["check"] and len(a) in (2, 3):
        tier = a[2] if len(a) == 3 else os.environ.get("VERIF_TIER", "quick")
        return check(a[1], "thorough" if tier == "thorough" else "quick")
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
