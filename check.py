#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's working tree.

  check.py C13                 tier and seed from VERIF_TIER (quick) and VERIF_SEED (1)
  check.py C13 --replay FILE   runs the single case recorded in FILE
  check.py --setup             builds everything once (fills the build cache)

exit 0: held on everything observed, 1: violated, 2: no verdict.
"""
import concurrent.futures, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPO = "/repo"
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS  # noqa: E402

NOBODY = 65534
GOTIT = "github.com/anivanovic/gotit"
BUDGET = {"quick": 800}  # seconds, then there is no verdict

STOP, LOCK, LIVE = threading.Event(), threading.Lock(), set()


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def stop():
    """Ends the other shards: one violation is enough."""
    STOP.set()
    with LOCK:
        for p in LIVE:
            kill(p)


def go_env():
    env = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True)
    if out.returncode == 0:
        for kv in out.stdout.split(b"\0"):
            k, _, v = kv.decode(errors="replace").partition("=")
            if k in ("PATH", "GOROOT", "GOPATH", "GOCACHE", "GOMODCACHE", "GOPROXY", "GOSUMDB", "GOTOOLCHAIN", "HOME", "GOFLAGS"):
                env[k] = v
    env["GOFLAGS"] = "-mod=readonly"
    env["GOPROXY"] = "off"
    env["GOWORK"] = "off"
    return env


def build(pid, out, env):
    cfg = CHECKS[pid]
    cmd = ["go", "test", "-c", "-vet=off", "-tags", "verif", "-o", out]
    if cfg.get("race"):
        cmd.append("-race")
    cmd.append("./" + pid.lower())
    return subprocess.run(cmd, cwd=HARNESS, env=env, capture_output=True, text=True)


def build_cli(out, env):
    return subprocess.run(["go", "build", "-o", out, "./cmd/gotit"], cwd=REPO, env=env, capture_output=True, text=True)


def harness_stuck(text):
    """Is a goroutine waiting for a lock of the harness itself?"""
    for b in text.split("\n\n"):
        if re.match(r"goroutine \d+ \[sync\.(RW)?Mutex", b):
            frames = [l for l in b.splitlines() if re.match(r"(verif/|%s)" % re.escape(GOTIT), l)]
            if frames and frames[0].startswith("verif/"):
                return True
    return False


class Shard:
    """One process at a time, restarted after a case that left goroutines behind."""

    def __init__(self, pid, bin_, scratch, n, shards, env, tier, seed, only=None):
        self.pid, self.bin, self.n, self.shards, self.only = pid, bin_, n, shards, only
        self.dir = os.path.join(scratch, "s%d" % n)
        os.makedirs(os.path.join(self.dir, "tmp"))
        self.env = dict(env, VERIF_TIER=tier, VERIF_SEED=str(seed), TMPDIR=os.path.join(self.dir, "tmp"))
        cfg = CHECKS[pid]
        self.env["GOMAXPROCS"] = str(cfg.get("procs", 2))
        self.env["GORACE"] = "halt_on_error=1 exitcode=66"
        self.env["GOTRACEBACK"] = "all"
        self.env["HOME"] = self.dir
        self.ids = {}
        if os.geteuid() == 0:
            # the code under test can reach nothing but this shard's files
            self.ids = dict(user=NOBODY, group=NOBODY, extra_groups=[])
            for d in (self.dir, os.path.join(self.dir, "tmp")):
                os.chown(d, NOBODY, NOBODY)
        self.results, self.violation, self.error = [], None, None
        self.runs = 0

    def proc(self, start, case=None, watchdog=None):
        self.runs += 1
        out = os.path.join(self.dir, "r%d.json" % self.runs)
        env = dict(self.env, VERIF_OUT=out, VERIF_SHARD=str(self.n), VERIF_SHARDS=str(self.shards), VERIF_START=str(start))
        if case:
            env["VERIF_CASE"] = case
        if watchdog:
            env["VERIF_WATCHDOG"] = str(watchdog)
        errf = os.path.join(self.dir, "e%d" % self.runs)
        with open(errf, "wb") as err:
            p = subprocess.Popen([self.bin, "-test.timeout=0"], cwd=self.dir, env=env, stdout=err, stderr=err, stdin=subprocess.DEVNULL, start_new_session=True, **self.ids)
            with LOCK:
                LIVE.add(p)
            if STOP.is_set():
                kill(p)
            p.wait()
            kill(p)  # and what it started
            with LOCK:
                LIVE.discard(p)
        with open(errf, errors="replace") as f:
            text = f.read()
        res = None
        try:
            with open(out) as f:
                res = json.load(f)
        except (OSError, ValueError):
            pass
        pos, cid = None, None
        try:
            with open(out + ".cur") as f:
                a, _, cid = f.read().partition(" ")
                pos = int(a)
        except (OSError, ValueError):
            pass
        return p.returncode, res, text, pos, cid

    def found(self, case, message, trace=None, text=""):
        if STOP.is_set() and not self.violation:
            return
        stop()
        self.violation = {"case": case, "message": message, "trace": trace or [], "stderr": text[-60000:]}

    def run(self):
        start = 0
        while True:
            rc, res, text, pos, cid = self.proc(start, self.only)
            if STOP.is_set() and not (res and res.get("violation")):
                if res:
                    self.results.append(res)
                return
            if res:
                self.results.append(res)
            if res and res.get("violation"):
                v = res["violation"]
                return self.found(v["case"], v["message"], v.get("trace"), text)
            if rc == 0 and res and res.get("done"):
                return
            if rc == 3:
                self.error = "harness failure\n" + text[-4000:]
                return
            if rc == 5 and res:
                if self.only:
                    return
                start = res["next"]
                continue
            if cid is None:
                self.error = "monitor process ended with %s before its first case\n%s" % (rc, text[-4000:])
                return
            if rc == 4:
                # is it the case or the machine? once more, alone
                rc2, res2, text2, _, _ = self.proc(0, cid, 150)
                if res2 and res2.get("violation"):
                    v = res2["violation"]
                    return self.found(v["case"], v["message"], v.get("trace"), text2)
                if rc2 == 4:
                    if GOTIT in text2 and not harness_stuck(text2):
                        return self.found(cid, "did not finish: the code under test runs for ever", None, text2)
                    self.error = "case %s does not finish\n%s" % (cid, text2[-4000:])
                    return
                if rc2 not in (0, 5):
                    return self.crash(cid, rc2, text2)
                if self.only:
                    return
                start = pos + 1
                continue
            if rc < 0 and GOTIT not in text:
                rc2, res2, text2, _, _ = self.proc(0, cid)
                if res2 and res2.get("violation"):
                    v = res2["violation"]
                    return self.found(v["case"], v["message"], v.get("trace"), text2)
                if rc2 in (0, 5):
                    start = pos + 1
                    continue
                if rc2 < 0:
                    return self.found(cid, "the process is killed (signal %d) on this case, twice" % -rc2, None, text2)
                return self.crash(cid, rc2, text2)
            return self.crash(cid, rc, text)

    def crash(self, cid, rc, text):
        m = re.search(r"WARNING: DATA RACE|^panic: .*|^fatal error: .*|^runtime: goroutine stack exceeds.*|^SIG[A-Z]+: .*", text, re.M)
        if m and (GOTIT in text or "/repo/" in text):
            what = "data race" if "DATA RACE" in m.group(0) else m.group(0)
            at = text[m.start():m.start() + 6000]
            return self.found(cid, "%s\n%s" % (what, at), None, text)
        self.error = "monitor process ended with %s in case %s\n%s" % (rc, cid, text[-6000:])


def merge(results):
    cov = {"evaluations": 0, "cases": 0, "distinct": set(), "counters": {}, "samples": [], "leaks": 0}
    for r in results:
        cov["evaluations"] += r["evaluations"]
        cov["cases"] += r["cases"]
        cov["distinct"].update(r["distinct"] or [])
        for k, v in (r["counters"] or {}).items():
            if k.startswith("max "):
                cov["counters"][k] = max(v, cov["counters"].get(k, v))
            else:
                cov["counters"][k] = cov["counters"].get(k, 0) + v
        cov["samples"] += r["samples"] or []
        cov["leaks"] += len(r.get("leaks") or [])
    return cov


def evidence(pid, tier, seed, cov, wall, violations, shards):
    cfg = CHECKS[pid]
    doc = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": cov["evaluations"],
            "distinct_nontrivial": len(cov["distinct"]),
            "rule": cfg["rule"],
            "samples": cov["samples"][:6],
            "cases": cov["cases"],
            "monitor_events": dict(sorted(cov["counters"].items())),
            "cases_that_left_goroutines": cov["leaks"],
            "processes": shards,
            "exhaustive": False,
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(d, pid + ".json"))


def setup():
    env = go_env()
    scratch = tempfile.mkdtemp(prefix="gotit-verif-")
    rc = 0
    try:
        for pid in CHECKS:
            p = build(pid, os.path.join(scratch, "x"), env)
            if p.returncode:
                print(pid, p.stdout, p.stderr)
                rc = 1
        p = build_cli(os.path.join(scratch, "cli"), env)
        rc = rc or p.returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def main():
    if "--setup" in sys.argv:
        return setup()
    pid = sys.argv[1]
    cfg = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    if "--replay" in sys.argv:
        with open(sys.argv[sys.argv.index("--replay") + 1]) as f:
            rep = json.load(f)
        only, tier, seed = rep["case"], rep["tier"], rep["seed"]
    t0 = time.time()
    env = go_env()
    scratch = tempfile.mkdtemp(prefix="gotit-verif-")
    os.chmod(scratch, 0o755)
    signal.signal(signal.SIGTERM, lambda *_: (stop(), sys.exit(2)))
    try:
        bin_ = os.path.join(scratch, pid.lower() + ".test")
        p = build(pid, bin_, env)
        if p.returncode:
            print("cannot build the harness against the tree:\n" + p.stdout + p.stderr)
            return 2
        if cfg.get("cli"):
            cli = os.path.join(scratch, "gotit")
            p = build_cli(cli, env)
            if p.returncode:
                print("cannot build the program:\n" + p.stdout + p.stderr)
                return 2
            env["VERIF_CLI"] = cli
        shards = 1 if only else cfg.get("shards", 8)
        work = [Shard(pid, bin_, scratch, n, shards, env, tier, seed, only) for n in range(shards)]
        timer = None
        if tier in BUDGET:
            timer = threading.Timer(BUDGET[tier], stop)
            timer.daemon = True
            timer.start()
        with concurrent.futures.ThreadPoolExecutor(shards) as ex:
            list(ex.map(lambda s: s.run(), work))
        if timer:
            timer.cancel()
        results = [r for s in work for r in s.results]
        cov = merge(results)
        bad = [s.violation for s in work if s.violation]
        errs = [s.error for s in work if s.error]
        wall = time.time() - t0
        if only is None:
            evidence(pid, tier, seed, cov, wall, len(bad), sum(s.runs for s in work))
        if bad:
            rdir = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            for i, v in enumerate(bad):
                path = os.path.join(rdir, "%s-%d.json" % (pid, i))
                with open(path, "w") as f:
                    json.dump(dict(v, property=pid, tier=tier, seed=seed, how="python3 check.py %s --replay %s" % (pid, path)), f, indent=1)
                print("case %s: %s" % (v["case"], v["message"][:3000]))
                print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        if STOP.is_set():
            print("NO VERDICT property=%s: out of time" % pid)
            return 2
        if errs:
            print("NO VERDICT property=%s" % pid)
            for e in errs[:2]:
                print(e)
            return 2
        if only is None and (cov["evaluations"] == 0 or not cov["distinct"]):
            print("NO VERDICT property=%s: the monitors observed nothing" % pid)
            return 2
        print("HELD property=%s tier=%s seed=%d cases=%d evaluations=%d distinct=%d wall=%.1fs" % (
            pid, tier, seed, cov["cases"], cov["evaluations"], len(cov["distinct"]), wall))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
