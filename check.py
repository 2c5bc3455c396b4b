#!/usr/bin/env python3
"""Runs the monitors of one property: builds the harness binary from /repo's working tree,
runs its shards in parallel, merges what they observed and decides.

usage: check.py <ID> quick|thorough [--seed N] [--scale F]
       check.py --setup            build everything
       check.py --replay <file>    re-run one witnessed violation
"""
import fcntl, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from data import CHECKS  # noqa: E402

REPO = "/repo"
GO = "/opt/veriftools/go1.23.12/bin"
BUILD = os.path.join(VERIF, ".build")
REPLAY = os.path.join(VERIF, "replay")
NPROC = os.cpu_count() or 8


def env():
    e = dict(os.environ)
    e.update(HOME="/root", PATH=GO + ":" + os.environ.get("PATH", "/usr/bin:/bin"), GOTOOLCHAIN="local", GOPROXY="off",
             GOFLAGS="-mod=readonly", GOWORK="off", CGO_ENABLED="1", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE="/root/.cache/go-build", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="")
    return e


def die(msg, code=2):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(code)


def build(binary, race):
    os.makedirs(BUILD, exist_ok=True)
    name = binary + ("-race" if race else "")
    out = os.path.join(BUILD, name)
    with open(os.path.join(BUILD, name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cmd = ["go", "build"] + (["-race"] if race else []) + ["-tags", "verif", "-o", out, "./cmd/" + binary]
        r = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            die("the harness does not build against /repo:\n" + r.stdout[-4000:])
    return out


def known():
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", ln.strip())
            if m:
                res.append((m.group(1), m.group(2), m.group(3)))
    return res


FRAME = re.compile(r"^\s*(github\.com/solarisdb/solaris/\S+?)\(", re.M)


def top_frame(text):
    m = FRAME.search(text)
    return m.group(1).replace("github.com/solarisdb/solaris/", "") if m else None


def races(d):
    """yields (sig, text) for the data races the detector logged"""
    for f in sorted(os.listdir(d)):
        if not f.startswith("race."):
            continue
        txt = open(os.path.join(d, f), errors="replace").read()
        for blk in txt.split("=================="):
            if "WARNING: DATA RACE" not in blk:
                continue
            acc = [top_frame(p) for p in re.split(r"(?m)^(?:Previous |Goroutine )", blk)[:2]]
            fr = sorted({a for a in acc if a})
            yield ("race:" + "+".join(fr) if fr else None), blk.strip()


def crash(stderr):
    """the signature of an abnormal end of a shard"""
    m = re.search(r"(?m)^(panic: |fatal error: |SIGBUS|SIGSEGV|unexpected fault)", stderr)
    if not m:
        return None
    if "harness environment problem" in stderr:
        return None
    txt = stderr[m.start():]
    # the panicking goroutine goes first
    first = txt.split("\n\ngoroutine ")
    fr = top_frame("\n\ngoroutine ".join(first[:2]))
    if fr is None:
        fr = top_frame(txt)
    return "crash:" + fr if fr else None


def run(pid, tier, seed, scale, only=None):
    spec = CHECKS[pid]
    t0 = time.time()
    binary = build(spec["bin"], spec.get("race", False))
    scratch = tempfile.mkdtemp(prefix="vh-%s-" % pid, dir="/tmp")
    limit = 780 if tier == "quick" else 6 * 3600
    try:
        n = 1 if only else spec.get("shards", NPROC)
        procs = []
        for i in range(n):
            d = os.path.join(scratch, "s%d" % i)
            os.makedirs(d)
            e = env()
            e["GORACE"] = "log_path=%s/race halt_on_error=0 exitcode=0 history_size=4" % d
            e["GOMAXPROCS"] = str(spec.get("procs", 4))
            e["GOTRACEBACK"] = "all"
            e["TMPDIR"] = d
            cmd = [binary, "-prop", pid, "-tier", tier, "-seed", str(seed), "-shard", "%d/%d" % (i, n), "-out",
                   os.path.join(d, "report.json"), "-scratch", d, "-scale", str(scale)]
            if only:
                cmd += ["-case", only]
            procs.append((i, d, subprocess.Popen(cmd, env=e, stdout=subprocess.DEVNULL, stderr=open(os.path.join(d, "stderr"), "w"),
                                                 start_new_session=True)))
        deadline = t0 + limit
        viol, errs, reps = [], [], []
        for i, d, p in procs:
            hung = False
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                hung = True
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
            cur = "?"
            try:
                cur = open(os.path.join(d, "report.json.cur")).read()
            except OSError:
                pass
            err = open(os.path.join(d, "stderr"), errors="replace").read()
            rep = None
            try:
                rep = json.load(open(os.path.join(d, "report.json")))
            except (OSError, ValueError):
                pass
            for sig, txt in races(d):
                if sig is None:
                    errs.append("a data race in the harness itself:\n" + txt[:3000])
                else:
                    viol.append(dict(sig=sig, detail=txt[:6000], scen=cur.split(":")[0], idx=cur.split(":")[-1]))
            if rep:
                reps.append(rep)
                viol += rep["violations"] or []
            if hung:
                errs.append("shard %d did not finish in %ds, last case %s" % (i, limit, cur))
            elif not rep or not rep.get("done"):
                if p.returncode == 3 and rep:
                    continue  # the watchdog has reported the hang
                sig = crash(err)
                if sig:
                    viol.append(dict(sig=sig, detail=err[-8000:], scen=cur.split(":")[0], idx=cur.split(":")[-1]))
                else:
                    errs.append("shard %d ended with %s at case %s:\n%s" % (i, p.returncode, cur, err[-3000:]))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return reps, viol, errs, time.time() - t0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        for b, r in sorted({(c["bin"], c.get("race", False)) for c in CHECKS.values()}):
            build(b, r)
        print("built")
        return 0
    if a and a[0] == "--replay":
        rp = json.load(open(a[1]))
        _, viol, errs, _ = run(rp["property"], rp["tier"], rp["seed"], 1, "%s:%s" % (rp["scen"], rp["idx"]))
        for v in viol:
            print(v["sig"], "\n", v["detail"])
        for e in errs:
            print("error:", e)
        return 1 if viol else 0
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scale = 1.0
    if "--seed" in a:
        seed = int(a[a.index("--seed") + 1])
    if "--scale" in a:
        scale = float(a[a.index("--scale") + 1])
    spec = CHECKS[pid]
    reps, viol, errs, wall = run(pid, tier, seed, scale)

    counters, distinct, samples, assumptions, min_ev = {}, set(), [], [], []
    evals = cases = 0
    rule = ""
    for r in reps:
        evals += r["evaluations"]
        cases += r["cases"]
        distinct.update(r["distinct"] or [])
        rule = r["rule"]
        assumptions = r["assumptions"] or []
        min_ev = r["min_events"] or []
        for k, v in (r["counters"] or {}).items():
            counters[k] = counters.get(k, 0) + v
        for s in r["samples"] or []:
            if len(samples) < 12:
                samples.append(s)
    kn = [k for k in known() if k[0] == pid]
    fresh, matched = [], {}
    for v in viol:
        k = next((k for k in kn if re.fullmatch(k[1], v["sig"])), None)
        if k:
            matched[k] = matched.get(k, 0) + 1
        else:
            fresh.append(v)
    if not fresh and not errs:
        for m in min_ev:
            if not counters.get(m):
                errs.append("the run observed no %r events, so it decides nothing" % m)
    ev = dict(property=pid, tier=tier, seed=seed, level=spec["level"], wall_s=round(wall, 2), violations=len(fresh),
              assumptions=assumptions,
              coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=rule, samples=samples or ["none"],
                            cases=cases, events={k: v for k, v in sorted(counters.items())},
                            race_detector=bool(spec.get("race")), known_findings_seen=sum(matched.values())))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in kn:
        print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (pid, k[2], matched.get(k, 0)))
    print("%s %s: %d cases, %d evaluations, %d distinct, %.1fs" % (pid, tier, cases, evals, len(distinct), wall))
    if fresh:
        os.makedirs(REPLAY, exist_ok=True)
        seen = {}
        for v in fresh:
            seen.setdefault(v["sig"], v)
        for n, (sig, v) in enumerate(list(seen.items())[:8]):
            rp = os.path.join(REPLAY, "%s-%d.json" % (pid, n))
            with open(rp, "w") as f:
                json.dump(dict(property=pid, tier=tier, seed=seed, **v), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            print("  [%s] %s" % (sig, v["detail"][:700].replace("\n", "\n  ")))
        return 1
    if errs:
        die("\n".join(errs)[:6000])
    return 0


if __name__ == "__main__":
    sys.exit(main())
