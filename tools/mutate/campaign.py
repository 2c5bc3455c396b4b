#!/usr/bin/env python3
"""campaign.py MUTANTS.jsonl OUT.jsonl [workers]: for every mutant: does it build, do the stable tests pass, does a shard of
the checks of the file's properties see it. Works in copies under /tmp/mut only."""
import json, os, shutil, subprocess, sys, threading, queue, re, time
sys.path.insert(0, "/verif/tools")
from data import CHECKS
MAP = [
 ("pkg/storage/chunkfs/chunk.go", "D08 D01 D07 R01 R04 R02"), ("pkg/storage/chunkfs/provider.go", "R04 D01 R03 R01 R02 D07"), ("pkg/storage/chunkfs/replicator.go", "R01 R03 R02"),
 ("pkg/storage/chunkfs/scanner.go", "R02"), ("pkg/storage/chunkfs/", "R03 R04 D01 R01 R02"), ("pkg/storage/logfs/helper", "D02"), ("pkg/storage/logfs/", "D01 D04 D02 D06 D07 D05 R04 D03"),
 ("pkg/storage/helper", "L00"), ("pkg/storage/buntdb", "M01 M02 M03 D01"), ("pkg/storage/postgres", "M04 A05"), ("pkg/storage/cache", "M01 M02 M04"),
 ("pkg/api/rest", "A03 A02 A01 A04"), ("pkg/api/", "D02 D03 D05 D04 A03 A02 A01"), ("pkg/ql/evaluator", "Q01 Q05"), ("pkg/ql/intervalb", "Q02 D04 Q05"), ("pkg/ql/datetime", "Q05"),
 ("pkg/ql/translator", "Q04 M04 Q05"), ("pkg/ql/", "Q01 Q05 Q04 Q02"), ("pkg/intervals", "Q03 Q02"), ("pkg/grpc", "A04 A01 A03"), ("pkg/http", "A04 A01 A03"), ("pkg/server/config", "L09"), ("pkg/server", "A05 A04"), ("pkg/db", "L09"),
 ("golibs/kvs/distlock", "K03"), ("golibs/kvs", "K01 K02 K03"), ("golibs/container/lru/rel", "L02 R04"), ("golibs/container/lru", "L01 M02"), ("golibs/container/iterable", "L03 D03"),
 ("golibs/container/ring", "L04"), ("golibs/container/bytes", "L04"), ("golibs/container", "L12"), ("golibs/xbinary", "L05 D08"), ("golibs/strutil/hash", "L05"), ("golibs/strutil", "L12"),
 ("golibs/errors", "L13 L05 A02"), ("golibs/timeout", "L06"), ("golibs/sss", "L07 R01"), ("golibs/context", "L08"), ("golibs/chans", "L08"), ("golibs/config", "L09"), ("golibs/ulid", "L10 D01"),
 ("golibs/files/mm", "L11 D01 D08"), ("golibs/files", "L11 R01"), ("golibs/cast", "L12"), ("golibs/transport", "L12 A04"), ("golibs/datetime", "L14 Q05"), ("golibs/sync", "L08")]
def props(f):
    for p, l in MAP:
        if f.startswith(p):
            return [x for x in l.split() if x in CHECKS]
    return []
STABLE = json.load(open("/opt/vp/BASELINE.json"))
STABLE = set(STABLE["stable"] if "stable" in STABLE else STABLE)
def env(w):
    e = dict(os.environ)
    e.update(HOME="/root", PATH="/opt/veriftools/go1.23.12/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -trimpath", GOWORK="off", CGO_ENABLED="1",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE="/tmp/mut/cache", GOMAXPROCS="2", TMPDIR=w + "/tmp", GOTRACEBACK="all")
    return e
def sh(cmd, cwd, e, to):
    p = subprocess.Popen(cmd, cwd=cwd, env=e, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=to)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return 124, ""
outlock = threading.Lock()
def work(i, q, outf, shards):
    w = "/tmp/mut/w%d" % i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w + "/tmp")
    subprocess.check_call("git -C /repo archive --prefix=repo/ HEAD | tar x -C %s; cp -a /verif/harness %s/harness" % (w, w), shell=True)
    gm = open(w + "/harness/go.mod").read().replace("=> /repo", "=> " + w + "/repo")
    open(w + "/harness/go.mod", "w").write(gm)
    e = env(w)
    _, pk = sh("go list ./... | grep -vxE 'github.com/solarisdb/solaris/(golibs/timeout|pkg/storage/postgres)'", w + "/repo", e, 60)
    pk = " ".join(pk.split())
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            return
        path = w + "/repo/" + m["file"]
        src = open(path, "rb").read()
        b = src
        for ed in sorted(m["edits"], key=lambda x: -x["off"]):
            b = b[:ed["off"]] + ed["new"].encode() + b[ed["end"]:]
        open(path, "wb").write(b)
        res = dict(m)
        t0 = time.time()
        try:
            rc, o = sh("go build ./...", w + "/repo", e, 120)
            if rc:
                res["res"] = "nobuild"
                continue
            if not m.get("skiptests"):
                rc, o = sh("go test -json -vet=off -timeout 60s %s" % pk, w + "/repo", e, 240)
                passed = set(re.findall(r'"Action":"pass","Package":"([^"]+)","Test":"([^"]+)"', o))
                passed = {a + "/" + t for a, t in passed}
                miss = STABLE - passed
                if miss:
                    res["res"] = "tests"
                    res["by"] = sorted(miss)[:2]
                    continue
            res["res"] = "SURVIVED"
            built = {}
            for p in props(m["file"]):
                c = CHECKS[p]
                k = (c["bin"], c.get("race", False))
                if k not in built:
                    out = w + "/bin-%s-%s" % k
                    rc, o = sh("go build %s -o %s ./cmd/%s" % ("-race" if k[1] else "", out, k[0]), w + "/harness", dict(e, GOFLAGS="-mod=readonly -trimpath"), 300)
                    if rc:
                        res["res"] = "harness-nobuild"
                        break
                    built[k] = out
                s = w + "/s"
                shutil.rmtree(s, ignore_errors=True)
                os.makedirs(s)
                e2 = dict(e, GORACE="log_path=%s/race halt_on_error=0 exitcode=0" % s, GOMAXPROCS="4", TMPDIR=s)
                rc, o = sh("%s -prop %s -tier quick -seed 1 -shard 0/%d -out %s/report.json -scratch %s" % (built[k], p, shards, s, s), w, e2, 300)
                v = []
                try:
                    r = json.load(open(s + "/report.json"))
                    v = [x["sig"] for x in r["violations"] or [] if not x["sig"].startswith("refused-oversized")]
                    done = r["done"]
                except (OSError, ValueError):
                    done = False
                if any(f.startswith("race.") for f in os.listdir(s)):
                    v.append("race")
                if not done and rc != 3:
                    v.append("crash-or-error:%s:%s" % (rc, ";".join(re.findall(r"(?m)^(?:panic|fatal error|CHECK-ERROR).*", o)[:1])))
                if v:
                    res["res"] = "caught"
                    res["by"] = [p] + sorted(set(v))[:3]
                    break
        finally:
            open(path, "wb").write(src)
            res["t"] = round(time.time() - t0, 1)
            with outlock:
                outf.write(json.dumps(res) + "\n")
                outf.flush()
def main():
    ms = [json.loads(l) for l in open(sys.argv[1])]
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 8
    shards = int(sys.argv[4]) if len(sys.argv) > 4 else 8
    q = queue.Queue()
    for m in ms:
        q.put(m)
    with open(sys.argv[2], "a") as f:
        ts = [threading.Thread(target=work, args=(i, q, f, shards)) for i in range(n)]
        [t.start() for t in ts]
        [t.join() for t in ts]
main()
