#!/usr/bin/env python3
"""Mutation run: how many mechanical changes that pass the stable tests do the checks see?

  run.py MUTANTS.jsonl RESULTS.jsonl [WORKERS] [SECONDS-PER-PROPERTY]

Self-assessment only; no check uses it. Works on a copy of /repo's sources under
/tmp/mut and resumes where RESULTS.jsonl ends. A mutant is run against each
property with a fraction of the quick budget until one reports a violation.
"""
import json, os, shutil, subprocess, sys, threading, time, collections, re

MUTS, OUT = sys.argv[1], sys.argv[2]
W = int(sys.argv[3]) if len(sys.argv) > 3 else 8
SEC = float(sys.argv[4]) if len(sys.argv) > 4 else 5
ONLY = os.environ.get("MUT_PROPS", "").split()
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ROOT = "/tmp/mut"
GO = "/opt/veriftools/go1.27.3"
CONF = json.load(open(V + "/tools/checks.json"))["checks"]
PROPS = ONLY or sorted(CONF)
SRC = ROOT + "/snap/thrift"  # a copy of /repo/lib/go/src/thrift
GOLD = ROOT + "/snap/generation/golden/gen-go/simple"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
lock = threading.Lock()
kills = collections.defaultdict(collections.Counter)

def env(**kw):
    e = {"PATH": GO + "/bin:/usr/local/bin:/usr/bin:/bin", "HOME": "/root", "GOENV": "off", "GOTOOLCHAIN": "local",
         "GO111MODULE": "off", "GOPROXY": "off", "GOFLAGS": "", "GOWORK": "off", "CGO_ENABLED": "0"}
    e.update(kw)
    return e

def run(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, **kw)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -1, "timeout"

def snapshot():
    if not os.path.isdir(ROOT + "/snap"):
        os.makedirs(ROOT + "/snap")
        shutil.copytree("/repo/lib/go/src/thrift", SRC)
        shutil.copytree("/repo/tests/generation", ROOT + "/snap/generation")

def prep(k):
    d = "%s/w%d" % (ROOT, k)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/t/src/simple")
    shutil.copytree(SRC, d + "/t/src/thrift")
    for f in os.listdir(GOLD):
        if f.endswith(".go"):
            shutil.copy(GOLD + "/" + f, d + "/t/src/simple")
    for f in os.listdir(ROOT + "/snap/generation"):
        if f.endswith("_test.go"):
            shutil.copy(ROOT + "/snap/generation/" + f, d + "/t/src/simple")
    if not os.path.exists(d + "/vinstr"):
        rc, o = run([GO + "/bin/go", "build", "-o", d + "/vinstr", "vinstr"], 120, env=env(GOPATH=V + "/sim", GOCACHE=ROOT + "/gc%d" % k))
        assert rc == 0, o
    return d

def one(k, d, m):
    p = d + "/t/src/thrift/" + m["file"]
    orig = open(SRC + "/" + m["file"], "rb").read()
    assert orig[m["start"]:m["end"]].decode() == m["old"]
    r = dict(m)
    try:
        open(p, "wb").write(orig[:m["start"]] + m["new"].encode() + orig[m["end"]:])
        gc = ROOT + "/gc%d" % k
        rc, o = run([GO + "/bin/go", "test", "-json", "-vet=off", "-count=1", "-timeout", "20s", "thrift", "simple"], 60,
                    env=env(GOPATH=d + "/t", GOCACHE=gc, GOMAXPROCS="2"), cwd=d)
        ok = set()
        for l in o.splitlines():
            try:
                x = json.loads(l)
            except ValueError:
                continue
            if x.get("Action") == "pass" and x.get("Test"):
                ok.add(x["Package"] + "/" + x["Test"]); ok.add(x["Package"] + "::" + x["Test"]); ok.add(x["Package"] + "." + x["Test"]); ok.add(x["Test"])
        if not ok:
            r["result"] = "nocompile" if "build failed" in o or "build-fail" in o else "tests"
            return r
        if [t for t in STABLE if t not in ok]:
            r["result"] = "tests"
            return r
        b = d + "/b"
        shutil.rmtree(b, ignore_errors=True)
        os.makedirs(b + "/src")
        for n in ("thrift", "simple"):
            # the instrumenter leaves test files out
            rc, o = run([d + "/vinstr", d + "/t/src/" + n, b + "/src/" + n], 60, env=env())
            if rc:
                r["result"] = "instr-failed"; r["out"] = o[-300:]
                return r
        rc, o = run([GO + "/bin/go", "test", "-vet=off", "-c", "-o", b + "/x", "vprops"], 200,
                    env=env(GOPATH=b + ":" + V + "/sim", GOCACHE=gc, GOMAXPROCS="2"), cwd=d)
        if rc:
            r["result"] = "simbuild-failed"; r["out"] = o[-600:]
            return r
        t0 = time.time()
        order = sorted(PROPS, key=lambda q: (-kills[m["func"]][q], -kills[m["file"]][q], q))
        r["killed_by"] = []
        for q in order:
            out = b + "/o.json"
            n = CONF[q]["quick"]
            rc, o = run([b + "/x", "-test.run", "^TestSim$", "-test.timeout", "0"], SEC + 60, cwd=b,
                        env=env(GOMAXPROCS="1", GOGC="200", VMODE="run", VPROP=q, VSEED="1", VFROM="0", VTO=str(n), VSTEP="1", VOUT=out,
                                VTIER="quick", VWALL=str(int(SEC)), VMAXVIOL="1"))
            hit = None
            if rc != 0 or not os.path.exists(out):
                hit = "crash/hang " + o[-200:]
            else:
                v = json.load(open(out))["violations"]
                os.remove(out)
                if v:
                    hit = "%s %s run %d: %s" % (v[0]["variant"], v[0]["class"], v[0]["run"], v[0]["message"][:160])
            if hit:
                with lock:
                    kills[m["func"]][q] += 1
                    kills[m["file"]][q] += 1
                r["killed_by"].append([q, hit])
                if not os.environ.get("MUT_ALL"):
                    break
        r["secs"] = round(time.time() - t0, 1)
        r["result"] = "killed" if r["killed_by"] else "SURVIVED"
        return r
    finally:
        open(p, "wb").write(orig)

def main():
    muts = [json.loads(l) for l in open(MUTS)]
    done = set()
    if os.path.exists(OUT):
        for l in open(OUT):
            x = json.loads(l)
            done.add((x["file"], x["start"], x["end"], x["new"], x["old"]))
            for q, _ in x.get("killed_by") or []:
                kills[x["func"]][q] += 1
                kills[x["file"]][q] += 1
    todo = [m for m in muts if (m["file"], m["start"], m["end"], m["new"], m["old"]) not in done]
    snapshot()
    print(len(muts), "mutants,", len(todo), "to do")
    it = iter(todo)
    f = open(OUT, "a")
    def work(k):
        d = prep(k)
        while True:
            with lock:
                m = next(it, None)
            if m is None:
                return
            try:
                r = one(k, d, m)
            except Exception as e:
                r = dict(m, result="error", out=repr(e))
            with lock:
                f.write(json.dumps(r) + "\n")
                f.flush()
    ts = [threading.Thread(target=work, args=(k,)) for k in range(W)]
    for t in ts: t.start()
    for t in ts: t.join()
main()
