#!/usr/bin/env python3
"""Confirms seeded changes in a scratch copy of /repo.  usage: seedtest.py [--no-tests] [--no-check] NAME...
For each: patch applies, builds, the stable tests pass, demo passes before and fails after, and the
check of its property reports it."""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("SEEDW", "/tmp/seedw")
R = S + "/repo"

def run(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)

def setup():
    os.makedirs(S, exist_ok=True)
    if not os.path.isdir(R):
        print(run("git clone -q /repo %s" % R).stdout)
    head = run("git -C /repo rev-parse HEAD").stdout.strip()
    run("git -C %s fetch -q origin; git -C %s checkout -q -f %s; git -C %s clean -fdq -e _build" % (R, R, head, R))
    for f in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + f).read().replace("/repo", R).replace("/opt/vp/build.sh", S + "/build.sh")
        open(S + "/" + f, "w").write(t)

def test():
    o = run("bash %s/test.sh %s/out.json" % (S, S))
    try:
        r = json.load(open(S + "/out.json"))
    except Exception:
        return "no result:\n" + o.stdout[-3000:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base if isinstance(base, list) else base.get("passed") or base.get("tests") or base.get("stable")
    miss = [t for t in want if t not in r["passed"]]
    return "ok" if not miss else "missing %d: %s\n%s" % (len(miss), miss[:5], o.stdout[-1500:] if len(miss) > 100 else "")

def main():
    a = sys.argv[1:]
    notests = "--no-tests" in a
    nocheck = "--no-check" in a
    names = [x for x in a if not x.startswith("--")] or sorted(os.listdir(V + "/seeded"))
    setup()
    res = {}
    print("base build", run("bash %s/build.sh" % S).returncode, flush=True)
    for n in names:
        d = V + "/seeded/" + n
        m = json.load(open(d + "/meta.json"))
        out = []
        r = run("bash %s/demo.sh" % d, cwd=R)
        out.append("demo-before=%d" % r.returncode)
        if r.returncode: print(r.stdout[-1500:])
        p = run("git -C %s apply %s/patch.diff" % (R, d))
        if p.returncode:
            print(n, "PATCH DOES NOT APPLY", p.stdout)
            continue
        try:
            b = run("bash %s/build.sh" % S)
            out.append("build=%d" % b.returncode)
            if b.returncode: print(b.stdout[-3000:])
            if not notests: out.append("tests=" + test())
            r = run("timeout 300 bash %s/demo.sh" % d, cwd=R)
            out.append("demo-after=%d" % r.returncode)
            if not nocheck:
                c = run("timeout 900 python3 %s/bin/check.py %s" % (V, m["property"]), env=dict(os.environ, PAPILIO_REPO=R, VERIF_SEED="1", VERIF_TIER="quick"))
                v = re.findall(r"^VIOLATION .*", c.stdout, re.M)
                why = re.findall(r"^.*(?:class|cls).*$", c.stdout, re.M)[:1]
                out.append("check rc=%d %s %s" % (c.returncode, "CAUGHT" if c.returncode == 1 and v else "MISSED", why))
                if c.returncode not in (0, 1): print(c.stdout[-3000:])
        finally:
            run("git -C %s checkout -q -f ." % R)
            run("git -C %s clean -fdq -e _build" % R)
        print(n, m["property"], " ".join(out), flush=True)
    print("restore", run("bash %s/build.sh" % S).returncode)

main()
