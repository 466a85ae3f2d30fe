#!/usr/bin/env python3
"""tryseed.py <id>... [--notest] [--check C07,C08]: confirms a planted change in a scratch copy: it builds, the stable tests pass with it,
demo.sh fails with it and passes without it; then runs the property's check against the copy. Nothing touches /repo."""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def ns(wt, cmd, timeout=900):
    return subprocess.run(["unshare", "-rm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (wt, cmd)],
                          capture_output=True, text=True, timeout=timeout)
def one(i, notest, checks):
    d = os.path.join(V, "seeded", i); wt = "/tmp/seed-" + i
    meta = json.load(open(d + "/meta.json"))
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", wt], check=True)
    demo = "/tmp/seed-demo-" + i
    shutil.rmtree(demo, ignore_errors=True); shutil.copytree(d, demo)
    for f in os.listdir(demo):
        if f.endswith((".diff", ".patch")) or f == "meta.json": os.unlink(os.path.join(demo, f))
    try:
        if not notest:
            r = ns(wt, "bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/demo.sh" % demo)
            print(i, "demo unchanged:", r.returncode, (r.stdout + r.stderr)[-200:].strip() if r.returncode else "")
        r = subprocess.run(["git", "-C", wt, "apply", d + "/patch.diff"], capture_output=True, text=True)
        if r.returncode: print(i, "patch does not apply", r.stderr); return
        if not notest:
            r = ns(wt, "bash /opt/vp/test.sh %s/out.json >%s/log 2>&1; tail -2 %s/log" % (demo, demo, demo))
            try:
                o = json.load(open(demo + "/out.json"))
            except Exception as e:
                print(i, "no test result", e, r.stdout[-300:]); return
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            passed = o.get("passed") or [k for k, v in o.get("tests", o).items() if v in ("PASS", "passed", True)]
            bad = [s for s in stable if s not in passed]
            print(i, "stable tests:", "all pass" if not bad else "BROKEN %s" % bad)
            r = ns(wt, "bash %s/demo.sh" % demo)
            print(i, "demo patched:", r.returncode, (r.stdout + r.stderr)[-300:].strip())
        for c in [] if nocheck else checks or [meta["property"]]:
            env = dict(os.environ, VP_REPO=wt, VP_EVID=demo + "/ev", VERIF_TIER="quick")
            r = subprocess.run(["python3", V + "/check.py", c], capture_output=True, text=True, env=env)
            print(i, "check", c, "->", r.returncode, "CAUGHT" if r.returncode == 1 and "VIOLATION property=%s" % c in r.stdout else "missed")
            print("   " + "\n   ".join((r.stdout + r.stderr[-300:]).strip().splitlines()[-6:])[:1500])
    finally:
        shutil.rmtree(wt, ignore_errors=True); shutil.rmtree(demo, ignore_errors=True)
a = sys.argv[1:]; nocheck = "--nocheck" in a; a = [x for x in a if x != "--nocheck"]; notest = "--notest" in a; a = [x for x in a if x != "--notest"]; checks = None
if "--check" in a: k = a.index("--check"); checks = a[k+1].split(","); del a[k:k+2]
for i in a or sorted(os.listdir(V + "/seeded")): one(i, notest, checks); sys.stdout.flush()
