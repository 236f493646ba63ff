#!/usr/bin/env python3
"""plant.py ID [--new] [--notest] [--seconds S] : test one planted bug of seeded/ID against /repo.
Applies seeded/ID/patch.diff to /repo, builds, runs the stable tests, the
demonstration and the property's check, undoes it, builds and runs the
demonstration again."""
import sys, os, json, subprocess, argparse
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("id"); ap.add_argument("--notest", action="store_true"); ap.add_argument("--nocheck", action="store_true")
ap.add_argument("--tier", default="quick"); ap.add_argument("--seed", default="1")
a = ap.parse_args()
d = V + "/seeded/" + a.id
prop = json.load(open(d + "/meta.json"))["property"]


def run(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


assert not run("git -C /repo status --porcelain --untracked-files=no").stdout, "repo not clean"
res = []
env = {k: v for k, v in os.environ.items() if k != "SIM_BUILD_DIR"}
try:
    r = run("git -C /repo apply %s/patch.diff" % d)
    if r.returncode:
        sys.exit("patch does not apply: " + r.stderr)
    if a.notest:
        r = run("bash /opt/vp/build.sh")
        if r.returncode:
            print(r.stdout[-2000:], r.stderr[-2000:])
            sys.exit("does not build")
    else:
        run("bash /opt/vp/test.sh /tmp/plant.json")
        o = json.load(open("/tmp/plant.json")); b = json.load(open("/opt/vp/BASELINE.json"))
        lost = set(b["stable"]) - set(o["passed"])
        print("tests: %d passed, stable tests lost: %s" % (len(o["passed"]), sorted(lost)[:5]))
    r = run("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
    print("demo with the patch: exit %d %s" % (r.returncode, (r.stdout + r.stderr)[-300:].strip()))
    if not a.nocheck:
        r = run("python3 check.py %s --tier %s --seed %s" % (prop, a.tier, a.seed), cwd=V, env=env)
        print("check %s: exit %d\n%s" % (prop, r.returncode, r.stdout[-900:]))
finally:
    run("git -C /repo checkout -- .")
    run("bash /opt/vp/build.sh")
r = run("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
print("demo without: exit %d %s" % (r.returncode, (r.stdout + r.stderr)[-300:].strip()))
