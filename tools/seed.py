"""Helper to plant a bug: applies edits to /repo, validates build/tests/demo/check, saves under seeded/, undoes."""
import json, os, subprocess, sys, time
R = "/verif"
HEAD = '''import sys
import missing_ephemeris  # noqa: stands in for the absent data file
import warnings
warnings.simplefilter("ignore")
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=800, **k)


def seed(id, prop, edits, needs, breaks, demo, check=True):
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "repo dirty"
    d = "%s/seeded/%s" % (R, id)
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.py", "w").write(HEAD + demo.lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH=/opt/vp/plugins PYTHONDONTWRITEBYTECODE=1\nexec timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    r = sh("bash %s/demo.sh" % d, cwd="/repo")
    ok0 = r.returncode == 0
    if not ok0:
        print(id, "DEMO FAILS ON CLEAN TREE", r.stdout[-800:], r.stderr[-1500:])
    try:
        for f, old, new in edits:
            p = "/repo/src/tatc/" + f
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        b = sh("bash /opt/vp/build.sh")
        t = sh("bash /opt/vp/test.sh /tmp/seed_o.json")
        o = json.load(open("/tmp/seed_o.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        miss = sorted(set(base) - set(o["passed"]))
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        print("%s: build=%s tests_missing=%s demo_clean=%s demo_bug=%s" % (id, b.returncode, miss[:3], ok0, r.returncode != 0), (r.stdout + r.stderr)[-150:].replace("\n", " | "))
        if check:
            t0 = time.time()
            c = sh("./check.sh %s" % prop, cwd=R, env=dict(os.environ, VERIF_TIER="quick", VERIF_SEED="1"))
            print("   check rc=%d %.0fs %s" % (c.returncode, time.time() - t0, "CAUGHT" if c.returncode == 1 and "VIOLATION property=%s " % prop in c.stdout else "MISSED"))
            print("   ", c.stdout.strip()[-500:].replace("\n", "\n    "))
    finally:
        sh("git -C /repo checkout -- .")
