#!/usr/bin/env python3
"""Applies seeded changes to /repo one after another, runs tests, demonstration and the property's check, and undoes them.

  tryseed.py [ID..] [--all-checks] [--repo DIR]     with --repo DIR the change is applied to that clone, and the stable tests are not run"""
import sys, os, subprocess, json, glob, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
if "--repo" in sys.argv:
    k = sys.argv.index("--repo")
    REPO = sys.argv[k + 1]
    del sys.argv[k:k + 2]
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(V + "/seeded/*/patch.diff"))


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def stable():
    if REPO != "/repo": return []
    run(["bash", "/opt/vp/test.sh", "/tmp/tryseed.json"])
    r = json.load(open("/tmp/tryseed.json"))
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(want - set(r["passed"]))


assert not run(["git", "-C", REPO, "status", "--short"]).stdout.strip(), "/repo is not clean"
for i in ids:
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    clean = run(["bash", d + "/demo.sh"], cwd=REPO)
    r = run(["git", "-C", REPO, "apply", d + "/patch.diff"])
    if r.returncode:
        print(i, "DOES NOT APPLY", r.stdout)
        continue
    try:
        miss = stable()
        demo = run(["bash", d + "/demo.sh"], cwd=REPO)
        props = [prop] if "--all-checks" not in sys.argv else [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
        hits = []
        for p in props:
            c = run([sys.executable, V + "/check.py", p, "--tier", "quick", "--seed", "1", "--repo", REPO], env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            if c.returncode == 1 and "VIOLATION property=" + p in c.stdout:
                hits.append(p + " " + "; ".join(re.findall(r"key: (\S+)", c.stdout)[:3]))
            elif c.returncode:
                hits.append(p + " rc=%d" % c.returncode)
    finally:
        run(["git", "-C", REPO, "checkout", "--", "."])
    bad = []
    if miss: bad.append("tests fail: %s" % miss)
    if clean.returncode: bad.append("demo fails on the unchanged tree (%d): %s" % (clean.returncode, clean.stdout[-300:]))
    if demo.returncode != 1: bad.append("demo on the changed tree: %d %s" % (demo.returncode, demo.stdout[-200:]))
    print(i, prop, "CAUGHT by " + ", ".join(hits) if hits else "MISSED", "| " + " ".join(bad) if bad else "", flush=True)
stable()
