#!/usr/bin/env python3
"""Builds the packages' own gtests (most of which need ROS and are not built by /opt/vp/build.sh) on the stand-ins in
/verif/rosmock and runs them: used to see that a fix commit keeps them passing. upstream_tests.py [REPO]"""
import sys, os, glob, subprocess
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
repo = os.path.realpath(sys.argv[1] if len(sys.argv) > 1 else "/repo")
bdir = "/tmp/upstream_build"
b = check.Builder(repo, bdir)
exes = []
for pkg in check.PKGS:
    objs = []
    for p in check.PKG_DEPS[pkg]:
        for s in b.lib_sources(p):
            objs.append(b.obj(s, "asan"))
    for t in sorted(glob.glob(repo + "/%s/test/*.cpp" % pkg)):
        o = b.obj(t, "asan")
        objs.append(o)
    out = bdir + "/test_" + pkg
    b.add(out, "build %s: link %s\n  flags = %s -Wl,--as-needed\n" % (out, " ".join(objs), " ".join(check.BASE_FLAGS + check.FLAVOURS["asan"])), out)
    b.targets.append(out)
    exes.append(out)
# tests keep their own main; link gtest
b.lines = [l.replace("-Dmain=repo_main_main", "") .replace("-lyaml-cpp", "-lyaml-cpp -lgtest") for l in b.lines]
b.build()
rc = 0
for e in exes:
    r = subprocess.run([e], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=check.san_env(0xbe))
    tail = [l for l in r.stdout.splitlines() if "PASSED" in l or "FAILED" in l or "ERROR" in l]
    print(os.path.basename(e), r.returncode, tail[-6:])
    rc = rc or r.returncode
sys.exit(rc)
