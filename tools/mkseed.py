#!/usr/bin/env python3
"""Writes seeded/<id>/ from a specification: edits to /repo, a demonstration program and the sources it needs.

  mkseed.py SPEC.py      SPEC defines: id, prop, needs, breaks, edits=[(file, old, new)], srcs=[repo sources], demo (C++), ros, gen
The edits are made in a scratch worktree; /repo is not touched."""
import sys, os, subprocess, json, shutil, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds demo.cpp against the code in the current directory and runs it: 0 if the guarantee holds.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
INC="-Iavoidance/include -Ilocal_planner/include -Isafe_landing_planner/include -Iglobal_planner/include -I/usr/include/eigen3"
%s
g++ -std=c++14 -O1 -g -w -pthread %s $INC $SRC "$D/demo.cpp" -o "$T/demo" %s || exit 3
timeout 120 "$T/demo"
'''
ROS = '''python3 "$D/rosmock/gen.py" . "$T/gen" > /dev/null || exit 3
INC="$INC -I$T/gen -I$D/rosmock/include -include $T/gen/rosmock_all.h -DBOOST_BIND_GLOBAL_PLACEHOLDERS"
'''


def main(path):
    s = {}
    exec(open(path).read(), s)
    d = os.path.join(V, "seeded", s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    wt = tempfile.mkdtemp(prefix="mkseed.")
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A -f && git -c user.name=x -c user.email=x commit -qm x" % (wt, wt), shell=True)
    for f, old, new in s["edits"]:
        p = os.path.join(wt, f)
        t = open(p).read()
        assert t.count(old) == 1, "%s: %d matches of %r" % (f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.check_output(["git", "-C", wt, "diff"], text=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    shutil.rmtree(wt)
    base = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
    for f, _, _ in s["edits"]:  # only lines of the original repository count
        orig = set(subprocess.check_output(["git", "-C", "/repo", "show", base + ":" + f], text=True).splitlines())
        cur, own = None, []
        for l in diff.splitlines():
            if l.startswith("--- "): cur = l[6:]
            elif l.startswith("-") and cur == f and l[1:].strip() and l[1:] not in orig: own.append(l)
        if own: print(s["id"], "changes lines that are not the original's:", *own, sep="\n  ")
    if not any(l.startswith("-") and not l.startswith("---") for l in diff.splitlines()): print(s["id"], "only adds lines")
    ros = s.get("ros", True)
    if ros:
        shutil.copytree(os.path.join(V, "rosmock"), os.path.join(d, "rosmock"), ignore=shutil.ignore_patterns("__pycache__"))
    pre = (ROS if ros else "") + 'SRC="%s"' % " ".join(s["srcs"])
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % (pre, s.get("flags", ""), "-lyaml-cpp -ldl" if ros else ""))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.cpp"), "w").write(s["demo"].lstrip())
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


main(sys.argv[1])
