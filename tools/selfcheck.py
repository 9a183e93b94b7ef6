#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks rely on are present and that the stand-in headers can be generated."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bad = [t for t in ("g++", "ninja", "python3") if not shutil.which(t)]
d = tempfile.mkdtemp(prefix="verif-setup-")
try:
    r = subprocess.run([sys.executable, os.path.join(V, "rosmock/gen.py"), os.environ.get("VERIF_REPO", "/repo"), os.path.join(d, "gen")])
    src = os.path.join(d, "t.cpp")
    open(src, "w").write('#include <eigen3/Eigen/Core>\n#include <boost/config.hpp>\n#include <yaml-cpp/yaml.h>\nint main(){return 0;}\n')
    for f in ("address,undefined", "thread"):
        if subprocess.run(["g++", "-fsanitize=" + f, src, "-o", os.path.join(d, "t"), "-lyaml-cpp"]).returncode:
            bad.append("-fsanitize=" + f)
finally:
    shutil.rmtree(d)
if bad or r.returncode:
    print("missing:", bad)
    sys.exit(1)
print("ok")
