"""Writes C14_tables.h: random transition tables built with the macros of usm.h, together with the edges that
tools/generate_flow_diagram.py documents for each, plus the edges of the committed diagrams of the two planners."""
import os, random, re, subprocess, sys, tempfile, shutil
repo, out, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
rng = random.Random(seed * 7919 + 14)
tool = os.path.join(repo, "tools/generate_flow_diagram.py")
TR = ["NEXT1", "NEXT2", "NEXT3", "NEXT4", "ERROR"]


def edges_of(dot):
    es = []
    for m in re.finditer(r'"([^"]+)" -> "([^"]+)" \[label="([^"]*)"', dot):
        for l in m.group(3).split("\\n"):
            es.append((m.group(1), m.group(2), l))
    return es


def emit(name, es):
    return "static const std::vector<DotEdge> %s = {%s};\n" % (name, ", ".join('{"%s", "%s", "%s"}' % e for e in es))


docs = ["// generated", "#pragma once", "#include <vector>", "struct DotEdge { const char* from; const char* to; const char* label; };"]
h = ["// generated", "#pragma once", '#include "C14_docs.h"']
tmp = tempfile.mkdtemp(prefix="verif-c14-")
tables = []
try:
    for i in range(24):
        n = rng.randint(1, 7)
        names = ["S%d%s" % (k, rng.choice(["", "_A", "_LONG_NAME"])) for k in range(n)]
        en = "E%d" % i
        err = rng.choice(names)
        listed = [s for s in names if rng.random() < 0.85]
        rng.shuffle(listed)
        if not listed:
            listed = [names[0]]
        want = {}
        rows = []
        for s in listed:
            ts = [t for t in TR if rng.random() < (0.5 if t != "ERROR" else 0.2)]
            rng.shuffle(ts)
            maps = []
            for t in ts:
                d = rng.choice(names)
                want[(s, t)] = d
                maps.append("USM_MAP(usm::Transition::%s, %s::%s)" % (t, en, d))
            rows.append("      USM_STATE(transition, %s::%s, %s)" % (en, s, ";\n         ".join(maps)))
        body = ("%s next%d(%s currentState, usm::Transition transition) {\n  USM_TABLE(\n      currentState, %s::%s,\n%s);\n}\n"
                % (en, i, en, en, err, ";\n".join(rows)))
        cpp = os.path.join(tmp, "t.cpp")
        open(cpp, "w").write(body)
        r = subprocess.run([sys.executable, tool, cpp, cpp + ".dot"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ok = r.returncode == 0 and os.path.exists(cpp + ".dot")
        es = edges_of(open(cpp + ".dot").read()) if ok else [("TOOL", "FAILED", "x")]
        if ok:
            os.unlink(cpp + ".dot")
        h.append("enum class %s { %s };" % (en, ", ".join(names)))
        h.append(body)
        h.append(emit("dot%d" % i, es))
        # reference semantics: what the table says, everything else goes to the error state
        ref = []
        for s in names:
            ref.append("{%s}" % ", ".join(str(names.index(want.get((s, t), err))) for t in TR))
        h.append("static const int ref%d[][5] = {%s};" % (i, ", ".join(ref)))
        h.append("static const bool map%d[][5] = {%s};" % (i, ", ".join("{%s}" % ", ".join("true" if (s, t) in want else "false" for t in TR) for s in names)))
        tables.append('{"%s", %d, {%s}, %d, &dot%d, &ref%d[0][0], &map%d[0][0], {%s}, [](int s, usm::Transition t) { return (int)next%d((%s)s, t); }}'
                      % (en, n, ", ".join('"%s"' % x for x in names), names.index(err), i, i, i,
                         ", ".join("true" if x in listed else "false" for x in names), i, en))
finally:
    shutil.rmtree(tmp)
h.append("struct Table { const char* name; int n; std::vector<const char*> names; int err; const std::vector<DotEdge>* dot; const int* ref; const bool* mapped; std::vector<bool> listed; int (*next)(int, usm::Transition); };")
h.append("static const std::vector<Table> kTables = {\n%s};" % ",\n".join(tables))
for nm, p in (("local", "local_planner/src/nodes/waypoint_generator.cpp.dot"), ("slp", "safe_landing_planner/src/nodes/waypoint_generator.cpp.dot")):
    docs.append(emit("kDoc_" + nm, edges_of(open(os.path.join(repo, p)).read())))
open(os.path.join(out, "C14_tables.h"), "w").write("\n".join(h) + "\n")
open(os.path.join(out, "C14_docs.h"), "w").write("\n".join(docs) + "\n")
