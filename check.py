#!/usr/bin/env python3
"""Runs the monitors of one property against the code in /repo's working tree.

  check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--repo DIR] [--scale F]
  check.py --replay REPLAYFILE        re-runs the single case a VIOLATION named
  check.py --build-only [PROPERTY..]

Exit 0: the monitors stayed silent (known findings are printed). Exit 1: a VIOLATION line was printed.
Any other exit: the check could not be carried out (build failure, harness failure).
"""
import sys, os, re, json, glob, time, subprocess, fcntl, fnmatch, shutil, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
JOBS = os.cpu_count() or 8
PKGS = ["avoidance", "local_planner", "safe_landing_planner", "global_planner"]
PKG_DEPS = {"avoidance": ["avoidance"], "local_planner": ["avoidance", "local_planner"],
            "safe_landing_planner": ["avoidance", "safe_landing_planner"],
            "global_planner": ["avoidance", "global_planner"]}

BASE_FLAGS = ["-std=c++14", "-O1", "-g1", "-fno-omit-frame-pointer", "-w", "-pthread", "-D_GLIBCXX_ASSERTIONS",
              "-DVERIF_HOOKS", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS"]
FLAVOURS = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    # the same, and every float/integer conversion whose value does not fit is fatal too
    "asanfc": ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"],
    "tsan": ["-fsanitize=thread"],
    "plain": ["-O2"],
}


def die(msg, code=2):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(code)


def parse_harness(path):
    """Directives: lines '// VH: key=value key=value'. One build/run per directive line."""
    out = []
    for line in open(path):
        m = re.match(r"//\s*VH:\s*(.*)", line)
        if m:
            d = {"libs": "", "flavour": "asan", "suites": "", "repeat": "1", "twin": "0", "serial": "0", "defs": "",
                 "shards": "0", "tier": ""}
            for kv in m.group(1).split():
                k, v = kv.split("=", 1)
                d[k] = v
            d["file"] = path
            d["name"] = os.path.splitext(os.path.basename(path))[0]
            out.append(d)
    return out


def harnesses_of(prop):
    fs = sorted(glob.glob(os.path.join(VERIF, "harness", prop + "*.cpp")))
    fs = [f for f in fs if re.match(re.escape(prop) + r"(_|\.)", os.path.basename(f))]
    return [d for f in fs for d in parse_harness(f)]


class Builder:
    def __init__(self, repo, bdir, seed=1):
        self.repo, self.bdir, self.seed = repo, bdir, seed
        self.gens = set()
        os.makedirs(bdir, exist_ok=True)
        self.lines = ["ninja_required_version = 1.8", "",
                      "rule gen", "  command = python3 $in_script $repo $out_dir && touch $out",
                      "  description = gen", "  restat = 1",
                      "rule cxx", "  command = g++ $flags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d",
                      "  deps = gcc", "  description = CXX $out",
                      "rule pch", "  command = g++ $flags -x c++-header -MMD -MF $out.d $in -o $out", "  depfile = $out.d",
                      "  deps = gcc", "  description = PCH $out",
                      "rule link", "  command = g++ $flags $in -o $out -lyaml-cpp -lpthread -ldl",
                      "  description = LINK $out", ""]
        self.done = set()
        self.targets = []
        self.gen = os.path.join(bdir, "gen")

    def run_gen(self):
        tmp = self.gen + ".new"
        shutil.rmtree(tmp, ignore_errors=True)
        r = subprocess.run([sys.executable, os.path.join(VERIF, "rosmock/gen.py"), self.repo, tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout)
            die("header generation failed")
        for g in sorted(self.gens):
            r = subprocess.run([sys.executable, os.path.join(VERIF, "harness", g), self.repo, tmp, str(self.seed)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                print(r.stdout)
                die("source generation %s failed" % g)
        # copy only what changed so ninja stays incremental
        for root, _, files in os.walk(tmp):
            for f in files:
                s = os.path.join(root, f)
                d = os.path.join(self.gen, os.path.relpath(s, tmp))
                os.makedirs(os.path.dirname(d), exist_ok=True)
                data = open(s, "rb").read()
                if not os.path.exists(d) or open(d, "rb").read() != data:
                    open(d, "wb").write(data)
        shutil.rmtree(tmp, ignore_errors=True)

    def flags(self, flavour, defs=()):
        inc = ["-I" + os.path.join(self.bdir, "pch", flavour), "-I" + self.gen,
               "-I" + os.path.join(VERIF, "rosmock/include"), "-I/usr/include/eigen3"]
        inc += ["-I" + os.path.join(self.repo, p, "include") for p in PKGS]
        inc += ["-I" + os.path.join(VERIF, "harness")]
        f = BASE_FLAGS + FLAVOURS[flavour]
        return f + list(defs) + inc

    def add(self, key, text, outs):
        if key in self.done:
            return
        self.done.add(key)
        self.lines.append(text)

    def pch(self, flavour):
        out = os.path.join(self.bdir, "pch", flavour, "rosmock_all.h.gch")
        os.makedirs(os.path.dirname(out), exist_ok=True)
        src = os.path.join(self.gen, "rosmock_all.h")
        self.add(out, "build %s: pch %s\n  flags = %s\n" % (out, src, " ".join(self.flags(flavour))), out)
        return out

    def obj(self, src, flavour, ros=True, defs=()):
        h = hashlib.sha1((src + " ".join(defs)).encode()).hexdigest()[:8]
        rel = os.path.basename(src)
        out = os.path.join(self.bdir, flavour, "%s.%s%s.o" % (rel, h, "" if ros else ".nr"))
        fl = self.flags(flavour, defs)
        dep = ""
        if ros:
            fl = fl + ["-include", "rosmock_all.h"]
            dep = " | " + self.pch(flavour)
        if src.startswith(self.repo):
            fl.append("-Dmain=repo_main_" + re.sub(r"\W", "_", os.path.splitext(rel)[0]))
        self.add(out, "build %s: cxx %s%s\n  flags = %s\n" % (out, src, dep, " ".join(fl)), out)
        return out

    def lib_sources(self, spec):
        if spec in PKGS:
            out = sorted(glob.glob(os.path.join(self.repo, spec, "src", "**", "*.cpp"), recursive=True))
            return [s for s in out if os.path.basename(s) != "mock_data_node.cpp"]
        return [os.path.join(self.repo, spec)]

    def harness(self, d):
        flavour = d["flavour"]
        defs = ["-D" + x for x in d["defs"].split(",") if x]
        ros = d.get("ros", "1") == "1"
        if d.get("gen"):
            self.gens.add(d["gen"])
        objs = []
        specs = []
        for spec in [x for x in d["libs"].split(",") if x]:
            for p in PKG_DEPS.get(spec, [spec]):
                if p not in specs:
                    specs.append(p)
        for spec in specs:
            for s in self.lib_sources(spec):
                objs.append(self.obj(s, flavour, ros))
        objs.append(self.obj(d["file"], flavour, ros, defs))
        objs.append(self.obj(os.path.join(VERIF, "harness/vh_main.cpp"), flavour, False))
        for extra in [x for x in d.get("src", "").split(",") if x]:
            objs.append(self.obj(os.path.join(VERIF, "harness", extra), flavour, ros, defs))
        out = os.path.join(self.bdir, flavour, d["name"] + ("_" + re.sub(r"\W", "_", d["defs"]) if d["defs"] else ""))
        self.add(out, "build %s: link %s\n  flags = %s\n" % (out, " ".join(objs), " ".join(BASE_FLAGS + FLAVOURS[flavour])), out)
        self.targets.append(out)
        return out

    def build(self):
        self.run_gen()
        nf = os.path.join(self.bdir, "build.ninja")
        text = "\n".join(self.lines) + "\n"
        if not os.path.exists(nf) or open(nf).read() != text:
            open(nf, "w").write(text)
        r = subprocess.run(["ninja", "-C", self.bdir, "-f", nf, "-j", str(JOBS)] + sorted(set(self.targets)),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            ls = [l for l in r.stdout.splitlines() if "error" in l or "FAILED" in l]
            print("\n".join(ls[:40] or r.stdout.splitlines()[-40:]))
            die("the harness does not build against the code in %s" % self.repo)


def san_key(log, kind):
    """A stable name for a sanitizer report: error class + innermost repository functions."""
    cls = None
    m = re.search(r"ERROR: (\w+Sanitizer): ([\w-]+)", log)
    if m:
        cls = m.group(2)
    m2 = re.search(r"WARNING: ThreadSanitizer: ([\w -]+?) \(", log)
    if m2:
        cls = "tsan-" + m2.group(1).strip().replace(" ", "-")
    m3 = re.search(r"([\w/.+-]+):\d+:\d+: runtime error: (.*)", log)
    if m3 and not m:
        txt = re.sub(r"-?\d[\d.e+-]*", "N", m3.group(2))
        txt = re.sub(r"0x[0-9a-fN]+", "P", txt)
        cls = "ub:" + os.path.basename(m3.group(1)) + ":" + "-".join(txt.split()[:8])
    m4 = re.search(r"Assertion [`'\"]?(.*?)['\"]? failed", log)
    if m4 and not (m or m3 or m2):
        cls = "assert:" + re.sub(r"\s+", "", m4.group(1))[:60]
    if cls is None:
        cls = kind
    fr = []
    for l in log.splitlines():
        m = re.match(r"\s*#\d+\s+(?:0x[0-9a-f]+ in )?(.+?)\s+(/[^\s:]+):\d+", l)
        if m and ("/src/" in m.group(2) or "/include/" in m.group(2)) and any("/%s/" % p in m.group(2) for p in PKGS):
            f = re.sub(r"\(.*", "", m.group(1))
            f = re.sub(r"<.*>", "", f)
            fr.append(f.split("::")[-1])
        if len(fr) >= 2:
            break
    return "san:" + cls + ("@" + "<".join(fr) if fr else "")


def san_env(fill):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("abort_on_error=0:halt_on_error=1:detect_leaks=0:exitcode=99:allocator_may_return_null=1:"
                         "max_malloc_fill_size=1048576:malloc_fill_byte=%d:detect_stack_use_after_return=1:"
                         "quarantine_size_mb=64:max_allocation_size_mb=8192" % fill)
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
    e["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0:suppressions=" + os.path.join(VERIF, "harness/tsan.supp")
    return e


_NO_ASLR = None


def no_aslr():
    """ThreadSanitizer's shadow layout does not survive every address-space randomisation."""
    global _NO_ASLR
    if _NO_ASLR is None:
        try:
            ok = subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
        except OSError:
            ok = False
        _NO_ASLR = ["setarch", "-R"] if ok else []
    return _NO_ASLR


class Runner:
    def __init__(self, prop, tier, seed, repo, scale):
        self.prop, self.tier, self.seed, self.repo, self.scale = prop, tier, seed, repo, scale
        self.viol = {}   # key -> (count, detail, replay dict)
        self.counts, self.samples, self.distinct, self.evals = {}, [], set(), 0
        self.notes = []
        self.hung = False
        self.t0 = time.time()
        self.runs = []

    def add_violation(self, key, detail, rep):
        if key in self.viol:
            c, d, r = self.viol[key]
            self.viol[key] = (c + 1, d, r)
        else:
            self.viol[key] = (1, detail, rep)

    def cmd(self, exe, d, extra):
        c = [exe, "--seed", str(self.seed)]
        if self.tier == "thorough":
            c.append("--thorough")
        if d["suites"]:
            c += ["--suites", d["suites"]]
        if self.scale != 1:
            c += ["--scale", str(self.scale)]
        return (no_aslr() if d["flavour"] == "tsan" else []) + c + extra

    def launch(self, exe, d, extra, out, fill):
        for suf in ("", ".crash", ".fails", ".log"):
            try:
                os.unlink(out + suf)
            except FileNotFoundError:
                pass
        log = open(out + ".log", "wb")
        # a code change that never stops allocating must not take the machine down
        p = subprocess.Popen(self.cmd(exe, d, ["--out", out] + extra), stdout=log, stderr=log, stdin=subprocess.DEVNULL,
                             env=san_env(fill), cwd=os.path.dirname(out))
        log.close()
        return p

    def absorb(self, out, d):
        if not os.path.exists(out):
            return None
        try:
            j = json.load(open(out))
        except Exception as e:
            die("unreadable harness result %s: %s" % (out, e))
        for f in j["failures"]:
            self.add_violation(f["suite"] + "/" + f["key"], f["detail"],
                               {"name": d["name"], "flavour": d["flavour"], "defs": d["defs"], "suite": f["suite"], "case": f["index"]})
        for k, v in j["counts"].items():
            self.counts[k] = self.counts.get(k, 0) + v
        self.evals += j["evaluations"]
        for s in j["samples"]:
            if len(self.samples) < 16 and not any(x.split("#")[0] == s.split("#")[0] for x in self.samples):
                self.samples.append(s)
        self.distinct.update(j["distinct"])
        return j

    def absorb_fails(self, out, d):
        if os.path.exists(out + ".fails"):
            for l in open(out + ".fails", errors="replace"):
                p = l.rstrip("\n").split("\t", 3)
                if len(p) == 4:
                    self.add_violation(p[0] + "/" + p[2], p[3],
                                       {"name": d["name"], "flavour": d["flavour"], "defs": d["defs"], "suite": p[0], "case": int(p[1])})

    def stop_early(self, pend, d, why):
        for it in pend:
            it[2].kill()
            it[2].wait()
            self.absorb_fails(it[1], d)
        self.notes.append(why)
        self.hung = True

    def run_harness(self, exe, d, rundir):
        n = int(d["shards"]) or JOBS
        for rep in range(int(d["repeat"])):
            fills = [0xbe, 0x00] if d["twin"] == "1" else [0xbe if rep % 2 == 0 else 0x41]
            digests = []
            for fi, fill in enumerate(fills):
                dg = {}
                pend = []
                for i in range(n):
                    out = os.path.join(rundir, "%s.%s.%d.%d.%d.json" % (d["name"], d["flavour"], rep, fi, i))
                    pend.append([i, out, self.launch(exe, d, ["--shard", "%d/%d" % (i, n)], out, fill), 0])
                while pend:
                    item = pend.pop(0)
                    i, out, p, restarts = item
                    while True:
                        try:
                            rc = p.wait(timeout=5)
                            break
                        except subprocess.TimeoutExpired:
                            if self.tier == "quick" and self.viol and time.time() - self.t0 > 600:
                                return self.stop_early(pend + [item], d, "stopped after ten minutes: a violation was found already")
                    log = open(out + ".log", errors="replace").read()
                    if d["flavour"] == "tsan":
                        self.tsan_reports(log, d)
                        if rc == 66:
                            rc = 0 if os.path.exists(out) else 66
                    if rc in (0, 1) and os.path.exists(out):
                        j = self.absorb(out, d)
                        dg.update(j["digests"])
                        continue
                    # crashed or hung
                    self.absorb_fails(out, d)
                    where = None
                    if os.path.exists(out + ".crash"):
                        c = open(out + ".crash").read().split()
                        if len(c) == 3:
                            where = (c[0], c[1], int(c[2]))
                    if where is None or where[1] in ("startup", "shutdown"):
                        if where is None and rc in (-9, 137):
                            die("harness %s was killed (out of memory?)" % d["name"])
                        key = san_key(log, "crash rc=%s" % rc)
                        if key.startswith("san:crash"):
                            print(log[-3000:])
                            die("harness %s failed outside any case (rc=%s)" % (d["name"], rc))
                        self.add_violation("startup/" + key, log[-1500:], {"name": d["name"], "flavour": d["flavour"], "defs": d["defs"], "suite": where[1] if where else "startup", "case": 0})
                        continue
                    kind, suite, idx = where
                    rdict = {"name": d["name"], "flavour": d["flavour"], "defs": d["defs"], "suite": suite, "case": idx}
                    if kind == "hang":
                        # inconclusive: run that one case alone, with four times the time, before calling it a hang
                        o2 = out + ".retry"
                        d2 = dict(d, suites=suite)
                        p2 = self.launch(exe, d2, ["--case", str(idx), "--wdmul", "4"], o2, fill)
                        rc2 = p2.wait()
                        if rc2 in (0, 1) and os.path.exists(o2):
                            self.absorb(o2, d)
                            self.notes.append("case %s#%d exceeded its wall-clock watchdog once and finished on retry" % (suite, idx))
                        else:
                            log2 = open(o2 + ".log", errors="replace").read()
                            kind2 = open(o2 + ".crash").read().split()[0] if os.path.exists(o2 + ".crash") else "crash"
                            if kind2 == "hang":
                                self.add_violation(suite + "/hang", "did not finish: case %d ran %s times its watchdog alone" % (idx, 4), rdict)
                                # that decides it: do not wait for every other case that hangs the same way
                                return self.stop_early(pend, d, "stopped at the first confirmed hang")
                            else:
                                self.add_violation(suite + "/" + san_key(log2, "abort"), log2[-1500:], rdict)
                    else:
                        self.add_violation(suite + "/" + san_key(log, kind), log[:3000], rdict)
                    if restarts < 12:
                        pend.append([i, out, self.launch(exe, d, ["--shard", "%d/%d" % (i, n), "--resume", "%s:%d" % (suite, idx)], out, fill), restarts + 1])
                digests.append(dg)
            if len(digests) == 2:
                a, b = digests
                bad = [k for k in a if k in b and a[k] != b[k]]
                self.counts["twin.compared"] = self.counts.get("twin.compared", 0) + len(a)
                for k in sorted(bad)[:5]:
                    s, idx = k.rsplit(":", 1)
                    self.add_violation(s + "/depends-on-uninitialised-memory", "the observable result of case %s differs between two runs of the same inputs whose freshly allocated memory was filled with different bytes" % k,
                                       {"name": d["name"], "flavour": d["flavour"], "defs": d["defs"], "suite": s, "case": int(idx), "twin": 1})

    def tsan_reports(self, log, d):
        for blk in re.findall(r"={10,}\nWARNING: ThreadSanitizer.*?(?=\n={10,}|\Z)", log, re.S):
            m = re.search(r"WARNING: ThreadSanitizer: ([^(\n]+)", blk)
            cls = m.group(1).strip().replace(" ", "-") if m else "report"
            # innermost repository function of each of the two stacks
            stacks, cur = [], None
            for l in blk.splitlines():
                if re.match(r"  \S", l):
                    cur = []
                    stacks.append((l.strip(), cur))
                m = re.match(r"\s+#\d+ (.+?) (/\S+?):\d+", l)
                if m and cur is not None and any("/%s/" % p in m.group(2) for p in PKGS) and "/harness/" not in m.group(2):
                    cur.append(re.sub(r"<.*>", "", re.sub(r"\(.*", "", m.group(1))).replace("avoidance::", "").replace("global_planner::", ""))
            fs = sorted({s[1][0] for s in stacks[:2] if s[1]})
            self.add_violation("race/%s@%s" % (cls, "+".join(fs) or "?"), blk[:2500],
                               {"name": d["name"], "flavour": d["flavour"], "defs": d["defs"], "suite": "", "case": -1})


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    args = sys.argv[1:]
    opt = {"tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
           "repo": os.environ.get("VERIF_REPO", "/repo"), "scale": 1.0}
    pos, replay, build_only = [], None, False
    i = 0
    while i < len(args):
        a = args[i]
        if a in ("--tier", "--seed", "--repo", "--scale"):
            v = args[i + 1]
            opt[a[2:]] = int(v) if a == "--seed" else float(v) if a == "--scale" else v
            i += 2
        elif a == "--replay":
            replay = args[i + 1]
            i += 2
        elif a == "--build-only":
            build_only = True
            i += 1
        else:
            pos.append(a)
            i += 1
    repo = os.path.realpath(opt["repo"])
    os.environ["VH_REPO"] = repo
    bdir = os.path.join(VERIF, "build", hashlib.sha1(repo.encode()).hexdigest()[:8])
    os.makedirs(bdir, exist_ok=True)
    lock = open(os.path.join(bdir, "lock"), "w")
    if replay:
        return do_replay(replay, repo, bdir, lock, opt)
    props = pos
    if build_only and not props:
        props = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
    t0 = time.time()
    fcntl.flock(lock, fcntl.LOCK_EX)
    b = Builder(repo, bdir, opt["seed"])
    todo = []
    for prop in props:
        hs = [h for h in harnesses_of(prop) if not h["tier"] or h["tier"] == opt["tier"] or build_only]
        if not hs:
            if build_only:
                continue
            die("no harness for property %s" % prop)
        for h in hs:
            todo.append((prop, h, b.harness(h)))
    b.build()
    fcntl.flock(lock, fcntl.LOCK_UN)
    if build_only:
        return 0
    tb = time.time() - t0
    rc = 0
    for prop in props:
        rc = max(rc, run_prop(prop, [(h, e) for p, h, e in todo if p == prop], opt, repo, tb))
    return rc


def run_prop(prop, hs, opt, repo, tb):
    t0 = time.time()
    rundir = os.path.join(VERIF, "build", "run", "%s.%d" % (prop, os.getpid()))
    os.makedirs(rundir, exist_ok=True)
    r = Runner(prop, opt["tier"], opt["seed"], repo, opt["scale"])
    try:
        for h, exe in hs:
            if not r.hung:
                r.run_harness(exe, h, rundir)
        known = load_known(prop)
        rdir = os.path.join(VERIF, "replays")
        shutil.rmtree(os.path.join(rdir, prop), ignore_errors=True)
        nviol = 0
        lines = []
        seen_known = {}
        for key in sorted(r.viol):
            cnt, detail, rep = r.viol[key]
            hit = [k for k in known if fnmatch.fnmatchcase(key, k[0])]
            if hit:
                seen_known[hit[0]] = seen_known.get(hit[0], 0) + cnt
                continue
            nviol += 1
            os.makedirs(os.path.join(rdir, prop), exist_ok=True)
            fn = os.path.join(rdir, prop, re.sub(r"[^\w.@-]+", "_", key)[:100] + ".json")
            rep = dict(rep, property=prop, seed=opt["seed"], tier=opt["tier"], key=key, detail=detail)
            json.dump(rep, open(fn, "w"), indent=1)
            lines.append("VIOLATION property=%s replay=%s" % (prop, fn))
            lines.append("  key: %s  (seen %d times)" % (key, cnt))
            lines.append("  " + "\n  ".join(detail.splitlines()[:12])[:1500])
        for k, n in seen_known.items():
            print("KNOWN-FINDING: property=%s %s" % (prop, k[1]))
        for k in known:
            if k not in seen_known:
                print("KNOWN-FINDING: property=%s %s (not exercised in this run)" % (prop, k[1]))
        if not nviol and (r.evals == 0 or not r.distinct):
            die("property %s: the monitors observed nothing" % prop)
        meta = next((json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl")) if json.loads(l)["id"] == prop), {})
        ev = {"property": prop, "tier": opt["tier"], "seed": opt["seed"], "level": "exploration",
              "coverage": {"evaluations": r.evals, "distinct_nontrivial": len(r.distinct),
                           "rule": RULES.get(prop, "Each case draws inputs/event sequences from a PRNG seeded by (seed, suite, case); a case counts as non-trivial when the monitor's guarded situation actually occurred, and is distinct by the hash of that observed situation."),
                           "samples": r.samples, "observed": dict(sorted(r.counts.items())),
                           "builds": sorted({h["flavour"] for h, _ in hs}), "notes": r.notes},
              "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "build_s": round(tb, 2), "violations": nviol}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        print("%s %s: %d evaluations, %d distinct non-trivial, %d violations, build %.0fs run %.0fs" %
              (prop, opt["tier"], r.evals, len(r.distinct), nviol, tb, time.time() - t0))
        for l in lines:
            print(l)
        return 1 if nviol else 0
    finally:
        if not os.environ.get("VH_KEEP"):
            shutil.rmtree(rundir, ignore_errors=True)


def do_replay(path, repo, bdir, lock, opt):
    rep = json.load(open(path))
    fcntl.flock(lock, fcntl.LOCK_EX)
    b = Builder(repo, bdir, rep["seed"])
    hs = [h for h in harnesses_of(rep["property"]) if h["name"] == rep["name"] and h["flavour"] == rep["flavour"] and h["defs"] == rep["defs"]]
    if not hs:
        die("no harness " + rep["name"])
    exe = b.harness(hs[0])
    b.build()
    fcntl.flock(lock, fcntl.LOCK_UN)
    c = (no_aslr() if rep["flavour"] == "tsan" else []) + [exe, "--seed", str(rep["seed"]), "-v"]
    if rep["tier"] == "thorough":
        c.append("--thorough")
    if rep["case"] >= 0:
        c += ["--suites", rep["suite"], "--case", str(rep["case"])]
    elif hs[0]["suites"]:
        c += ["--suites", hs[0]["suites"]]
    rc = subprocess.run(c, env=san_env(0xbe)).returncode
    if rep.get("twin"):
        rc = subprocess.run(c, env=san_env(0)).returncode or rc
    if rc:
        print("VIOLATION property=%s replay=%s" % (rep["property"], path))
    return 1 if rc else 0


RULES = {}
ASSUMPTIONS = ["ROS, PCL, tf, octomap and mavros are replaced by the deterministic in-process stand-ins in /verif/rosmock; the code of the four packages itself is compiled unchanged from /repo",
               "held on the executions explored, not proved for all"]

if __name__ == "__main__":
    sys.exit(main())
