"""C20: the compiler evaluates every operation of harness/ctime.cpp on every operand of the
bound as a constant expression; the program built from it evaluates the same again and
compares. A translation unit that builds without constant evaluation but not with it is a
violation (not a constant expression, or undefined behaviour during its evaluation)."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor

H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
GROUPS = 5
GCC = ["g++", "-fconstexpr-ops-limit=2000000000", "-fconstexpr-loop-limit=10000000", "-O1"]
CLANG = ["clang++", "-fconstexpr-steps=2000000000", "-O1"]
G14 = ("gcc-c++14", GCC + ["-std=c++14", "-march=native"])
C14 = ("clang-c++14", CLANG + ["-std=c++14", "-march=native"])
G20 = ("gcc-c++20", GCC + ["-std=c++20"])
C17 = ("clang-c++17", CLANG + ["-std=c++17"])
S = ["WithNan", "WithInf", "WithNanInf"]


def cfg(t, n, e, ft, s):
    return "%s,%d,%d,%s,PositSpec::%s" % (t, n, e, ft, s)


def plan(tier):
    """(compiler, configuration, full pairs up to this many bits, dense alphabet)"""
    r = []
    small = [cfg("int8_t", 6, 1, "uint8_t", S[0]), cfg("int8_t", 6, 0, "uint16_t", S[2]), cfg("int8_t", 5, 2, "uint8_t", S[1])]
    wide = [cfg("int16_t", 16, 1, "uint16_t", S[1]), cfg("int32_t", 32, 2, "uint64_t", S[0]), cfg("int16_t", 12, 2, "uint16_t", S[2]), cfg("int16_t", 10, 0, "uint32_t", S[0]), cfg("int32_t", 32, 2, "uint32_t", S[1]), cfg("int32_t", 24, 3, "uint32_t", S[2])]
    r += [(c, k, 8, 0) for k in small + wide for c in (G14, C14)]
    r += [(G14, cfg("int8_t", 8, 0, "uint8_t", S[1]), 8, 0)]
    if tier == "thorough":
        r += [(c, cfg("int8_t", n, e, "uint8_t", s), 8, 0) for n in (4, 5, 6, 7) for e in (0, 1, 2, 3) if e < n - 2 for s in S for c in (G14, C17)]
        r += [(c, cfg("int8_t", 8, e, ft, s), 8, 0) for e in (0, 1, 2) for s in S for ft in ("uint8_t", "uint16_t") for c in (G20, C14)]
        r += [(c, cfg(t, n, e, ft, s), 8, 1) for t, n, ft in (("int16_t", 16, "uint16_t"), ("int16_t", 16, "uint32_t"), ("int16_t", 12, "uint16_t"), ("int32_t", 32, "uint32_t"), ("int32_t", 32, "uint64_t"), ("int32_t", 20, "uint32_t")) for e in (0, 1, 2, 3) for s in S for c in (G20, C17)]
        r += [(c, k, 8, 0) for k in small + wide for c in (G20, C17)]
    return list(dict.fromkeys((c[0], k, f, d) for c, k, f, d in r))


FLAGS = dict([G14, C14, G20, C17])


def command(name, k, full, dense, g, out, extra=()):
    fl = FLAGS[name] if g != 5 else [f.replace("-std=c++", "-std=gnu++") for f in FLAGS[name]]  # hexadecimal floating constants
    return fl + ["-w", "-I" + REPO + "/include", "-DCFG=" + k, "-DFULLBITS=%d" % full, "-DDENSE=%d" % dense, "-DGROUP=%d" % g] + list(extra) + [os.path.join(H, "ctime.cpp"), "-o", out]


def one(job, tmp):
    (name, k, full, dense), g = job
    exe = os.path.join(tmp, re.sub(r"\W+", "_", "%s_%s_%d_%d" % (name, k, g, dense)))
    p = subprocess.run(command(name, k, full, dense, g, exe), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        q = subprocess.run(command(name, k, full, dense, g, exe, ["-DEVAL="]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if q.returncode:
            return "nobuild", q.stdout, {}
        if re.search(r"Killed|out of memory|cannot allocate", p.stdout):
            return "memory", p.stdout, {}
        m = [l for l in p.stdout.splitlines() if re.search(r"error:|note: (?!in inst|\(skip|in call|in defin|expanded|decl)", l)]
        why = [l for l in m if re.search(r"non-.constexpr|undefined|not a constant|overflow|shift|negative|exceed|subexpression|not usable|initializ", l)]
        w = re.search(r"/include/([\w.]+:\d+)(?=:\d+: (?:error|note: (?!in|decl)))", p.stdout)
        return "notconst", " | ".join(re.sub(r"^\S+/(\w+\.\w+:\d+):\d+:", r"\1:", l)[:220] for l in (why or m)[-2:]) + (" (%s)" % w.group(1) if w else ""), {}
    try:
        q = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=120)
    except subprocess.TimeoutExpired:
        return "run", "the program does not end", {}
    os.remove(exe)
    ops = {l.split("\t")[1]: int(l.split("\t")[2]) for l in q.stdout.splitlines() if l.startswith("OP\t")}
    diff = [l.split("\t")[1:] for l in q.stdout.splitlines() if l.startswith("DIFF\t")]
    if diff:
        return "diff", "%s on patterns %s, %s: %s as a constant expression, %s at run time" % tuple(diff[0]), ops
    if q.returncode:
        return "run", "the program stops with %d" % q.returncode, ops
    return "ok", "", ops


def explore(prop, tier, spec, tmp, build_variant, execute, compile_all):
    import check
    jobs = [(j, g) for g in (3, 0, 1, 2, 4) for j in plan(tier)]
    jobs += [((n, cfg("int8_t", 6, 1, "uint8_t", S[0]), 8, 0), 5) for n in sorted({j[0] for j in plan(tier)})]
    jobs.sort(key=lambda j: -(",8," in j[0][1]))
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        runs = list(ex.map(lambda j: one(j, tmp), jobs))
    found, by = [], {}
    for (j, g), (st, detail, ops) in zip(jobs, runs):
        if st == "nobuild":
            raise check.CompileFailure(command(*j, g, "/dev/null", ["-DEVAL="]), detail)
        if st == "memory":
            raise check.CheckError("out of memory while compiling: " + detail[-500:])
        r = by.setdefault(j[0], dict(variant=j[0], states=0, transitions=0, traces=0, skipped=0, outcomes=0, configs=0, ops={}, samples=[], config_names=set(), violations=[]))
        r["config_names"].add(j[1])
        for o, n in ops.items():
            r["ops"][o] = r["ops"].get(o, 0) + n
            r["transitions"] += n
            r["traces"] += 1
            r["outcomes"] += 1
        if g == 0 and ops:
            r["states"] += max(ops.values())
        if len(r["samples"]) < 3 and ops:
            r["samples"].append("%s: %s: compile-time tables equal run-time results (%s)" % (j[0], j[1], ", ".join("%s %d" % x for x in sorted(ops.items())[:2])))
        if st in ("diff", "notconst", "run"):
            found.append(dict(kind="ctime", property=prop, tier=tier, variant=j[0], job=list(j), group=g, cfg=j[1], op=st, n=2, args=[g, 0, 0], count=1, detail="%s <%s>: %s" % (j[0], j[1], detail)))
    for r in by.values():
        r["config_names"] = sorted(r["config_names"])
        r["configs"] = len(r["config_names"])
    found.sort(key=lambda v: v["op"] != "diff")
    return list(by.values()), found[:6]


def replay(v, tmp):
    st, detail, _ = one((tuple(v["job"]), v["group"]), tmp)
    if st in ("diff", "notconst", "run"):
        print("REPRODUCED: %s <%s>: %s" % (v["variant"], v["cfg"], detail))
        return 1
    print("not reproduced")
    return 0
