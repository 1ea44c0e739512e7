"""C17: the same exploration under several builds must give the same results, and no
build may execute undefined behaviour. Each build executes harness/finger.cpp, which
prints one fingerprint per (configuration, operation)."""
import os, re
from concurrent.futures import ThreadPoolExecutor

H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
NS = 8
UB = ["-fsanitize=undefined,address,float-divide-by-zero", "-fno-sanitize=float-divide-by-zero", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
# uninitialized variables hold different bits, so a result that depends on one differs
PATTERN, ZERO = "-ftrivial-auto-var-init=pattern", "-ftrivial-auto-var-init=zero"
# as on targets without a native 128 bit integer: the emulation of the library is used
NO128 = "-U__SIZEOF_INT128__"
BUILDS = [  # first: the reference build (the flags of the project)
    ("gcc-O2-native-c++11", "g++", ["-std=c++11", "-O2", "-march=native"]),
    ("gcc-O0-portable-c++11", "g++", ["-std=c++11", "-O0", PATTERN, "-funsigned-char"]),
    ("gcc-O3-native-c++17", "g++", ["-std=c++17", "-O3", "-march=native", ZERO]),
    ("clang-O2-native-c++14", "clang++", ["-std=c++14", "-O2", "-march=native", PATTERN]),
    ("clang-O1-portable-c++17", "clang++", ["-std=c++17", "-O1", ZERO]),
    ("clang-sanitized-c++14", "clang++", ["-std=c++14", "-O1"] + UB),
    ("gcc-sanitized-no128-c++17", "g++", ["-std=c++17", "-O1", NO128] + UB),
    ("gcc-O1-synthesis-c++14", "g++", ["-std=c++14", "-O1", "-march=native", "-DFPGAHLS"]),
    ("clang-O1-deferred-c++11", "clang++", ["-std=c++11", "-O1", "-march=native", "-DPOSITMUL"]),
]
MORE = [
    ("clang-O3-native-c++11", "clang++", ["-std=c++11", "-O3", "-march=native"]),
    ("gcc-O2-portable-c++20", "g++", ["-std=c++20", "-O2"]),
    ("clang-O0-portable-c++20", "clang++", ["-std=c++20", "-O0"]),
    ("gcc-O3-unsafe-vectorized-c++14", "g++", ["-std=c++14", "-O3", "-mavx2", "-mbmi", "-funroll-loops", "-ftree-vectorize"]),
    ("gcc-sanitized-c++17", "g++", ["-std=c++17", "-O1"] + UB),
    ("clang-O2-no128-c++11", "clang++", ["-std=c++11", "-O2", NO128]),
    ("clang-O2-synthesis-no128-c++17", "clang++", ["-std=c++17", "-O2", "-DFPGAHLS", NO128]),
    ("gcc-O2-lto-native-c++11", "g++", ["-std=c++11", "-O2", "-march=native", "-flto"]),
]
ENV = {"ASAN_OPTIONS": "detect_leaks=0:handle_segv=0:handle_sigfpe=0:handle_abort=0", "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=0"}


def command(cxx, flags, shard, out):
    return [cxx] + flags + ["-w", "-I" + REPO + "/include", "-I" + H, "-DNSHARD=%d" % NS, "-DSHARD=%d" % shard, os.path.join(H, "finger.cpp"), "-o", out]


def parse(out):
    fp, end = {}, None
    for l in out.splitlines():
        q = l.split("\t")
        if q[0] == "FP" and len(q) == 5:
            fp[(q[1], q[2])] = (q[3], int(q[4]))
        elif q[0] == "END":
            end = [int(x) for x in q[1:4]]
    return fp, end


def trouble(out, err):
    """what a build that did not finish was doing"""
    cfg = op = "?"
    a = b = "0"
    for l in out.splitlines():
        if l.startswith("CRASH\t"):
            _, sig, cfg, op, a, b = l.split("\t")[:6]
    m = re.search(r"runtime error: .*|AddressSanitizer: .*", err)
    w = re.search(r"[\w./]*/include/[\w.]+:\d+", err)
    return cfg, op, a, b, (m.group(0)[:200] if m else "abnormal end") + (" at " + w.group(0) if w else "")


def explore(prop, tier, spec, tmp, build_variant, execute, compile_all):
    builds = BUILDS + (MORE if tier == "thorough" else [])
    d = os.path.join(tmp, "fp")
    os.makedirs(d)
    exe = {(n, s): os.path.join(d, "%s.%d" % (n, s)) for n, _, _ in builds for s in range(NS)}
    compile_all([command(cxx, fl, s, exe[(n, s)]) for n, cxx, fl in builds for s in range(NS)])
    jobs = [(n, s) for n, _, _ in builds for s in range(NS)]
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        runs = dict(zip(jobs, ex.map(lambda j: execute(exe[j], [], 600, ENV), jobs)))
    results, found, fps = [], [], {}
    for n, _, _ in builds:
        fp, st, tr, tc = {}, 0, 0, 0
        for s in range(NS):
            status, out, err = runs[(n, s)]
            f, end = parse(out)
            fp.update(f)
            if status != "ok" or end is None:
                cfg, op, a, b, what = trouble(out, err)
                found.append(dict(kind="differential", property=prop, tier=tier, variant=n, shard=s, cfg=cfg, op=op, n=2, args=[int(a), int(b), 0], count=1, crash=True,
                                  detail="build %s stops (%s): %s" % (n, status, what)))
            else:
                st, tr, tc = st + end[0], tr + end[1], tc + end[2]
        fps[n] = fp
        ops = {}
        for (c, o), (h, k) in fp.items():
            ops[o] = ops.get(o, 0) + k
        results.append(dict(variant=n, states=st, transitions=tr, traces=tc, skipped=0, outcomes=len(set(fp.values())), configs=len({c for c, _ in fp}), ops=ops,
                            samples=["%s: %s %s = %s" % (n, c, o, h) for (c, o), (h, k) in sorted(fp.items())[:3]], config_names=sorted({c for c, _ in fp}), violations=[]))
    base = builds[0][0]
    for n, _, _ in builds[1:]:
        for key in sorted(set(fps[base]) & set(fps[n])):
            if fps[base][key] != fps[n][key]:
                c, o = key
                v = locate(exe, execute, base, n, c, o)
                if v:
                    v.update(property=prop, tier=tier)
                    found.append(v)
                    break
    found.sort(key=lambda v: 0 if not v.get("crash") else 1)
    return results, found[:6]


def dumpof(exe, execute, n, c, o):
    out = ""
    for s in range(NS):
        st, x, _ = execute(exe[(n, s)], ["--dump", c, o], 600, ENV)
        out += x
    return [l for l in out.splitlines() if l and not l.startswith("CRASH")]


def locate(exe, execute, base, n, c, o):
    for x, y in zip(dumpof(exe, execute, base, c, o), dumpof(exe, execute, n, c, o)):
        if x != y:
            a, b, r = x.split()
            return dict(kind="differential", variant=n, base=base, cfg=c, op=o, n=2, args=[int(a), int(b), 0], count=1, detail="%s gives %s, %s gives %s" % (base, r, n, y.split()[2]))
    return None


def replay(v, tmp):
    import check
    builds = {b[0]: b for b in BUILDS + MORE}
    names = [v["variant"]] + ([v["base"]] if "base" in v else [])
    exe = {(n, s): os.path.join(tmp, "%s.%d" % (n, s)) for n in names for s in range(NS)}
    check.compile_all([command(builds[n][1], builds[n][2], s, exe[(n, s)]) for n in names for s in range(NS)])
    if "base" in v:
        w = locate(exe, check.execute, v["base"], v["variant"], v["cfg"], v["op"])
        if w:
            print("REPRODUCED: %s %s %s: %s" % (w["cfg"], w["op"], w["args"], w["detail"]))
            return 1
    else:
        st, out, err = check.execute(exe[(v["variant"], v["shard"])], [], 600, ENV)
        if st != "ok":
            print("REPRODUCED:", trouble(out, err))
            return 1
    print("not reproduced")
    return 0
