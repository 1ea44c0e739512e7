# What each check builds and explores; check.py runs it.
def std(src, nshard=8, **kw):
    v = dict(sources=[(src, nshard)])
    v.update(kw)
    return v

CHECKS = {}
for k in ["C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C15","C18","C24"]:
    CHECKS[k] = dict(variants=[("native", std(k.lower() + ".cpp"))])

CHECKS["C15"]["variants"] = [("native", std("c15.cpp", 8))]
CHECKS["C16"] = dict(variants=[("native", std("c16.cpp", 4))])
CHECKS["C19"] = dict(variants=[("native", std("c19.cpp", 1, std="gnu++14")), ("portable", std("c19.cpp", 1, std="gnu++14", opt=["-O2"]))])
CHECKS["C17"] = dict(variants=[], custom="differential")
CHECKS["C10"]["variants"] = [("native", std("c10.cpp", 16, opt=["-O0"]))]
CHECKS["C10"]["thorough_variants"] = [("all-es", std("c10.cpp", 32, opt=["-O0"], defs=["-DFULL=1"]))]

CHECKS["C12"]["variants"] = [("native", std("c12.cpp")), ("deferred", std("c12m.cpp", 4, defs=["-DPOSITMUL"]))]

TAB = ["src/posit8.cpp", "src/posit10.cpp", "src/posit12.cpp"]
CHECKS["C13"] = dict(variants=[
    ("regenerated", std("c13.cpp", 1, gen=["posit8_gen", "posit10_gen", "posit12_gen"], repo_src=TAB)),
    ("shipped", std("c13.cpp", 1, gen=["posit10_gen"], repo_src=TAB + ["src/posit8_tbl.cpp", "src/posit12_tbl.cpp"])),
])

def minifloat(e, m):
    return ("binary8-%d-%d" % (e, m), dict(sources=[("c14b.cpp", 1)], gen=["binary8_gen"], repo_src=["src/binary8.cpp"], defs=["-DBINARY8_SPEC", "-DBINARY8_EXP=%d" % e, "-DBINARY8_MAN=%d" % m]))
CHECKS["C14"] = dict(thorough_variants=[minifloat(2, 5), minifloat(6, 1)], variants=[
    ("native", dict(sources=[("c14.cpp", 1), ("c14b.cpp", 1), ("c14c.cpp", 4), ("c14d.cpp", 4)], gen=["binary8_gen"], repo_src=["src/binary8.cpp"])),
    ("portable", dict(sources=[("c14.cpp", 1), ("c14b.cpp", 1), ("c14c.cpp", 4), ("c14d.cpp", 4)], gen=["binary8_gen"], repo_src=["src/binary8.cpp"], opt=["-O2"])),
])
# tables generated for other exponent sizes and flavours, chosen as the headers allow
def tabcfg(e8, e10, e12, mode):
    d = ["-DWANTMODE=PositSpec::" + mode, "-DCFGNAME=\" (%s)\"" % mode]
    for n, e in ((8, e8), (10, e10), (12, e12)):
        d += ["-DWANT%d=%d" % (n, e), "-DPOSIT%d_SPEC" % n, "-DPOSIT%d_ES=%d" % (n, e), "-DPOSIT%d_MODE=PositSpec::%s" % (n, mode)]
    return ("es-%d-%d-%d-%s" % (e8, e10, e12, mode), dict(CHECKS["C13"]["variants"][0][1], defs=d))
CHECKS["C13"]["variants"] += [tabcfg(2, 0, 1, "WithInf"), tabcfg(1, 1, 0, "WithNanInf"), ("deferred", dict(CHECKS["C13"]["variants"][0][1], defs=["-DPOSITMUL"]))]
CHECKS["C13"]["thorough_variants"] = [tabcfg(3, 1, 1, "WithNan"), tabcfg(0, 2, 2, "WithInf"), tabcfg(3, 2, 2, "WithNanInf"), tabcfg(1, 0, 0, "WithNan"), tabcfg(2, 2, 0, "WithInf"), tabcfg(2, 1, 1, "WithNanInf")]
# memory and undefined behaviour monitors on every transition of the tables
SAN = ["-fsanitize=undefined,address", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:handle_segv=0:handle_sigfpe=0:handle_abort=0", "UBSAN_OPTIONS": "abort_on_error=1:print_stacktrace=0"}
def sanitized(v, opt):
    return ("sanitized", dict(v, opt=opt + SAN, ldflags=SAN, env=ENV))

CHECKS["C13"]["variants"].append(sanitized(CHECKS["C13"]["variants"][0][1], ["-O1", "-march=native"]))
CHECKS["C14"]["variants"].append(sanitized(CHECKS["C14"]["variants"][0][1], ["-O1", "-march=native"]))
CHECKS["C14"]["variants"] += [minifloat(4, 3), minifloat(3, 4)]
CHECKS["C20"] = dict(variants=[], custom="ctime")
CHECKS["C21"] = dict(variants=[(n, dict(sources=[("c21.cpp", 1), ("c21ref.cpp", 1)], gen=["posit8_gen"], repo_src=["src/simdposit8.cpp", "src/posit8.cpp"], opt=o)) for n, o in
    (("optimised", ["-O2", "-mavx2", "-mbmi", "-mlzcnt"]), ("plain", ["-O0", "-mavx2"]))])
CHECKS["C21"]["variants"].append(sanitized(CHECKS["C21"]["variants"][0][1], ["-O1", "-mavx2"]))
CHECKS["C22"] = dict(variants=[("native", std("c22.cpp", 3, defs=["-isystem", "/usr/include/eigen3"]))])
CHECKS["C23"] = dict(variants=[("native", dict(sources=[("c23.cpp", 16), ("c23t.cpp", 1), ("c23b.cpp", 1)], gen=["posit10_gen"], repo_src=TAB + ["src/posit8_tbl.cpp", "src/posit12_tbl.cpp", "src/binary8.cpp"]))])

# every total size from 4 to 64 bits, with the other parameters varied (quick), times every exponent size (thorough)
for k in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C12", "C18", "C23", "C24"]:
    src = k.lower() + ".cpp"
    CHECKS[k]["variants"].append(("sizes", std(src, deep=False, defs=["-DGRID=1"])))
    CHECKS[k].setdefault("thorough_variants", []).append(("sizes-exponents", std(src, 32, deep=False, defs=["-DGRID=2"])))
CHECKS["C12"]["variants"].append(("sizes-deferred", std("c12m.cpp", 4, deep=False, defs=["-DGRID=1", "-DPOSITMUL"])))
