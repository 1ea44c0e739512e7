#!/usr/bin/env python3
"""Driver of the checks.

  check.py <property> [quick|thorough]      run the check, write evidence/<property>.json
  check.py --replay <file>                  re-execute one recorded counterexample

Builds the explorer of the property from /repo's working tree in a scratch
directory, runs it, replays every counterexample in a fresh process before it
is reported, and exits 0 (held on everything explored) or 1 (VIOLATION line).
Any other exit is an error of the check itself.
"""
import sys, os, json, subprocess, tempfile, shutil, time, signal, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(VERIF, "harness")
JOBS = os.cpu_count() or 4

sys.dont_write_bytecode = True
from checks import CHECKS  # noqa: E402


class CheckError(Exception):
    pass


class CompileFailure(Exception):
    def __init__(self, cmd, out):
        self.cmd, self.out = cmd, out


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def compile_all(cmds):
    """each: (argv). Runs them in parallel; raises CompileFailure on the first that fails."""
    def one(c):
        for attempt in (0, 1):
            r = run(c)
            if r.returncode == 0:
                return None
            if "Killed" not in r.stdout and "cannot allocate" not in r.stdout.lower():
                break
        return (c, r.stdout)
    with ThreadPoolExecutor(JOBS) as ex:
        for bad in ex.map(one, cmds):
            if bad:
                raise CompileFailure(bad[0], bad[1])


def toolchain_ok(tmp):
    p = os.path.join(tmp, "sane.cpp")
    with open(p, "w") as f:
        f.write("#include <iostream>\n#include <vector>\nint main(){std::vector<int> v(3);std::cout<<v.size();}\n")
    for cc in ("g++", "clang++"):
        if run([cc, "-std=c++11", "-O1", p, "-o", p + ".out"]).returncode:
            return False
    return shutil.disk_usage(tmp).free > 50 << 20


FLAGS = ["-w", "-I" + REPO + "/include", "-I" + H, "-pthread"]


def build_variant(tmp, name, v):
    """v: dict(cxx, std, opt, defs, sources=[(file, nshard)], extra=[(file, ...)], gen=[...])"""
    d = os.path.join(tmp, name)
    os.makedirs(d)
    cxx = [v.get("cxx", "g++"), "-std=" + v.get("std", "c++11")] + v.get("opt", ["-O2", "-march=native"]) + v.get("defs", []) + FLAGS
    objs, cmds = [], []
    for prog in v.get("gen", []):  # table generators of the repository
        exe = os.path.join(d, prog)
        cmds.append(cxx + [REPO + "/src/" + prog + ".cpp", "-o", exe])
    if cmds:
        compile_all(cmds)
        cmds = []
        for prog in v["gen"]:
            out = os.path.join(d, prog.replace("_gen", "_tbl") + ".cpp")
            r = run([os.path.join(d, prog), out], cwd=d, timeout=300)
            if r.returncode or not os.path.exists(out):
                raise CompileFailure([prog, out], "table generator failed: rc=%s\n%s" % (r.returncode, r.stdout))
            o = out + ".o"
            objs.append(o)
            cmds.append([v.get("cxx", "g++"), "-O0", "-w"] + v.get("ldflags", []) + ["-c", out, "-o", o])
    for src in v.get("repo_src", []):
        o = os.path.join(d, src.replace("/", "_") + ".o")
        objs.append(o)
        flags = ["-O0"] if src.endswith("_tbl.cpp") else []
        cmds.append(cxx + flags + ["-c", os.path.join(REPO, src), "-o", o])
    for src, n in v["sources"]:
        for s in range(n):
            o = os.path.join(d, "%s_%d.o" % (src, s))
            objs.append(o)
            cmds.append(cxx + ["-DNSHARD=%d" % n, "-DSHARD=%d" % s, "-c", os.path.join(H, src), "-o", o])
    if v.get("main", True):
        o = os.path.join(d, "mcmain.o")
        objs.append(o)
        cmds.append(cxx + ["-c", os.path.join(H, "mcmain.cpp"), "-o", o])
    compile_all(cmds)
    exe = os.path.join(d, "explore")
    compile_all([[v.get("cxx", "g++")] + v.get("ldflags", []) + objs + ["-pthread", "-o", exe]])
    return exe


def execute(exe, args, timeout, env=None):
    """returns (status, stdout): status 'ok', 'crash' or 'hang'"""
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=e)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.send_signal(signal.SIGABRT)
        try:
            out, err = p.communicate(timeout=20)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
        return "hang", out, err
    return ("ok" if p.returncode == 0 else "crash"), out, err


def crash_cases(out):
    r = []
    for l in out.splitlines():
        if l.startswith("CRASH\t"):
            q = l.split("\t")
            r.append(dict(cfg=q[2], op=q[3], n=int(q[4]), args=[int(x) for x in q[5:8]], detail="signal " + q[1] + " while executing this operation", count=1, crash=True))
    return r


def replay_one(exe, v, tier, env=None):
    """True if the recorded case fails again, alone, in a fresh process"""
    a = ["--replay", v["cfg"], v["op"], str(v["n"])] + [str(x) for x in v["args"]]
    if tier == "thorough":
        a.append("--thorough")
    st, out, _ = execute(exe, a, 60, env)
    if st in ("crash", "hang"):
        return bool(v.get("crash"))
    try:
        j = json.loads(out.splitlines()[-1])
    except Exception:
        return False
    return any(x["cfg"] == v["cfg"] and x["op"] == v["op"] for x in j["violations"])


def load_known(prop):
    """finding: property=<id> case=<variant>|<cfg>|<op>|<args> <text>"""
    known = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) case=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3)))
    return known


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay_main(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if prop not in CHECKS:
        print("unknown property", prop)
        return 2
    spec = CHECKS[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        return check(prop, tier, spec, tmp, t0)
    except CompileFailure as e:
        if not toolchain_ok(tmp):
            print("toolchain not usable:", e.out[-2000:])
            return 2
        v = dict(kind="compile", property=prop, cmd=e.cmd, output=e.out[-6000:],
                 detail="the operations this property is about no longer build (or the table generator no longer runs) for a configuration that must be supported")
        path = write_replay(prop, v)
        write_evidence(prop, tier, spec, [], t0, 1, note="build of the explorer against /repo failed")
        print("\n".join(e.out.splitlines()[:15]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def write_replay(prop, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop + ".json")
    json.dump(v, open(path, "w"), indent=1)
    return path


def replay_main(path):
    v = json.load(open(path))
    prop = v["property"]
    spec = CHECKS[prop]
    tmp = tempfile.mkdtemp(prefix="verif_replay_")
    try:
        if v.get("kind") == "compile":
            try:
                for name, var in variants(spec, v.get("tier", "quick")):
                    build_variant(tmp, name, var)
            except CompileFailure as e:
                print(e.out[-3000:])
                print("REPRODUCED: does not build")
                return 1
            print("not reproduced: builds")
            return 0
        tier = v.get("tier", "quick")
        if v.get("kind") in ("differential", "ctime"):
            import importlib
            return importlib.import_module(v["kind"]).replay(v, tmp)
        var = dict(variants(spec, tier))[v["variant"]]
        exe = build_variant(tmp, v["variant"], var)
        if replay_one(exe, v, tier if var.get("deep", True) else "quick", var.get("env")):
            print("REPRODUCED: %s %s %s: %s" % (v["cfg"], v["op"], v["args"][:v["n"]], v["detail"]))
            return 1
        print("not reproduced")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def variants(spec, tier):
    r = list(spec["variants"])
    if tier == "thorough":
        r += spec.get("thorough_variants", [])
    return r


def check(prop, tier, spec, tmp, t0):
    known = load_known(prop)
    results, found, known_hit = [], [], {}
    st = os.path.join(tmp, "selftest")
    compile_all([["g++", "-O2", "-std=c++11", "-w", os.path.join(H, "selftest.cpp"), "-o", st]])
    r = run([st])
    if r.returncode:
        raise CheckError("the reference model fails its self test: " + r.stdout)
    if spec.get("custom"):
        import importlib
        results, found = importlib.import_module(spec["custom"]).explore(prop, tier, spec, tmp, build_variant, execute, compile_all)
    with ThreadPoolExecutor(2) as ex:
        built = [(name, var, ex.submit(build_variant, tmp, name, var)) for name, var in variants(spec, tier)]
        built = [(n, v, f.result()) for n, v, f in built]
    errors = []
    for name, var, exe in built:
        try:
            explore_variant(prop, tier, spec, name, var, exe, known, results, found, known_hit)
        except CheckError as e:
            errors.append(e)
    if errors and not found:
        raise errors[0]
    for k, text in known:
        if k in known_hit:
            print("KNOWN-FINDING: property=%s %s (%s)" % (prop, text, k))
    total = sum(len(j["violations"]) for j in results)
    write_evidence(prop, tier, spec, results, t0, max(total, len(found)))
    for j in results:
        print("%s %s: %d states, %d transitions, %d traces, %d configurations" % (prop, j["variant"], j["states"], j["transitions"], j["traces"], j["configs"]))
    if found:
        for v in found[:8]:
            print("  %s | %s | %s | %s %s: %s" % (prop, v["variant"], v["cfg"], v["op"], v["args"][:v["n"]], v["detail"]))
        path = write_replay(prop, found[0])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def explore_variant(prop, tier, spec, name, var, exe, known, results, found, known_hit):
    env = var.get("env")
    args = ["--thorough"] if tier == "thorough" and var.get("deep", True) else []
    for k, _ in known:
        q = k.split("|")
        if q[0] == name:
            args += ["--known", "|".join(q[1:])]
    limit = spec.get("timeout", 380 if tier == "quick" else 14400)
    st, out, err = execute(exe, args, limit, env)
    if st == "ok":
        j = json.loads(out.splitlines()[-1])
        j["variant"] = name
        results.append(j)
        for k in j.get("known_hit", []):
            known_hit[name + "|" + k] = 1
        vs = sorted(j["violations"], key=lambda x: (len(x["cfg"]), x["cfg"], x["op"]))
    else:
        vs = crash_cases(out)
        if not vs:
            raise CheckError("explorer %s: %s without report: %s %s" % (name, st, out[-500:], err[-1500:]))
    confirmed = 0
    for v in vs:
        v["variant"] = name
        v["property"] = prop
        v["tier"] = tier
        if replay_one(exe, v, tier if var.get("deep", True) else "quick", env):
            v["replayed"] = True
            if st == "hang" or v.get("crash"):
                v["detail"] += " (%s, confirmed alone)" % st
            found.append(v)
            confirmed += 1
        if confirmed >= 5:
            break
    if st == "ok" and vs and not confirmed:
        # not reproducible in isolation: explore again before believing it
        st2, out2, _ = execute(exe, args, limit, env)
        j2 = json.loads(out2.splitlines()[-1]) if st2 == "ok" else {"violations": []}
        again = {(x["cfg"], x["op"]) for x in j2["violations"]} & {(x["cfg"], x["op"]) for x in vs}
        if again:
            v = [x for x in vs if (x["cfg"], x["op"]) in again][0]
            v["detail"] += " (fails only as part of the whole exploration; it did so twice)"
            v["replayed"] = False
            found.append(v)
        else:
            raise CheckError("counterexample not reproducible: %s" % vs[0])
    if st != "ok" and not confirmed:
        raise CheckError("explorer %s: %s, and no single case reproduces it: %s" % (name, st, vs[:3]))


def bounds_of(prop):
    with open(os.path.join(VERIF, "MANIFEST.json")) as f:
        return next((c["level_note"] for c in json.load(f)["checks"] if c["property"] == prop), "")


def write_evidence(prop, tier, spec, results, t0, violations, note=None):
    cov = dict(
        states=sum(j["states"] for j in results),
        transitions=sum(j["transitions"] for j in results),
        traces_validated_against_impl=sum(j["traces"] for j in results),
        samples=[s for j in results for s in j["samples"]][:24],
        exhaustive=bool(results) and not note,
        configurations=sum(j["configs"] for j in results),
        distinct_outcomes=sum(j.get("outcomes", 0) for j in results),
        cases_outside_the_stated_bound=sum(j.get("skipped", 0) for j in results),
        operations={},
        bounds=bounds_of(prop),
        meaning="states: operand states enumerated (bit patterns per configuration); traces: operand tuples executed on the real code, each driving several operations; transitions: operations executed on the real code and compared with the model",
        variants=[dict(name=j["variant"], states=j["states"], transitions=j["transitions"], configurations=j.get("config_names", [])) for j in results],
    )
    for j in results:
        for k, n in j["ops"].items():
            cov["operations"][k] = cov["operations"].get(k, 0) + n
    if note:
        cov["note"] = note
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=spec.get("level", "model_checking"), coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=violations)
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK ERROR:", e)
        sys.exit(2)
