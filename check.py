#!/usr/bin/env python3
"""Decides one property by symbolic execution of /repo's current sources.

usage: check.py ID [--tier quick|thorough] [--only HARNESS] [--keep DIR]
"""
import argparse, concurrent.futures as cf, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIMU_REPO", "/repo")
Z = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
E = V + "/engine"
INC = ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + E, "-I" + V + "/harness"]
DEFS = ["-std=c++20", "-DNDEBUG", "-DSIMU_EXPORT", "-DSIMU_OS_LINUX", "-w"]
CLANG = ["clang++-18"] + DEFS + ["-O2", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
         "-ffp-contract=off", "-gline-tables-only", "-fno-omit-frame-pointer", "-emit-llvm", "-c"] + INC
GXX = ["g++"] + DEFS + ["-O2", "-g"] + INC


def includes(pid):
    # a harness may put directories of stand-ins first: //# include: DIR
    src = open(V + "/harness/%s.cpp" % pid).read()
    return ["-I%s/harness/%s" % (V, d) for d in re.findall(r"^//# include: (\w+)$", src, re.M)]


class Inconclusive(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise Inconclusive("command failed: %s\n%s" % (" ".join(cmd)[:300], p.stdout[-3000:]))
    return p.stdout


def run_group(cmd, timeout):
    # the explorer forks: on a timeout the whole group has to go
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                         start_new_session=True)
    try:
        p.stdout_text, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        raise
    return subprocess.CompletedProcess(cmd, p.returncode, p.stdout_text)


def engine():
    b = V + "/build"
    try:
        os.makedirs(b, exist_ok=True)
        run(["bash", E + "/build.sh", b])
        return b
    except (OSError, Inconclusive) as ex:
        b = tempfile.mkdtemp(prefix="sxbuild")
        run(["bash", E + "/build.sh", b])
        return b


def sources():
    return sorted(glob.glob(REPO + "/src/Simu/math/**/*.cpp", recursive=True)
                  + glob.glob(REPO + "/src/Simu/physics/**/*.cpp", recursive=True)
                  + glob.glob(REPO + "/src/Simu/utility/**/*.cpp", recursive=True))


def build_symbolic(pid, d, eng):
    srcs = [V + "/harness/%s.cpp" % pid] + sources()
    bcs = [d + "/m%d.bc" % i for i in range(len(srcs))]
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda a: run(CLANG[:1] + includes(pid) + CLANG[1:] + [a[0], "-o", a[1]]), zip(srcs, bcs)))
    run(["llvm-link-18", "-o", d + "/l.bc"] + bcs)
    run(["opt-18", "-load-pass-plugin=" + eng + "/SxPass.so", "-passes=internalize,globaldce,sx,verify", d + "/l.bc", "-o", d + "/i.bc"])
    run(["llc-18", "-O1", "-relocation-model=pic", "-filetype=obj", d + "/i.bc", "-o", d + "/i.o"])
    run(["clang++-18", d + "/i.o", eng + "/runtime.o", "-L" + Z + "/lib", "-lz3", "-lgmp", "-Wl,-rpath," + Z + "/lib",
         "-o", d + "/sym"])


def build_native(pid, d, san=False):
    exe = d + ("/native_san" if san else "/native")
    if os.path.exists(exe):
        return exe
    srcs = [V + "/harness/%s.cpp" % pid, E + "/replay.cpp"] + sources()
    flags = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-DSX_SAN", "-O1"] if san else []
    objs = [exe + "%d.o" % i for i in range(len(srcs))]
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda a: run(GXX[:1] + includes(pid) + GXX[1:] + flags + ["-c", a[0], "-o", a[1]]), zip(srcs, objs)))
    run(["g++"] + flags + objs + ["-o", exe])
    return exe


def write_inputs(path, inputs):
    with open(path, "w") as f:
        for i in inputs:
            f.write("%s %s\n" % (i["name"].replace(" ", "_"), i["value"]))


def native(exe, harness, path, tier):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", UBSAN_OPTIONS="halt_on_error=1")
    try:
        p = subprocess.run([exe, harness, path, str(tier)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=120, env=env, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        return 124, "timeout"


def read_jsonl(p):
    if not os.path.exists(p):
        return []
    return [json.loads(l) for l in open(p)]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--keep")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    pid, tier = a.id, 1 if a.tier == "thorough" else 0
    t0 = time.time()
    d = a.keep or tempfile.mkdtemp(prefix="sx_%s_" % pid)
    if a.keep:
        shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    try:
        return decide(pid, tier, a, d, t0)
    except Inconclusive as ex:
        print("INCONCLUSIVE %s: %s" % (pid, ex))
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(d, ignore_errors=True)


def decide(pid, tier, a, d, t0):
    src = open(V + "/harness/%s.cpp" % pid).read()
    bounds = re.findall(r"^//! bounds?: (.*)$", src, re.M)
    assumes = re.findall(r"^//! assumes?: (.*)$", src, re.M)
    eng = engine()
    natpool = cf.ThreadPoolExecutor(1)
    build_symbolic(pid, d, eng)
    tbuild = time.time() - t0
    hs = []
    for l in run([d + "/sym", "--list"]).splitlines():
        n, o = l.split("\t")
        o = o.split(",")
        if "thorough" in o and not tier:
            continue
        if "quickonly" in o and tier:
            continue
        if a.only and n != a.only:
            continue
        hs.append((n, o))
    if not hs:
        raise Inconclusive("no harness")
    natbuild = natpool.submit(build_native, pid, d)
    budget = 840 if tier else 700
    stats, viols, samples, problems = [], [], [], []
    for n, o in hs:
        od = d + "/" + n
        shutil.rmtree(od, ignore_errors=True)
        os.makedirs(od)
        left = budget - (time.time() - t0)
        if left < 5:
            problems.append("%s: not run, time budget spent" % n)
            continue
        try:
            p = run_group([d + "/sym", n, od, str(tier), str(a.jobs), "%.0f" % left], left + 45)
        except subprocess.TimeoutExpired:
            problems.append("%s: timeout" % n)
            continue
        if not os.path.exists(od + "/stats.json"):
            problems.append("%s: engine died: %s" % (n, p.stdout[-500:]))
            continue
        s = json.load(open(od + "/stats.json"))
        stats.append(s)
        vs = read_jsonl(od + "/violations.jsonl")
        viols += vs
        samples += read_jsonl(od + "/samples.jsonl")
        if p.stdout.strip():
            sys.stdout.write(p.stdout[-2000:])
        if s["fatal"]:
            problems.append("%s: %s" % (n, p.stdout[-400:].strip()))
        if not vs:
            if s["truncated"]:
                problems.append("%s: exploration truncated" % n)
            for lab, L in s["labels"].items():
                if L["unknown"]:
                    problems.append("%s: solver undecided on '%s' (%d)" % (n, lab, L["unknown"]))
                if not L["witness"]:
                    problems.append("%s: check '%s' is vacuous (no witness)" % (n, lab))
            if not s["labels"]:
                problems.append("%s: no check was reached" % n)
        print("  %-28s paths %-6d queries %-6d solver %.1fs wall %.1fs checks %s%s" % (
            n, s["paths"], s["queries"], s["solverUs"] / 1e6, s["wall_s"],
            sum(L["evaluated"] for L in s["labels"].values()), "  VIOLATED" if vs else ""))
        sys.stdout.flush()

    # known findings
    kf = V + "/known_findings.json"
    known = []
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["findings"] if k["property"] == pid and k.get("status") == "known"]
    # replay on the real code
    reported, unreproduced, knownhit = [], [], {}
    seen = set()
    natbuild.result()
    repdir = V + "/replays"
    for i, v in enumerate(viols):
        if v["model"] != "sat":
            unreproduced.append((v, "no model"))
            continue
        key = (v["harness"], v["label"])
        if key in seen:
            continue
        os.makedirs(repdir, exist_ok=True)
        path = "%s/%s_%s_%d.txt" % (repdir, pid, v["harness"], i)
        write_inputs(path, v["inputs"])
        rc, out = native(d + "/native", v["harness"], path, tier)
        if rc not in (1, 124) and v["kind"] in ("memory", "crash", "exception"):
            rc, out = native(build_native(pid, d, True), v["harness"], path, tier)
            if rc != 0 and rc != 4 and "Sanitizer" in out or "runtime error" in out:
                rc = 1
        if rc in (1, 124):
            seen.add(key)
            k = [k for k in known if k["harness"] == v["harness"] and k["label"] == v["label"]]
            if k:
                knownhit[k[0]["what"]] = 1
            else:
                reported.append((v, path, out))
        else:
            unreproduced.append((v, out[-300:]))
    unreproduced = [u for u in unreproduced if (u[0]["harness"], u[0]["label"]) not in seen]

    # native validation of sampled symbolic paths
    validated = 0
    for i, sm in enumerate(samples):
        path = "%s/sample%d.txt" % (d, i)
        write_inputs(path, sm["inputs"])
        rc, out = native(d + "/native", sm["harness"], path, tier)
        if rc == 4:
            continue
        bad = None
        failed = set(re.findall(r"^FAILED (.*?)(?:: .*)?$", out, re.M))
        if rc != 0:
            # a violated check on this path was reported separately
            if not [v for v in viols if v["harness"] == sm["harness"]]:
                bad = "native run of a proved path fails: %s" % (failed or out[-300:])
        got = dict(re.findall(r"^observe (\S+) (\S+)$", out, re.M))
        for name, val in sm["observed"]:
            name = name.replace(" ", "_")
            if name not in got:
                if rc == 0:
                    bad = "native run does not produce %s" % name
                continue
            x, y = float(val), float(got[name])
            if not (x == y or (x != x and y != y) or abs(x - y) <= 1e-3 * (1 + abs(x) + abs(y))):
                bad = "%s: symbolic %r native %r" % (name, x, y)
        if bad:
            print("  SAMPLE MISMATCH %s: %s (%s)" % (sm["harness"], bad,
                  ", ".join("%s=%s" % (q["name"], q.get("decimal", q["value"])) for q in sm["inputs"])[:400]))
            if not [o for n, o in hs if n == sm["harness"] and "rounding" in o]:
                problems.append("%s: native replay of a sampled path disagrees: %s" % (sm["harness"], bad))
        else:
            validated += 1

    tot = lambda k: sum(s[k] for s in stats)
    funcs = sorted(set(f for s in stats for f in s["functions"] if f))
    try:
        dem = subprocess.run(["c++filt"], input="\n".join(funcs), stdout=subprocess.PIPE, text=True).stdout.split("\n")
        funcs = sorted(set(x for x in dem if "simu::" in x))
    except OSError:
        pass
    lab = {}
    for s in stats:
        for l, L in s["labels"].items():
            lab["%s: %s" % (s["harness"], l)] = L
    samp = [{"harness": s["harness"], "inputs": {q["name"]: q.get("decimal", q["value"]) for q in s["inputs"]}}
            for s in samples[:5]]
    complete = not problems and not unreproduced
    ev = {
        "property": pid, "tier": "thorough" if tier else "quick", "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("branches"),
            "traces_validated_against_impl": validated,
            "samples": samp or [{"harness": s["harness"], "paths": s["paths"]} for s in stats][:5],
            "harnesses": [{k: s[k] for k in ("harness", "opts", "paths", "pathsPruned", "queries", "wall_s", "maxDepth",
                                            "exactOps", "inexactOps", "qunknown", "truncated")} for s in stats],
            "queries": tot("queries"), "queries_sat": tot("qsat"), "queries_unsat": tot("qunsat"),
            "queries_unknown": tot("qunknown"), "branches_decided_by_cached_model": tot("decidedByModel"),
            "solver_seconds": round(tot("solverUs") / 1e6, 2),
            "assertions": lab,
            "assertions_evaluated": sum(L["evaluated"] for L in lab.values()),
            "assertions_discharged_by_solver": sum(L["discharged"] for L in lab.values()),
            "assertions_discharged_by_normalisation": sum(L["folded"] for L in lab.values()),
            "exact_float_operations": tot("exactOps"), "float_operations_as_exact_reals": tot("inexactOps"),
            "functions_encoded": funcs, "bounds": bounds, "exhaustive": complete,
            "build_seconds": round(tbuild, 1),
            "encoding": "LLVM IR of the current working tree, compiled by clang-18 -O2, instrumented and executed symbolically; solver Z3",
            "problems": problems,
        },
        "assumptions": assumes + [
            "float arithmetic: harness option 'fp' = IEEE single precision terms; 'exact' = every operation proven exactly representable; otherwise exact real arithmetic, results of rounding are outside the claim",
            "single thread; memory allocation does not fail; sin, cos and sqrt are the ideal functions"],
        "wall_s": round(time.time() - t0, 2), "violations": len(reported),
    }
    evd = os.environ.get("SX_EVIDENCE", V + "/evidence")
    os.makedirs(evd, exist_ok=True)
    if not a.only:
        json.dump(ev, open(evd + "/%s.json" % pid, "w"), indent=1)
    for k in knownhit:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for v, path, out in reported:
        print("violated: harness %s, check '%s' %s" % (v["harness"], v["label"], v["note"]))
        print("   " + ", ".join("%s=%s" % (q["name"], q.get("decimal", q["value"])) for q in v["inputs"])[:900])
        for l in [l for l in out.splitlines() if l.startswith("FAILED") or "ERROR" in l or "runtime error" in l][:6]:
            print("   native: " + l)
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if reported:
        return 1
    for v, out in unreproduced:
        print("UNREPRODUCED %s '%s': %s" % (v["harness"], v["label"], out.strip().replace("\n", " | ")[-300:]))
        print("   " + ", ".join("%s=%s" % (q["name"], q.get("decimal", q["value"])) for q in v["inputs"])[:900])
    for p in problems:
        print("PROBLEM " + p)
    if problems or unreproduced:
        # what could not be decided is listed above and in the evidence file; it is outside the claim of this run
        decided = [s for s in stats if not s["fatal"] and s["labels"]]
        if not decided or os.environ.get("SX_STRICT"):
            print("INCONCLUSIVE %s" % pid)
            return 2
        print("PARTIAL %s: held on everything explored, but not everything was decided" % pid)
    print("OK %s: %d paths, %d queries, %d checks, %.1fs" % (pid, tot("paths"), tot("queries"),
          ev["coverage"]["assertions_evaluated"], time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
