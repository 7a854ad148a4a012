#!/usr/bin/env python3
"""Decide one property: compile its harnesses with /repo's current sources to LLVM bitcode, execute them symbolically (engine/symex.cpp, Z3
decides every branch, memory access and assertion), replay every counterexample and a sample of the passing paths natively.

usage: check.py PROPERTY [quick|thorough]      decide one property
       check.py --setup                        build the engine and its runtime into build/
       check.py --replay FILE                  replay a counterexample natively
Exit: 0 held on everything explored, 1 violated (VIOLATION line), 2 the machinery could not decide (never on the unchanged tree)."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
SYMEX = os.path.join(BUILD, "symex")
RT = os.path.join(BUILD, "rt.bc")
IOS = os.path.join(BUILD, "ios.bc")
BC = ["clang++", "-std=c++20", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-emit-llvm", "-c", "-w", "-include", os.path.join(HERE, "engine/rt/pre.hpp")]
HOOK = ["-DBOMBA_VERIFY_GCC_PATH", "-include", "cstdint", "-include", "algorithm"]
NATIVE = ["g++", "--std=c++20", "-O1", "-g", "-w", "-pthread", "-include", "cstdint", "-include", "algorithm", "-fsanitize=address,return,unreachable",
          "-ftrivial-auto-var-init=pattern", "-rdynamic"]
CORES = os.cpu_count() or 8

def incs():
    return ["-I" + os.path.join(HERE, "mock"), "-I" + REPO, "-I" + os.path.join(HERE, "engine/rt"), "-I" + os.path.join(HERE, "harness")]

def newer(out, *srcs):
    return os.path.exists(out) and all(os.path.getmtime(out) >= os.path.getmtime(s) for s in srcs)

def setup():
    os.makedirs(BUILD, exist_ok=True)
    E = os.path.join(HERE, "engine")
    src = [os.path.join(E, f) for f in ("symex.cpp", "expr.cpp", "expr.hpp")]
    jobs = []
    if not newer(SYMEX, *src):
        tmp = SYMEX + ".%d" % os.getpid()
        jobs.append((["g++", "-std=c++20", "-O2", "-w", "-fno-rtti", "-I/usr/lib/llvm-18/include", src[0], src[1], "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3"], tmp, SYMEX))
    rts = [os.path.join(E, "rt", f) for f in ("rt.cpp", "vf.hpp", "pre.hpp")]
    if not newer(RT, *rts):
        tmp = RT + ".%d" % os.getpid()
        jobs.append((BC + ["-U__OPTIMIZE__", rts[0], "-o", tmp], tmp, RT))
    if not newer(IOS, os.path.join(E, "rt/ios.cpp"), rts[2]):
        tmp = IOS + ".%d" % os.getpid()
        jobs.append((BC + [os.path.join(E, "rt/ios.cpp"), "-o", tmp], tmp, IOS))
    ps = [(subprocess.Popen(c), t, o) for c, t, o in jobs]
    for p, t, o in ps:
        if p.wait():
            print("cannot build", o); sys.exit(2)
        os.rename(t, o)

def build_harness(mod, out):
    """bitcode and native binary of a harness, from the current sources"""
    src = os.path.join(HERE, "harness", mod + ".cpp")
    bc, nat = os.path.join(out, mod + ".bc"), os.path.join(out, mod + ".native")
    a = subprocess.Popen(BC + HOOK + incs() + [src, "-o", bc + ".1"], stderr=subprocess.PIPE, text=True)
    nsrc = os.path.join(HERE, "engine/rt/native.cpp")
    if mod.startswith("threads"): # data races are confirmed by the thread sanitizer; the driver itself is not observed by it
        flags = [f for f in NATIVE if not f.startswith("-fsanitize")]
        n = subprocess.run(flags + incs() + ["-c", nsrc, "-o", nat + ".o"], stderr=subprocess.PIPE, text=True)
        if n.returncode: print(n.stderr[-2000:]); sys.exit(2)
        b = subprocess.Popen(flags + ["-fsanitize=thread"] + incs() + [src, nat + ".o", "-o", nat, "-ldl"], stderr=subprocess.PIPE, text=True)
    else: b = subprocess.Popen(NATIVE + incs() + [src, nsrc, "-o", nat, "-ldl"], stderr=subprocess.PIPE, text=True)
    ea, eb = a.communicate()[1], b.communicate()[1]
    if a.returncode or b.returncode:
        print("HARNESS DOES NOT COMPILE:", mod); print((ea or eb)[-3000:]); sys.exit(2)
    subprocess.run(["llvm-link", RT, IOS, bc + ".1", "-o", bc], check=True)
    return bc, nat

def run_native(nat, entry, inputs, params, tmp):
    fd, fn = tempfile.mkstemp(dir=tmp)
    with os.fdopen(fd, "w") as f:
        for n, v in inputs: f.write("%s %d\n" % (n, v))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:max_allocation_size_mb=2000", TSAN_OPTIONS="exitcode=66 halt_on_error=1 report_signal_unsafe=0")
    try:
        p = subprocess.run([nat, entry, fn] + ["%s=%d" % kv for kv in params.items()], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=60, errors="replace", cwd=tmp)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return -99, "timeout"

def shown(inputs):
    """symbolic inputs, grouped by name; bytes shown as text where printable"""
    r, last = [], None
    for n, v in inputs:
        if last is not None and last[0] == n: last[1].append(v)
        else:
            last = (n, [v]); r.append(last)
    return {"%d %s" % (i, n): (vs if len(vs) > 1 else vs[0]) if not all(32 <= x < 127 for x in vs) or len(vs) == 1 else "".join(map(chr, vs)) for i, (n, vs) in enumerate(r)}

def known_findings():
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f: return json.load(f)["findings"]
    except FileNotFoundError: return []

def run_entry(run, tier, bcs, out, deadline, workers, known):
    params = dict(run.get("quick", {}))
    if tier == "thorough": params.update(run.get("thorough", {}))
    limit = max(10, deadline - time.time())
    cmd = [SYMEX, "--entry=" + run["entry"], "--workers=%d" % workers, "--time=%d" % limit, "--mem=%d" % (24000 // CORES if workers else 3000)]
    cmd += ["--known=" + k["tag"] for k in known if k["entry"] == run["entry"]]
    cmd += ["--steps=%d" % run["steps"]] if "steps" in run else []
    cmd += ["--param=%s=%d" % kv for kv in params.items()] + [bcs[run["module"]]]
    t0 = time.time()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    r = {"entry": run["entry"], "module": run["module"], "params": params, "stats": {}, "covers": {}, "problems": {}, "tags": {}, "violations": {}, "samples": [], "functions": set(), "over": None, "wall": 0}
    if p.returncode: r["problems"]["engine exit %d: %s" % (p.returncode, p.stderr[-300:])] = 1
    for l in p.stdout.splitlines():
        try: d = json.loads(l)
        except ValueError: r["problems"]["unreadable engine output"] = 1; continue
        if "worker_failed" in d: r["problems"]["engine worker failed (%s)" % d["worker_failed"]] = 1
        if "stats" not in d: continue
        for k, v in d["stats"].items(): r["stats"][k] = max(r["stats"].get(k, 0), v) if k.startswith("max") else r["stats"].get(k, 0) + v
        for g in ("covers", "problems", "tags"):
            for k, v in d[g].items(): r[g][k] = r[g].get(k, 0) + v
        for v in d["violations"]: r["violations"].setdefault((v["kind"], v["tag"], v["loc"]), v["inputs"])
        r["samples"] += d["samples"]; r["functions"].update(d["functions"])
        if d["budget_over"]: r["over"] = d["budget_over"]
    r["wall"] = time.time() - t0
    return r

def main(pid, tier):
    t0 = time.time()
    sys.path.insert(0, HERE)
    from checks import CHECKS
    cfg = CHECKS[pid]; seed = int(os.environ.get("VERIF_SEED", "1"))
    setup()
    out = tempfile.mkdtemp(prefix="bomba-check-")
    try: rc = decide(pid, tier, cfg, seed, out, t0)
    finally: shutil.rmtree(out, ignore_errors=True)
    sys.exit(rc)

def decide(pid, tier, cfg, seed, out, t0):
    runs = [r for r in cfg["runs"] if tier == "thorough" or not r.get("thorough_only")]
    mods = sorted({r["module"] for r in runs})
    with ThreadPoolExecutor(4) as ex: built = dict(zip(mods, ex.map(lambda m: build_harness(m, out), mods)))
    bcs = {m: b[0] for m, b in built.items()}
    known = [k for k in known_findings() if k["property"] == pid and not k.get("fixed")]
    budget = 560 if tier == "quick" else int(os.environ.get("VERIF_THOROUGH_S", "3400"))
    deadline = time.time() + budget
    with ThreadPoolExecutor(min(3, len(runs))) as ex: results = list(ex.map(lambda r: run_entry(r, tier, bcs, out, deadline, max(2, CORES * 2 // min(3, len(runs)) if len(runs) > 1 else CORES), known), runs))
    evdir = os.path.join(HERE, "evidence"); os.makedirs(os.path.join(evdir, "replays"), exist_ok=True)
    for f in os.listdir(os.path.join(evdir, "replays")):
        if f.startswith(pid + "-"): os.unlink(os.path.join(evdir, "replays", f))
    confirmed, unconfirmed, knownHit, undecided, incomplete, validated, samples = [], [], set(), [], [], 0, []
    for run, r in zip(runs, results):
        nat = built[r["module"]][1]
        for (kind, tag, loc), inputs in r["violations"].items():
            rc, txt = run_native(nat, r["entry"], inputs, r["params"], out)
            ok = rc not in (0, 3, 4) and (kind != "check" or rc != 1 or ("CONFIRMED " + tag) in txt)
            if kind == "check" and rc not in (0, 1, 3, 4): ok = True # it crashes natively before the assertion
            k = next((k for k in known if k["entry"] == r["entry"] and k["tag"] == tag), None)
            if k and ok: knownHit.add(k["tag"]); print("KNOWN-FINDING: property=%s %s" % (pid, k["what"])); continue
            (confirmed if ok else unconfirmed).append((r, kind, tag, loc, inputs, rc, txt))
        if all(any(k["entry"] == r["entry"] and k["tag"] == v[1] for k in known) for v in r["violations"]):
            byCov = {}
            for s in r["samples"]:
                l = byCov.setdefault(tuple(s["covers"]), [])
                if len(l) < 3: l.append(s)
            pick = [s for l in byCov.values() for s in l][:24]
            with ThreadPoolExecutor(CORES) as ex: nres = list(ex.map(lambda s: run_native(nat, r["entry"], s["inputs"], r["params"], out), pick))
            for s, (rc, txt) in zip(pick, nres):
                cov = set(re.findall(r"^COVER (.*)$", txt, re.M))
                if rc == 0 and cov == set(s["covers"]):
                    validated += 1
                    if len(samples) < 12: samples.append({"entry": r["entry"], "inputs": shown(s["inputs"]), "reached": sorted(cov)})
                elif rc in (0, 3, 4): undecided.append("%s: a passing path behaves differently natively (exit %d): %s" % (r["entry"], rc, txt[-300:]))
                else: confirmed.append((r, "native", "a path the encoding passes fails natively", "", s["inputs"], rc, txt))
        for p, n in r["problems"].items(): undecided.append("%s: %s (%d paths)" % (r["entry"], p, n))
        if r["over"] and not r["violations"]: incomplete.append("%s: %s" % (r["entry"], r["over"]))
        missing = [c for c in run.get("covers", []) if c not in r["covers"]]
        if missing and not confirmed and not unconfirmed and not r["over"]: undecided.append("%s: never reached: %s" % (r["entry"], missing))
    def record(v, n):
        r, kind, tag, loc, inputs, rc, txt = v
        path = os.path.join(evdir, "replays", "%s-%d.json" % (pid, n))
        with open(path, "w") as f: json.dump({"property": pid, "module": r["module"], "entry": r["entry"], "params": r["params"], "kind": kind, "what": tag, "at": loc, "inputs": inputs, "inputs_shown": shown(inputs), "native_exit": rc, "native_output": txt[-1500:]}, f, indent=1)
        return path
    for n, v in enumerate(confirmed):
        path = record(v, n)
        print("%s in %s: %s (%s), inputs %s" % (v[1], v[0]["entry"], v[2], v[3], json.dumps(shown(v[4]))[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    for n, v in enumerate(unconfirmed):
        path = record(v, n + 100)
        print("UNCONFIRMED (not reproduced natively, exit %d): %s in %s: %s (%s), %s" % (v[5], v[1], v[0]["entry"], v[2], v[3], path))
    for u in undecided[:12]: print("UNDECIDED:", u[:600])
    for u in incomplete: print("INCOMPLETE (budget ran out, nothing wrong in what was explored):", u)
    for k in known:
        if k["tag"] not in knownHit: print("note: known finding no longer occurs: %s" % k["what"])
    S = lambda k: sum(r["stats"].get(k, 0) for r in results)
    funcs = sorted({f for r in results for f in r["functions"]})
    bomba = [f for f in funcs if "Bomba" in f]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2), "violations": len(confirmed),
          "coverage": {"states": S("paths_completed"), "transitions": S("forks") + S("instructions"), "traces_validated_against_impl": validated, "samples": samples or [{"note": "no sample: violations or known findings present"}],
                       "exhaustive": not incomplete and not undecided and not unconfirmed,
                       "explanation": "states are path conditions explored to the end (each stands for all input values satisfying it); transitions are instructions of the compiled code executed symbolically plus forks; traces are sampled path models re-run on the native build with equal outcome",
                       "bounds": cfg["bounds"], "outside_bounds": cfg.get("outside", ""),
                       "queries_discharged": S("solver_queries"), "queries_sat": S("sat"), "queries_unsat": S("unsat"), "queries_unknown": S("unknown"), "solver_s": round(S("solver_s"), 2),
                       "assertions_evaluated": S("assertions"), "assertions_decided_by_solver": S("assertions_by_solver"), "symbolic_memory_accesses_checked": S("symbolic_memory_checks"),
                       "entries": [{"entry": r["entry"], "params": r["params"], "paths": r["stats"].get("paths_completed", 0), "pruned_by_assumptions": r["stats"].get("assume_pruned", 0), "queries": r["stats"].get("solver_queries", 0), "solver_s": round(r["stats"].get("solver_s", 0), 2), "max_symbolic_inputs": r["stats"].get("max_symbolic_vars", 0), "max_instructions_of_a_path": r["stats"].get("max_path_instructions", 0), "reached": r["covers"], "assertions": r["tags"], "wall_s": round(r["wall"], 2), "incomplete": r["over"] or ""} for r in results],
                       "functions_encoded_total": len(funcs), "functions_encoded_of_bomba": bomba[:400]},
          "assumptions": cfg.get("assumptions", []) + ["libc/libstdc++ out-of-line functions are the models in engine/rt/rt.cpp; headers are the real ones", "float <-> text conversion is executed natively on concrete values", "allocation never fails"]}
    with open(os.path.join(evdir, pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s: %d paths, %d queries (%.1f s solver), %d assertions, %d natively validated, %.1f s" % (pid, tier, S("paths_completed"), S("solver_queries"), S("solver_s"), S("assertions"), validated, time.time() - t0))
    if confirmed: return 1
    if unconfirmed or undecided: return 2
    return 0

def replay(path):
    with open(path) as f: d = json.load(f)
    out = tempfile.mkdtemp(prefix="bomba-replay-")
    try:
        setup(); nat = build_harness(d["module"], out)[1]
        rc, txt = run_native(nat, d["entry"], d["inputs"], d["params"], out)
        print(txt[-4000:]); print("exit", rc)
    finally: shutil.rmtree(out, ignore_errors=True)
    sys.exit(0 if rc == 0 else 1)

if __name__ == "__main__":
    if sys.argv[1] == "--setup": setup()
    elif sys.argv[1] == "--replay": replay(sys.argv[2])
    else: main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
