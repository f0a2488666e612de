"""Check driver:  python -m symx.run P01 quick|thorough"""
import importlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback
import warnings
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = sys.executable
EX = ThreadPoolExecutor(16)


def plain_batch(prop, jobs, hashseed="0", stop=False, timeout=600):
    env = dict(os.environ, PYTHONHASHSEED=hashseed, MPLBACKEND="Agg", PYTHONPATH=VERIF, OMP_NUM_THREADS="1")
    p = subprocess.Popen([PY, "-m", "symx.plain"], cwd=VERIF, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True)
    data = json.dumps({"prop": prop, "jobs": jobs, "stop": stop})
    return EX.submit(p.communicate, data, timeout), p


def finish(pj):
    fut, p = pj
    out, err = fut.result()
    if p.returncode != 0 or not out.strip():
        raise RuntimeError("concrete runner failed: " + err[-3000:])
    return json.loads(out.strip().splitlines()[-1])


def trace_functions(fn, acc):
    from . import hook
    root = os.path.join(hook.REPO, "pycid") + os.sep

    def prof(frame, event, arg):
        if event == "call":
            co = frame.f_code
            if co.co_filename.startswith(root) and co.co_name[0] != "<":
                acc.add(co.co_filename[len(hook.REPO) + 1:] + ":" + co.co_qualname)

    sys.setprofile(prof)
    try:
        return fn()
    finally:
        sys.setprofile(None)


MOD = None


def run_config(job):
    """Worker: symbolic exploration of one configuration + pinned runs for validation."""
    idx, cfg, deadline, nsamples, seed = job
    from . import engine as E
    t0 = time.time()
    res = {"idx": idx, "cfg": cfg, "cex": [], "err": None, "pinned": [], "funcs": [], "tags": {}, "reached": {}}
    eng = E.Engine(MOD.assumptions(cfg) if hasattr(MOD, "assumptions") else (),
                   timeout_ms=getattr(MOD, "TIMEOUT_MS", 60000), deadline=deadline)
    tags = {}
    from . import graph
    graph.MERGE = not cfg.get("nomerge", False)

    def once():
        random.seed(0)
        c = _ctx(eng)
        c.tags = tags
        try:
            MOD.body(c, cfg)
        except E.Inconclusive:
            raise
        except Exception as ex:
            if not from_project(ex):
                raise
            last[0] = f"{type(ex).__name__}: {ex}\n" + traceback.format_exc()[-2500:]
            eng.check(f"no unexpected error", False)

    last = [None]
    try:
        eng.explore(once, max_paths=getattr(MOD, "MAX_PATHS", None))
        res["cex"] = [(c.label + (": " + last[0] if c.label == "no unexpected error" and last[0] else ""), c.model)
                      for c in eng.cexs]
    except E.Inconclusive as e:
        res["err"] = "inconclusive: " + str(e)
    except Exception as e:
        res["err"] = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-2500:]
    # pinned runs: the encoding on concrete inputs, to be compared with the real code
    if res["err"] is None and nsamples and eng.vars:
        rng = random.Random(f"{seed}/{idx}")
        funcs = set()
        for k in range(nsamples):
            a = (MOD.sample(cfg, eng.vars, rng) if hasattr(MOD, "sample")
                 else {n: draw(v, rng) for n, v in sorted(eng.vars.items())})
            try:
                outs = trace_functions(lambda: pinned(cfg, a), funcs)
                res["pinned"].append((a, outs))
            except Exception as e:
                res["err"] = f"pinned run: {type(e).__name__}: {e}\n" + traceback.format_exc()[-2500:]
        res["funcs"] = sorted(funcs)
    res["stats"] = eng.stats.as_dict()
    res["tags"] = tags
    res["reached"] = eng.reached
    res["vars"] = len(eng.vars)
    res["wall"] = time.time() - t0
    return res


def from_project(ex):
    """did the exception pass through the code under test?"""
    from . import hook
    root = os.path.join(hook.REPO, "pycid") + os.sep
    return any(f.filename.startswith(root) for f in traceback.extract_tb(ex.__traceback__))


def draw(v, rng):
    if v[0] == "bool":
        return rng.random() < 0.5
    lo, hi = (v[2] if v[2] is not None else -4), (v[3] if v[3] is not None else 4)
    from fractions import Fraction
    return str(lo + (hi - lo) * Fraction(rng.randrange(1, 40), 40))


def _ctx(eng):
    from . import ctx as C
    return C.SymCtx(eng)


def pinned(cfg, a):
    from . import ctx as C
    from . import engine as E
    base = MOD.pin(a) if hasattr(MOD, "pin") else [(C.Var(n) if v else C.Not(C.Var(n)))
                                                              for n, v in a.items() if isinstance(v, bool)]
    base = list(base) + list(MOD.assumptions(cfg) if hasattr(MOD, "assumptions") else ())
    eng = E.Engine(base, timeout_ms=60000)
    got = []

    def once():
        random.seed(0)
        c = C.PinCtx(eng, a)
        c.out = lambda label, v: got.append([label, C.norm(v)])
        c.check = c.eq = c.geq = lambda *a_, **k_: None
        del got[:]
        MOD.body(c, cfg)
        got.append(["#end", True])

    eng.explore(once, max_paths=64)
    if not got or got[-1][0] != "#end":
        return None  # assumption excluded this sample
    return got[:-1]


def close(a, b):
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if a != a or b != b:
                return (a != a) == (b != b)
            return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
        return False
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return a == b


def load_findings(prop):
    f = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith(f"finding: property={prop} "):
                out.append(line[len("finding: "):])
    return out


def main():
    global MOD
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(PY, [PY, "-m", "symx.run"] + sys.argv[1:])
    warnings.filterwarnings("ignore")
    t0 = time.time()
    budget = 780 if tier == "quick" else 6 * 3600
    deadline = t0 + budget
    sys.path.insert(0, VERIF)
    name = "props." + prop.lower()
    # which engine the property needs is stated in its module source
    src = open(os.path.join(VERIF, "props", prop.lower() + ".py")).read()
    from . import hook
    if "ENGINE = \"numeric\"" in src:
        from . import numeric
        fnd = numeric.install()
    else:
        fnd = hook.install_graph()
    import pycid  # noqa: F401  imported from the current tree through the hook
    MOD = importlib.import_module(name)
    cfgs = list(MOD.configs(tier))
    if only:
        cfgs = [c for c in cfgs if only in c["name"]]
    nsamples = getattr(MOD, "SAMPLES", {"quick": 1, "thorough": 3})[tier]
    jobs = [(i, c, deadline, c.get("samples", nsamples), seed) for i, c in enumerate(cfgs)]
    jobs.sort(key=lambda j: -j[1].get("weight", 0))
    results, violations, errors = [], [], []
    nproc = min(len(jobs), os.cpu_count() or 1)
    pool = mp.get_context("fork").Pool(nproc, maxtasksperchild=getattr(MOD, "TASKS_PER_CHILD", 40))
    pending_cex = []
    try:
        it = pool.imap_unordered(run_config, jobs)
        while True:
            try:
                r = it.next(timeout=max(1.0, deadline + 20 - time.time()))
            except StopIteration:
                break
            except mp.TimeoutError:
                errors.append(("-", "a configuration did not finish within the time budget"))
                break
            results.append(r)
            if os.environ.get("SYMX_VERBOSE"):
                print("#", r["cfg"]["name"], r["stats"]["paths"], "paths", "%.1fs" % r["wall"], r["tags"] or "", (r["err"] or "")[:200],
                      file=sys.stderr, flush=True)
            if r["err"]:
                errors.append((r["cfg"]["name"], r["err"]))
            for label, model in r["cex"]:
                pending_cex.append((r["cfg"], label, model))
            if len(pending_cex) >= 8:
                break
            if time.time() > deadline:
                errors.append(("-", "time budget exhausted"))
                break
    finally:
        pool.terminate()
        pool.join()

    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    # ---- replay counterexamples on the unpatched project ---------------------------------------
    unreproduced = []
    if pending_cex:
        seeds = getattr(MOD, "REPLAY_SEEDS", ["0", "1", "2", "3", "4", "5"])
        cjobs = [[c, m] for c, _, m in pending_cex]
        procs = [(s, plain_batch(prop, cjobs, s)) for s in seeds]
        confirmed = {}
        for s, pj in procs:
            rs = finish(pj)
            for i, r in enumerate(rs):
                if r["err"]:
                    errors.append((pending_cex[i][0]["name"], "replay harness error: " + r["err"]))
                if r["fails"] and i not in confirmed:
                    confirmed[i] = (s, r["fails"])
        for i, (cfg, label, model) in enumerate(pending_cex):
            if i in confirmed:
                s, fails = confirmed[i]
                violations.append((cfg, label, model, s, fails))
            else:
                unreproduced.append((cfg["name"], label, model))
    # ---- translation validation -------------------------------------------------------------------
    tv_jobs, tv_exp = [], []
    for r in results:
        for a, outs in r["pinned"]:
            tv_jobs.append([r["cfg"], a])
            tv_exp.append(outs)
    tv_ok = tv_skip = 0
    tv_bad = []
    if tv_jobs and not violations:
        k = min(os.cpu_count() or 1, len(tv_jobs))
        parts = [finish(p) for p in [plain_batch(prop, tv_jobs[j::k]) for j in range(k)]]
        got = [None] * len(tv_jobs)
        for j in range(k):
            for i, g in zip(range(j, len(tv_jobs), k), parts[j]):
                got[i] = g
        for (cfg, a), e, g in zip(tv_jobs, tv_exp, got):
            if g["err"]:
                tv_bad.append((cfg["name"], a, "harness error on the real code: " + g["err"]))
            elif e is None or g["skip"]:
                tv_skip += 1
            elif close(json.loads(json.dumps(e, default=repr)), g["outs"]):
                tv_ok += 1
            else:
                tv_bad.append((cfg["name"], a, f"encoding {e} vs real {g['outs']}"))
            if g["fails"] and not g["err"]:
                # the real code itself violates the property on this input
                violations.append((cfg, g["fails"][0][0], a, "0", g["fails"]))
    # ---- verdict ---------------------------------------------------------------------------------
    stats = {}
    for r in results:
        for f, v in r["stats"].items():
            stats[f] = stats.get(f, 0) + v
    reached, tags, funcs = {}, {}, set()
    for r in results:
        for k_, v in r["reached"].items():
            reached[k_] = reached.get(k_, 0) + v
        for k_, v in r["tags"].items():
            tags[k_] = tags.get(k_, 0) + v
        funcs.update(r["funcs"])
    vac = []
    if not violations and not errors and not only:
        for w in getattr(MOD, "WITNESS", ()):
            if not tags.get(w):
                vac.append(f"never reached: {w}")
        if not stats.get("assertions"):
            vac.append("no assertion was reached")
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": stats.get("paths", 0), "transitions": stats.get("forks", 0),
            "traces_validated_against_impl": tv_ok,
            "samples": ([{"config": c["name"], "input": a, "output": e} for (c, a), e in list(zip(tv_jobs, tv_exp))[:4]]
                        or [{"config": c[0]["name"], "input": c[2]} for c in violations[:2]]
                        or [{"config": c["name"]} for c in cfgs[:2]]),
            "configurations": len(results), "symbolic_variables_max": max([r["vars"] for r in results] or [0]),
            "solver_queries": stats.get("queries", 0), "solver_sat": stats.get("sat", 0),
            "solver_unsat": stats.get("unsat", 0), "solver_seconds": round(stats.get("solver_s", 0.0), 2),
            "assertions_reached": stats.get("assertions", 0),
            "assertions_decided_by_smt": stats.get("assert_smt", 0),
            "assertions_fixed_by_path_condition": stats.get("assert_const", 0),
            "reached": reached, "witnesses": tags, "functions_encoded": sorted(funcs),
            "bounds": MOD.BOUNDS[tier] if isinstance(MOD.BOUNDS, dict) else MOD.BOUNDS,
            "outside_the_bounds": getattr(MOD, "OUTSIDE", ""),
            "translation_validation": {"agreed": tv_ok, "excluded_by_assumptions": tv_skip, "disagreed": len(tv_bad)},
            "explanation": "states = symbolic paths of the real code (each a path condition over all inputs), "
                           "transitions = branch decisions with both sides satisfiable; every path ends in SMT "
                           "assertion queries.",
        },
        "assumptions": getattr(MOD, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    print(f"{prop} {tier}: {len(results)}/{len(cfgs)} configurations, {stats.get('paths', 0)} paths, "
          f"{stats.get('queries', 0)} queries ({stats.get('solver_s', 0):.1f}s solver), "
          f"{stats.get('assertions', 0)} assertions, {tv_ok} traces validated, {wall:.1f}s")
    for line in load_findings(prop):
        print("KNOWN-FINDING: " + line)
    if violations:
        rep = os.path.join(evdir, f"replay_{prop}.json")
        with open(rep, "w") as f:
            json.dump([{"prop": prop, "config": c, "label": l, "assignment": m, "hashseed": s, "fails": fl}
                       for c, l, m, s, fl in violations], f, indent=1, default=repr)
        c, l, m, s, fl = violations[0]
        print(f"  {c['name']}: {l}: {json.dumps(fl, default=repr)[:600]}")
        print(f"VIOLATION property={prop} replay={rep}")
        sys.exit(1)
    bad = [f"{n}: {e}" for n, e in errors] + [f"not reproduced on the real code: {u}" for u in unreproduced] \
        + [f"encoding differs from the real code: {b}" for b in tv_bad] + vac
    if bad:
        print(f"{prop}: INCONCLUSIVE")
        for i, b in enumerate(bad[:4]):
            print("  " + str(b)[:1800 if i == 0 else 300])
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
