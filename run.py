#!/opt/venv/bin/python
"""run.py PROPERTY [--tier quick|thorough] [--case SUBSTR] [--replay FILE] [--jobs N]"""
import argparse
import importlib
import json
import logging
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")

# the checks run the working tree, never an installed copy
SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
sys.path.insert(0, SRC)


def load_known(prop):
    p = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def run_case(args):
    prop, idx, budget, tier, seed = args
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    sys.setrecursionlimit(20000)
    from symx.harness import Runner

    mod = importlib.import_module(f"checks.{prop}")
    case = cases_of(mod, tier)[idx]
    t = time.time()
    try:
        if hasattr(case, "custom"):
            r = case.custom(budget, seed)
        else:
            r = Runner(case, min(budget, case.timeout or budget), seed).run().result()
    except Exception as e:
        r = {"case": case.name, "crash": f"{type(e).__name__}: {e}", "tb": traceback.format_exc(limit=-8)}
    except BaseException as e:
        r = {"case": case.name, "crash": f"{type(e).__name__}: {e}"}
    r["wall_s"] = round(time.time() - t, 2)
    return r


def cases_of(mod, tier):
    cs = mod.cases(tier) if hasattr(mod, "cases") else mod.CASES
    return [c for c in cs if tier == "thorough" or c.tier == "quick"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    logging.disable(logging.CRITICAL)
    prop, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module(f"checks.{prop}")
    if hasattr(mod, "prepare"):
        mod.prepare()
    if a.replay:
        return do_replay(mod, prop, a.replay)
    t0 = time.time()
    cs = cases_of(mod, tier)
    sel = [i for i, c in enumerate(cs) if not a.case or a.case in c.name]
    budget = a.budget or (200 if tier == "quick" else 1500)
    jobs = [(prop, i, budget, tier, seed) for i in sel]
    results = []
    ctxm = mp.get_context("fork")
    if a.jobs <= 1 or len(jobs) == 1:
        results = [run_case(j) for j in jobs]
    else:
        results = pool_run(ctxm, jobs, min(a.jobs, len(jobs)), budget, cs, 780 if tier == "quick" else 6000)
    return report(mod, prop, tier, seed, cs, results, time.time() - t0, a)


def pool_run(ctxm, jobs, n, budget, cs, total):
    """one process per case (a crash or out-of-memory in one case does not lose the others); a violation ends the run"""
    known = load_known(jobs[0][0]) if jobs else []
    pending, live, out = list(jobs), {}, []
    end = time.time() + total
    while pending or live:
        if time.time() > end:
            for p in list(live):
                p.kill()
                out.append({"case": cs[live.pop(p)[1][1]].name, "crash": "over time"})
            out += [{"case": cs[j[1]].name, "crash": "not started, over time"} for j in pending]
            break
        while pending and len(live) < n:
            j = pending.pop(0)
            r, w = ctxm.Pipe(False)
            p = ctxm.Process(target=_child, args=(j, w))
            p.start()
            w.close()
            live[p] = (r, j, time.time())
        for p in list(live):
            r, j, t = live[p]
            if r.poll(0):
                try:
                    out.append(r.recv())
                except EOFError:
                    out.append({"case": cs[j[1]].name, "crash": "worker died"})
                p.join()
                live.pop(p)
                if out[-1].get("violation") and not known:
                    for q in live:
                        q.kill()
                    return out
            elif not p.is_alive():
                out.append({"case": cs[j[1]].name, "crash": f"worker exited {p.exitcode}"})
                live.pop(p)
            elif time.time() - t > budget * 1.25 + 30:
                p.kill()
                out.append({"case": cs[j[1]].name, "crash": "over time"})
                live.pop(p)
        time.sleep(0.01)
    return out


def _child(j, w):
    r = run_case(j)
    w.send(r)
    w.close()
    os._exit(0)


def do_replay(mod, prop, path):
    from symx.harness import replay_case

    d = json.load(open(path))
    for tier in ("quick", "thorough"):
        for c in cases_of(mod, tier):
            if c.name == d["case"]:
                r = c.replay(d["values"]) if hasattr(c, "replay") else replay_case(c, d["values"])
                print(json.dumps(r, indent=1, default=str))
                if r["status"] == "violated":
                    print(f"VIOLATION property={prop} replay={path}")
                    return 1
                return 0
    print("no such case")
    return 2


def report(mod, prop, tier, seed, cs, results, wall, a):
    known = load_known(prop)
    viol, errors, kn = [], [], []
    tot = {}
    functions, claims, samples = set(), set(), []
    per = []
    for r in sorted(results, key=lambda r: r["case"]):
        if r.get("crash"):
            errors.append(f"{r['case']}: {r['crash']}")
            if a.v:
                print(r.get("tb", ""))
            per.append({"case": r["case"], "error": r["crash"]})
            continue
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
        functions.update(r["functions"])
        claims.update(r["claims_proved"])
        samples += [{"case": r["case"], "inputs": s} for s in r["samples"][:1]]
        if r["violation"]:
            v = r["violation"]
            match = [k for k in known if k["case"] == r["case"] and any(k["match"] in f"{x[0]}: {x[1]}" for x in v["failed"])]
            (kn if match else viol).append((r, v, match))
        if not r["violation"] and r["feasible_paths"] == 0 and r["complete"]:
            errors.append(f"{r['case']}: vacuous (no feasible path)")
        if r["n_unconfirmed"] and not r["violation"]:
            errors.append(f"{r['case']}: counterexample not reproduced on the real code: {r['unconfirmed'][:3]}")
        per.append({
            "case": r["case"], "paths": r["feasible_paths"], "complete": r["complete"],
            "decisions": r["decisions"], "queries": r["stats"]["queries"], "claims": r["stats"]["claims"],
            "solver_s": round(r["stats"]["solver_s"], 2), "wall_s": r["wall_s"], "witnesses_replayed": r["witnesses"],
            "claims_within_tolerance_only": r["stats"]["tolerance_only"],
            "undecided_claims": r["n_undecided"], "paths_not_encodable": r["n_engine_errors"],
            "pinned_values": r["stats"]["concretised"], "covered": r["covered"], "not_covered": r["not_covered"],
            "witness_mismatches": len(r["witness_fail"]),
        } | ({"notes": r["notes"]} if r["notes"] else {}) | ({"not_encodable": [e["msg"][:200] for e in r["engine_errors"][:3]]} if r["engine_errors"] else {}))
        if a.v:
            for e in r["engine_errors"][:2]:
                print("ENGINE", r["case"], e["msg"], e.get("tb", ""))
            for e in r["witness_fail"][:2]:
                print("WITNESS-MISMATCH", r["case"], e["failed"], _short(e["values"]))
            print(f"{r['case']}: paths={r['feasible_paths']} complete={r['complete']} q={r['stats']['queries']} "
                  f"claims={r['stats']['claims']} triv={r['stats']['claims_trivial']} tol={r['stats']['tolerance_only']} und={r['undecided']} eng={r['n_engine_errors']} wit={r['witnesses']} "
                  f"conc={r['stats']['concretised']} cov={r['covered']} notcov={r['not_covered']} solver={r['stats']['solver_s']:.1f}s wall={r['wall_s']}s notes={r['notes']}")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    for i, (r, v, _) in enumerate(viol):
        path = os.path.join(HERE, "evidence", f"replay-{prop}-{i}.json")
        with open(path, "w") as fh:
            json.dump({"property": prop, "case": r["case"], "claim": v["claim"], "values": v["values"], "failed": v["failed"],
                       "reproduce": f"/opt/venv/bin/python run.py {prop} --replay {path}"}, fh, indent=1, default=str)
        print(f"{r['case']}: claim {v['claim']!r} fails on the real code: {v['failed'][:2]}")
        print(f"VIOLATION property={prop} replay={path}")
    for r, v, m in kn:
        print(f"KNOWN-FINDING: property={prop} {m[0]['what']}")
    und = sum(r.get("n_undecided", 0) + r.get("n_engine_errors", 0) for r in results)
    mism = sum(len(r.get("witness_fail", ())) for r in results)
    inc = [r["case"] for r in results if not r.get("crash") and not r["complete"] and not r["violation"]]
    if und:
        print(f"INCONCLUSIVE: {und} claims/paths were not decided by the solver (sampled only); see evidence")
    if mism:
        print(f"NOTE: {mism} witness runs disagree with the encoding (rounding or encoding gap); see evidence")
    if inc:
        print(f"INCOMPLETE: time budget reached in {inc}")
    bounds = getattr(mod, "BOUNDS", "")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "method": "symbolic execution of the functions below (re-read from the working tree on this run) + z3; each claim's negation is a query per path",
            "states": sum(r.get("feasible_paths", 0) for r in results if not r.get("crash")),
            "transitions": sum(r.get("decisions", 0) for r in results if not r.get("crash")),
            "traces_validated_against_impl": sum(r.get("witnesses", 0) for r in results if not r.get("crash")),
            "samples": samples[:4],
            "states_meaning": "feasible symbolic paths decided (each stands for all inputs satisfying its path condition); transitions: two-way branch decisions taken on them; traces: path witnesses replayed on the real code",
            "bounds": bounds, "functions_encoded": sorted(functions), "claims_decided": sorted(claims),
            "queries": tot.get("queries", 0), "queries_unsat": tot.get("unsat", 0), "queries_sat": tot.get("sat", 0),
            "queries_unknown": tot.get("unknown", 0), "solver_s": round(tot.get("solver_s", 0), 2),
            "claims_evaluated": tot.get("claims", 0), "claims_closed_without_solver": tot.get("claims_trivial", 0),
            "claims_closed_by_solver": tot.get("claims_solver", 0),
            "undecided_or_not_encodable": und, "incomplete_cases": inc, "witness_mismatches": mism,
            "errors": errors, "per_case": per,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON,
        "wall_s": round(wall, 2), "violations": len(viol),
    }
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print(f"{prop} [{tier}] cases={len(results)} paths={ev['coverage']['states']} claims={tot.get('claims', 0)} queries={tot.get('queries', 0)} "
          f"solver={tot.get('solver_s', 0):.1f}s wall={wall:.1f}s violations={len(viol)} known={len(kn)} undecided={und}")
    if viol:
        return 1
    for e in errors:
        print("INCONCLUSIVE", e)
    # no answer at all only when nothing was decided
    return 0 if claims or kn else 2


def _short(v):
    s = json.dumps(v, default=str)
    return s[:1500]


COMMON = [
    "floating point is modelled as extended reals (exact arithmetic, NaN and infinities as in IEEE-754; rounding, overflow, underflow and signed zero outside the claim)",
    "signed integers do not overflow; unsigned integers and flag words are bit-vectors of their numpy width",
    "numpy functions behave as the engine's model of them (validated against numpy by symx/selftest.py); log output is not modelled",
]

if __name__ == "__main__":
    sys.exit(main())
