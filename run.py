#!/usr/bin/env python3-vt
"""run.py ID: decides property ID on /repo's working tree (VERIF_TIER=quick|thorough)."""
import glob, hashlib, json, os, re, subprocess, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
import build as B
import driver as D
from checks import CHECKS

def known_findings(pid):
    f = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))["findings"] if k["property"] == pid and k.get("status", "open") == "open"]

def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv[2:] else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = CHECKS[pid]
    t0 = time.time()
    allv = []; total = D.Stats(); und = []; samples = []; runs = []; complete = True; missing = []; functions = {}
    errors = []
    for h in spec["harnesses"]:
        if tier == "quick" and h.get("thorough_only"):
            continue
        o = D.Opts(**h.get("opts", {}))
        if tier == "thorough":
            for k, v in h.get("thorough", {}).items(): setattr(o, k, v)
        tb = time.time()
        try:
            exe, objs = B.build(h["name"], [os.path.join(HERE, "harness", x) for x in h["src"]], h["repo"], defs=h.get("defs", ()))
        except B.BuildError as e:
            print("BUILD ERROR", e); sys.exit(2)
        total.add("build_s", time.time() - tb)
        functions[h["name"]] = B.functions(objs)
        print(f"[{pid}] {h['name']}: built in {time.time()-tb:.1f} s", flush=True)
        r = D.explore(exe, o, h.get("init"), h["name"])
        for k, v in r["stats"].items():
            if isinstance(v, (int, float)): total.add(k, v)
        st = r["stats"]
        print(f"[{pid}] {h['name']}: paths {st.get('paths',0)} complete {r['complete']} obligations {st.get('obligations_total',0)} violations {len(r['violations'])} undecided {len(r['undecided'])} solver {st.get('solver_s',0):.1f} s wall {st.get('wall_s',0):.1f} s", flush=True)
        if os.environ.get("VERIF_VERBOSE"):
            print(json.dumps(st, indent=1)); print("undecided", sorted(set(r["undecided"]))[:40]); print("logs", r["logs"])
        for e in r["errors"]:
            print("ENGINE ERROR", e, flush=True)
        errors += r["errors"]
        for w in h.get("witness", []):
            if w not in r["reached"]: missing.append(f"{h['name']}: {w}")
        complete = complete and r["complete"]
        for v in r["violations"]: v["harness"] = h["name"]; v["exe"] = exe
        allv += r["violations"]
        und += [f"{h['name']}: {u}" for u in r["undecided"]]
        samples += [dict(s, harness=h["name"]) for s in r["samples"][:3]]
        runs.append({"harness": h["name"], "sources": h["repo"], "paths": st.get("paths", 0), "all_paths_explored": r["complete"],
                     "obligations": st.get("obligations_total", 0), "undecided": len(r["undecided"]), "queries": st.get("queries", 0),
                     "solver_s": round(st.get("solver_s", 0), 2), "symbolic_exec_s": round(st.get("exec_s", 0), 2), "reach_witnesses": r["reached"],
                     "undecided_examples": sorted(set(r["undecided"]))[:10]})
    # findings
    known = known_findings(pid); new = []; hits = {}
    for v in allv:
        k = next((k for k in known if k["harness"] == v["harness"] and re.fullmatch(k["obligation"], v["obligation"])), None)
        if k is not None: hits[k["id"]] = k
        else: new.append(v)
    for k in hits.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    tot_obl = total.get("obligations_total", 0)
    solved = int(total.get("discharged_normalised", 0) + total.get("discharged_smt", 0) + total.get("discharged_bounded_residual", 0))
    ground = int(total.get("facts_true", 0) + total.get("constant_true", 0))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
          "coverage": {
              "states": int(total.get("paths", 0)),
              "transitions": int(total.get("branches_infeasible", 0) + sum(max(0, r["paths"] - 1) for r in runs)),
              "traces_validated_against_impl": int(total.get("symbolic_runs", 0)),
              "obligations": int(tot_obl), "discharged_by_solver": solved, "ground_after_symbolic_execution": ground,
              "undecided": len(und), "undecided_examples": sorted(set(und))[:30],
              "raw_encoding_crosschecks": int(total.get("discharged_raw_crosscheck", 0)),
              "validated_terms": int(total.get("validated_terms", 0)),
              "solver_queries": int(total.get("queries", 0)), "solver_seconds": round(total.get("solver_s", 0), 2),
              "query_outcomes": {k: int(v) for k, v in sorted(total.items()) if re.match(r"(raw|property|residual|branch|bounded_residual|witness)_(sat|unsat|unknown)$", k)},
              "exhaustive": bool(complete and not und),
              "symbolic_operations_trapped": int(total.get("traps", 0)), "term_nodes": int(total.get("nodes", 0)),
              "bounds": spec["bounds"], "outside_bounds": spec.get("outside", ""), "stubs": spec.get("stubs", "none"),
              "functions_encoded": {k: v for k, v in functions.items()},
              "harnesses": runs,
              "samples": samples[:12] or [{"note": "all obligations were ground after symbolic execution"}],
              "explanation": "states = symbolic paths of the compiled code, transitions = branch alternatives closed or followed by the solver, traces = symbolic runs whose terms were compared with a native run of the same code at the same inputs",
          },
          "assumptions": spec.get("assumptions", []) + ["doubles are read as reals (rounding outside of the claim, constants with tolerance)", "denominators met on a path are nonzero"],
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    if new:
        rd = os.path.join(B.CACHE, "replay"); os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, pid + ".json")
        json.dump(new[:20], open(rp, "w"), indent=1)
        seen = set()
        for v in new:
            if v["obligation"] in seen: continue
            seen.add(v["obligation"])
            if len(seen) > 6: break
            print(f"  {v['harness']}: {v['obligation']}: {v['text']}")
        print(f"VIOLATION property={pid} replay={rp}", flush=True)
        finish(1)
    if errors:
        finish(2)
    if missing:
        print("VACUOUS: not reached: " + ", ".join(missing)); finish(2)
    print(f"[{pid}] held: {tot_obl} obligations, {solved} by solver, {ground} ground, {len(und)} undecided, {time.time()-t0:.1f} s")
    finish(0)

def finish(rc):
    sys.stdout.flush()
    if D._POOL is not None:
        for pr in list((D._POOL._processes or {}).values()): pr.kill()
    os._exit(rc)

if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc(); finish(2)
