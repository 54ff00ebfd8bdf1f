"""check ID [--tier quick|thorough] -- decide one property by symbolic execution.

Exit 0: every assertion held on every path explored; 1: a counterexample was found and
reproduced on the unpatched code (VIOLATION line printed)."""
import argparse, importlib, json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get("SYMX_OUT", os.path.join(HERE, "evidence"))     # another place while developing
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from symx import boot                      # noqa: F401  (solver and /repo/src on the path)
from symx import npmodel, iomodel, explore

LEVEL = "model_checking"


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("known", []) if k["property"] == pid]


def replay(rec, path):
    """run the input against the unpatched code in a fresh process"""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    json.dump(rec, open(path, "w"), indent=1, ensure_ascii=False)
    try:
        r = subprocess.run([sys.executable, os.path.join(HERE, "replay.py"), path],
                           capture_output=True, text=True, timeout=90)
    except subprocess.TimeoutExpired:
        return ("fail", "does not finish", "no result within 90 s")
    for line in r.stdout.splitlines()[::-1]:
        if line.startswith("{"):
            d = json.loads(line)
            return (d["outcome"], d["what"], d["detail"])
    return ("engine", "replay failed", (r.stdout + r.stderr)[-800:])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--names", default=None, help="development: a file with the names of the harnesses to run")
    ap.add_argument("--procs", type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument("--limit", type=float, default=None)
    ap.add_argument("--all", type=int, default=0, help="debugging: go on after a violation")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    limit = a.limit or (420.0 if a.tier == "quick" else 3000.0)
    mod = importlib.import_module("harness." + a.id.lower())
    npmodel.install()
    iomodel.install()
    insts = mod.instances(a.tier)
    if a.only:
        insts = [i for i in insts if a.only in i.name]
    if a.names:
        keep = set(open(a.names).read().splitlines())
        insts = [i for i in insts if i.name in keep]
    names = [i.name for i in insts]
    assert len(set(names)) == len(names), "instance names must differ"
    known = known_findings(a.id)
    confirmed, seen_known, unreproduced = [], {}, []
    misses = {}
    n_replay = [0]

    def on_candidate(inst, cand):
        what, values, labels, choices, detail = cand
        n_replay[0] += 1
        path = os.path.join(OUT, "replay", f"{a.id}-{n_replay[0]}.json")
        rec = {"property": a.id, "tier": a.tier, "instance": inst.name, "what": what,
               "values": values, "labels": labels, "choices": choices, "detail": detail}
        out = replay(rec, path)
        if out[0] in ("fail", "raise"):
            for k in known:
                if k["instance"] == inst.name and k["what"] == out[1]:
                    seen_known[k["id"]] = k
                    return "skip"
            confirmed.append((inst, path, out, rec))
            if a.all:
                print("FOUND", inst.name, out[1], out[2][-a.all:], path)
                return "mute"
            return "stop"
        unreproduced.append({"instance": inst.name, "what": what, "replay": out[0], "detail": detail[-300:]})
        misses[inst.name] = misses.get(inst.name, 0) + 1
        if a.v:
            print("  not reproduced:", inst.name, what, out, detail[-600:])
        return "mute" if misses[inst.name] >= 12 else "skip"

    res = explore.explore(insts, t0 + limit, procs=a.procs, on_candidate=on_candidate)

    tot = explore.Stats()
    rows = []
    for i, inst in enumerate(insts):
        st = res.stats[i]
        tot.add(st)
        rows.append({"harness": inst.name, "params": inst.params, "bound": inst.bound,
                     "paths": st.paths, "completed": st.completed, "queries": st.feas_queries + st.asserts,
                     "assertions_by_solver": st.asserts, "assertions_by_folding": st.trivial,
                     "exhausted": i not in res.unexplored and i not in res.muted,
                     "unexplored_prefixes": res.unexplored.get(i, 0),
                     "cpu_s": round(res.wall[i], 2), "notes": res.notes.get(i, {})})
        if a.v:
            print(f"  {inst.name}: paths {st.paths} completed {st.completed} infeasible {st.infeasible} "
                  f"asserts {st.asserts}+{st.trivial} cpu {res.wall[i]:.1f}s left {res.unexplored.get(i, 0)} "
                  f"wit {st.witness_ok}/{st.witness_bad} {res.notes.get(i, '')}")
    vacuous = [insts[i].name for i in range(len(insts))
               if not confirmed and res.stats[i].asserts + res.stats[i].trivial == 0]
    wall = time.time() - t0
    ev = {
        "property": a.id, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": LEVEL, "wall_s": round(wall, 2),
        "coverage": {
            "states": tot.completed, "transitions": tot.branches,
            "traces_validated_against_impl": tot.witness_ok,
            "samples": [dict(harness=insts[i].name, **s) for i in range(len(insts)) for s in res.samples[i][:1]][:8],
            "method": "symbolic execution of the real code (CPython, symbolic times/labels/choices) with z3 (QF_LRA)",
            "functions_encoded": sorted(res.functions),
            "bounds": getattr(mod, "BOUNDS", ""),
            "exhaustive_within_bounds": bool(res.exhausted and not res.errors and not unreproduced
                                             and not tot.unsupported and not tot.unknown and not tot.realised),
            "queries_discharged": tot.feas_queries + tot.asserts,
            "branch_feasibility_queries": tot.feas_queries,
            "assertion_queries": tot.asserts,
            "assertions_settled_by_folding": tot.trivial,
            "paths": tot.paths, "paths_infeasible": tot.infeasible,
            "solver_s": round(tot.solver_s, 2),
            "max_decisions_on_a_path": tot.depth_max,
            "pinned_values": tot.realised, "unsupported_paths": tot.unsupported,
            "solver_unknown": tot.unknown,
            "path_witnesses_rerun": tot.witness_ok, "path_witnesses_disagreeing": tot.witness_bad,
            "candidates_not_reproduced": unreproduced[:10],
            "vacuous_harnesses": vacuous,
            "harnesses": rows, "errors": res.errors[:5],
        },
        "assumptions": getattr(mod, "ASSUMES", []) + COMMON,
        "violations": len(confirmed),
    }
    os.makedirs(OUT, exist_ok=True)
    json.dump(ev, open(os.path.join(OUT, f"{a.id}.json"), "w"), indent=1, ensure_ascii=False, default=str)
    for k in seen_known.values():
        print(f"KNOWN-FINDING: property={a.id} {k['text']}")
    print(f"{a.id} {a.tier}: {len(insts)} harnesses, {tot.completed} paths, "
          f"{tot.feas_queries + tot.asserts} queries ({tot.asserts} assertions), solver {tot.solver_s:.1f}s, "
          f"wall {wall:.1f}s, witnesses {tot.witness_ok}"
          + ("" if res.exhausted else " -- INCOMPLETE: time limit reached, see evidence")
          + (f" -- {len(unreproduced)} candidates not reproduced (not reported)" if unreproduced else "")
          + (f" -- VACUOUS: {vacuous}" if vacuous else "")
          + (f" -- errors: {res.errors[:2]}" if res.errors else ""))
    if confirmed:
        inst, path, out, rec = confirmed[0]
        print(f"  harness {inst.name}: {out[1]}")
        print(f"  input: times {rec['values']} labels {rec['labels']} choices {rec['choices']}")
        if out[2]:
            print("  " + out[2].strip().replace("\n", "\n  ")[-1500:])
        print(f"VIOLATION property={a.id} replay={path}")
        return 1
    return 0


COMMON = [
    "times are real numbers: the claim is exact for floats whose sums and differences are exact; float rounding is outside it",
    "interval labels are never the reserved boundary mark '#' and carry no leading or trailing white space",
    "numpy.allclose/isclose/array_equal/array/fromiter/isnan/isfinite and math.isclose are replaced by models that agree with "
    "them on concrete numbers; all other numpy code runs as it is on object arrays",
]

if __name__ == "__main__":
    sys.exit(main())
