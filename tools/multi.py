"""development: selected instances of all properties in one process: multi.py FILE (lines: property TAB instance); exit 1 on the first confirmed violation"""
import importlib, os, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import check
from symx import npmodel, iomodel, explore
mods, insts, prop = {}, [], {}
want = [l.rstrip("\n").split("\t") for l in open(sys.argv[1])]
allp = sorted({p for p, _ in want})
by = {}
for p in allp:
    m = importlib.import_module("harness." + p.lower())
    for i in m.instances("quick"):
        by[p, i.name] = i
npmodel.install(); iomodel.install()
for p, n in want:
    if (p, n) in by:
        insts.append(by[p, n]); prop[id(by[p, n])] = p
hit = []
misses = {}
def on(inst, cand):
    what, values, labels, choices, detail = cand
    p = prop[id(inst)]
    path = os.path.join(check.OUT, "replay", "x.json")
    out = check.replay({"property": p, "tier": "quick", "instance": inst.name, "what": what, "values": values, "labels": labels, "choices": choices, "detail": detail}, path)
    if out[0] in ("fail", "raise"):
        hit.append((p, inst.name, out[1])); return "stop"
    misses[inst.name] = misses.get(inst.name, 0) + 1
    return "mute" if misses[inst.name] >= 4 else "skip"
explore.explore(insts[::-1], time.time() + 200, procs=1, on_candidate=on)
if hit:
    print("HIT", *hit[0]); sys.exit(1)
