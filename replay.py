"""replay FILE -- run one recorded input against the unpatched code, in a process that
never loads the solver or the symbolic values.  Exit 0: the property held; 1: broken;
3: the input does not fit the harness any more."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get("SYMX_REPO", "/repo") + "/src")


def main(path):
    rec = json.load(open(path))
    import importlib
    from symx.concrete import run_concrete
    mod = importlib.import_module("harness." + rec["property"].lower())
    for inst in mod.instances(rec.get("tier", "quick")) + (
            mod.instances("thorough") if rec.get("tier") != "thorough" else []):
        if inst.name == rec["instance"]:
            break
    else:
        print("no such harness instance:", rec["instance"])
        return 3
    out = run_concrete(inst, rec["values"], rec["labels"], rec["choices"])
    print(json.dumps({"outcome": out[0], "what": out[1], "detail": out[2][-1200:]}))
    return {"ok": 0, "fail": 1, "raise": 1}.get(out[0], 3)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
