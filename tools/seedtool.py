"""development: make and try planted bugs.
   seedtool.py make SPECFILE [ID...]   SPECFILE defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)]
   seedtool.py try [ID...] [--tier T] [--prop P]     run the check of each seed's property against it (scratch copy)"""
import json, os, subprocess, sys, shutil, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
PY = "/opt/venv/bin/python"

def copy_repo():
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    r = os.path.join(d, "repo")
    subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
    return d, r

def env(repo):
    e = dict(os.environ, PYTHONPATH=repo + "/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    return e

def tests(repo):
    r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x"], cwd=repo, env=env(repo),
                       capture_output=True, text=True, timeout=120)
    return r.returncode == 0, r.stdout[-600:]

def demo(repo, folder):
    r = subprocess.run(["bash", os.path.join(folder, "demo.sh")], cwd=repo, env=env(repo), capture_output=True, text=True, timeout=60)
    return r.returncode, (r.stdout + r.stderr)[-400:]

def own_lines(r):
    """lines the patch takes away that our own commits added"""
    import re
    base = subprocess.run(["git", "-C", r, "log", "--format=%H", "--invert-grep", "--grep=^fix:", "-1"], capture_output=True, text=True).stdout.strip()
    out = []
    cur = None
    for l in subprocess.run(["git", "-C", r, "diff", "-U0"], capture_output=True, text=True).stdout.splitlines():
        if l.startswith("--- a/"): cur = l[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
        if m and m.group(2) != "0":
            a, n = int(m.group(1)), int(m.group(2) or 1)
            b = subprocess.run(["git", "-C", r, "blame", "-l", "-s", "-L", f"{a},+{n}", base + "..HEAD", "--", cur], capture_output=True, text=True).stdout
            out += [x for x in b.splitlines() if not x.startswith("^")]
    return out

def make(spec):
    d, r = copy_repo()
    try:
        for f, old, new in spec["edits"]:
            p = os.path.join(r, "src/aligned_textgrid", f)
            s = open(p).read()
            if s.count(old) != 1:
                return spec["id"], f"edit matches {s.count(old)} times: {f}"
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True).stdout
        own = own_lines(r)
        if own:
            return spec["id"], f"changes lines of our own commits: {own}"
        folder = os.path.join(d, "f"); os.makedirs(folder)
        open(os.path.join(folder, "demo.py"), "w").write(spec["demo"])
        open(os.path.join(folder, "demo.sh"), "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        ok, out = tests(r)
        if not ok:
            return spec["id"], "tests fail: " + out
        c1, o1 = demo(r, folder)
        c0, o0 = demo("/repo", folder)
        if c0 != 0 or c1 == 0:
            return spec["id"], f"demo: clean {c0} {o0} patched {c1} {o1}"
        dst = os.path.join(SEEDED, spec["id"])
        shutil.rmtree(dst, ignore_errors=True); os.makedirs(dst)
        open(os.path.join(dst, "patch.diff"), "w").write(diff)
        for n in ("demo.py", "demo.sh"):
            shutil.copy(os.path.join(folder, n), dst)
        os.chmod(os.path.join(dst, "demo.sh"), 0o755)
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
                  open(os.path.join(dst, "meta.json"), "w"), indent=1, ensure_ascii=False)
        return spec["id"], "ok"
    except Exception as exc:
        return spec["id"], repr(exc)[:300]
    finally:
        shutil.rmtree(d)

def try_one(sid, tier, prop=None):
    d, r = copy_repo()
    try:
        a = subprocess.run(["git", "-C", r, "apply", os.path.join(SEEDED, sid, "patch.diff")], capture_output=True, text=True)
        if a.returncode:
            return sid, prop, "patch does not apply", ""
        prop = prop or json.load(open(os.path.join(SEEDED, sid, "meta.json")))["property"]
        e = dict(env(r), SYMX_REPO=r, SYMX_OUT=d + "/out")
        c = subprocess.run([PY, os.path.join(HERE, "check.py"), prop, "--tier", tier], env=e, capture_output=True, text=True)
        return sid, prop, {0: "MISSED", 1: "caught"}.get(c.returncode, f"exit {c.returncode}"), c.stdout[-900:] + c.stderr[-300:]
    finally:
        shutil.rmtree(d)

def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        ns = {}
        exec(open(args[0]).read(), ns)
        ids = args[1:]
        specs = [s for s in ns["SEEDS"] if not ids or s["id"] in ids]
        with cf.ThreadPoolExecutor(6) as ex:
            for f in cf.as_completed([ex.submit(make, s) for s in specs]):
                print(*f.result(), flush=True)
    else:
        tier, prop = "quick", None
        if "--tier" in args:
            i = args.index("--tier"); tier = args[i + 1]; del args[i:i + 2]
        if "--prop" in args:
            i = args.index("--prop"); prop = args[i + 1]; del args[i:i + 2]
        v = "-v" in args
        args = [a for a in args if a != "-v"]
        for sid in args or sorted(os.listdir(SEEDED)):
            s, p, res, out = try_one(sid, tier, prop)
            line = [l for l in out.splitlines() if l.strip().startswith("harness ")]
            print(s, p, res, line[0].strip() if line else ("" if res == "caught" else out[-300:]), flush=True)
            if v: print(out)

if __name__ == "__main__":
    main()
