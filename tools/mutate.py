"""development: systematic small changes to the code under test, to find what the checks do not see.
   mutate.py gen OUTDIR            one patched file per mutant that passes the repository's tests
   mutate.py run OUTDIR [SECONDS]  the cheap part of every quick check (by the evidence of the last run) on each survivor"""
import ast, copy, glob, json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SRC = "/repo/src/aligned_textgrid"
SWAP = {"start": "end", "end": "start", "starts": "ends", "ends": "starts", "fol": "prev", "prev": "fol", "first": "last", "last": "first",
        "min": "max", "max": "min", "argmin": "argmax", "xmin": "xmax", "xmax": "xmin", "any": "all", "all": "any",
        "superset_class": "subset_class", "subset_class": "superset_class", "above": "below", "below": "above",
        "isinstance": "issubclass", "append": "remove", "time": "label", "sub_starts": "sub_ends", "sub_ends": "sub_starts"}
CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}

def mutants(src):
    """(line, description, new source)"""
    tree = ast.parse(src)
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0])); docs.add(id(n.body[0].value))
        if isinstance(n, (ast.FunctionDef,)):
            for a in n.args.args + n.args.kwonlyargs:
                if a.annotation is not None:
                    for m in ast.walk(a.annotation): docs.add(id(m))
            if n.returns is not None:
                for m in ast.walk(n.returns): docs.add(id(m))
            for d in n.decorator_list:
                for m in ast.walk(d): docs.add(id(m))
    out = []
    def emit(node, what):
        out.append((node.lineno, what, ast.unparse(tree)))
    def inraise(n): return False
    for n in list(ast.walk(tree)):
        if id(n) in docs:
            continue
        if isinstance(n, ast.Raise):
            for m in ast.walk(n): docs.add(id(m))
            continue
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "warn":
            for m in ast.walk(n): docs.add(id(m))
            continue
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    old = n.ops[i]; n.ops[i] = new(); emit(n, f"{type(op).__name__}->{new.__name__}"); n.ops[i] = old
        if isinstance(n, ast.BoolOp):
            old = n.op; n.op = ast.Or() if isinstance(old, ast.And) else ast.And(); emit(n, "and<->or"); n.op = old
            for i in range(len(n.values)):
                vals = n.values
                n.values = vals[:i] + vals[i+1:]
                if len(n.values) == 1:
                    n.values = n.values * 2
                emit(n, f"drop operand {i}"); n.values = vals
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            n.op, old = ast.UAdd(), n.op
            n.op = old
        if isinstance(n, ast.Constant) and not isinstance(n.value, str):
            v = n.value
            for new in ({True: [False], False: [True]}[v] if isinstance(v, bool) else [v + 1, v - 1] if isinstance(v, (int, float)) else []):
                n.value = new; emit(n, f"{v}->{new}"); n.value = v
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            old = n.op; n.op = ast.Sub() if isinstance(old, ast.Add) else ast.Add(); emit(n, "+<->-"); n.op = old
        if isinstance(n, ast.Attribute) and n.attr in SWAP:
            old = n.attr; n.attr = SWAP[old]; emit(n, f".{old}->.{n.attr}"); n.attr = old
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in SWAP:
            old = n.id; n.id = SWAP[old]; emit(n, f"{old}->{n.id}"); n.id = old
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            old = n.test
            n.test = ast.copy_location(ast.Constant(True), old); emit(n, "if True") if not isinstance(n, ast.While) else None
            n.test = ast.copy_location(ast.Constant(False), old); emit(n, "if False"); n.test = old
        if isinstance(n, ast.comprehension) and n.ifs:
            old = n.ifs; n.ifs = []; out.append((getattr(n.target, "lineno", 0), "drop comprehension filter", ast.unparse(tree))); n.ifs = old
        if isinstance(n, ast.Call) and n.keywords:
            for i in range(len(n.keywords)):
                old = n.keywords; n.keywords = old[:i] + old[i+1:]; emit(n, f"drop keyword {old[i].arg}"); n.keywords = old
        for field in ("body", "orelse", "finalbody"):
            body = getattr(n, field, None)
            if isinstance(body, list):
                for i, st in enumerate(body):
                    if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Return)) and id(st) not in docs and not isinstance(n, ast.Module) and not (isinstance(n, ast.ClassDef)):
                        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and getattr(st.value.func, "attr", "") == "warn": continue
                        body[i] = ast.copy_location(ast.Pass(), st); out.append((st.lineno, f"delete: {ast.unparse(st)[:60]}", ast.unparse(tree))); body[i] = st
                        if isinstance(st, ast.Continue):
                            body[i] = ast.copy_location(ast.Break(), st); out.append((st.lineno, "continue->break", ast.unparse(tree))); body[i] = st
                        if isinstance(st, ast.Break):
                            body[i] = ast.copy_location(ast.Continue(), st); out.append((st.lineno, "break->continue", ast.unparse(tree))); body[i] = st
    return out

def env(repo, **kw):
    return dict(os.environ, PYTHONPATH=repo + "/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", **kw)

def copy_repo():
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns(".git", "docs", "build", "dist"))
    return d, d + "/repo"

def survives(job):
    rel, line, what, text = job
    d, r = copy_repo()
    try:
        open(os.path.join(r, "src/aligned_textgrid", rel), "w").write(text)
        try:
            c = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x"], cwd=r, env=env(r), capture_output=True, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return None
        return job if c.returncode == 0 else None
    finally:
        shutil.rmtree(d)

def gen(out):
    os.makedirs(out, exist_ok=True)
    jobs = []
    for p in sorted(glob.glob(SRC + "/**/*.py", recursive=True)):
        if p.endswith("__init__.py"): continue
        src = open(p).read()
        seen = {ast.unparse(ast.parse(src))}
        for line, what, text in mutants(src):
            if text in seen: continue
            seen.add(text)
            jobs.append((os.path.relpath(p, SRC), line, what, text))
    print(len(jobs), "mutants", flush=True)
    n = 0
    with cf.ProcessPoolExecutor(8) as ex:
        for j in ex.map(survives, jobs, chunksize=4):
            if j:
                json.dump(j, open(os.path.join(out, f"m{n:04d}.json"), "w")); n += 1
    print(n, "survive the tests")

def cheap(budget, ev, dst):
    """property TAB instance, the cheapest instances of every property within the budget, properties in turn"""
    cols = []
    for f in sorted(glob.glob(ev + "/C[0-9]*.json")):
        d = json.load(open(f))
        t, keep = 0, []
        for x in sorted(d["coverage"]["harnesses"], key=lambda x: x["cpu_s"]):
            t += x["cpu_s"] + 0.005
            if t > budget: break
            keep.append((d["property"], x["harness"]))
        cols.append(keep[::3] + keep[1::3] + keep[2::3])
    rows = []
    for k in range(max(map(len, cols))):
        for c in cols:
            rows += c[k:k+1]
    open(dst, "w").write("".join(f"{a}\t{b}\n" for a, b in rows))

def aim(cov, rel, line, budget, dst):
    """as cheap, of the instances that reach the line (cov: cover.py)"""
    for k in range(12):
        at = cov.get(f"{rel}:{line - k}")
        if at: break
    else:
        return 0
    by = {}
    for c, p, n in sorted(at):
        by.setdefault(p, []).append((c, p, n))
    rows, t, k = [], 0, 0
    while t < budget and k < max(map(len, by.values())):
        for p in sorted(by):
            for c, p, n in by[p][k:k+1]:
                if t + c <= budget or c < 1:
                    t += c + 0.02; rows.append((p, n))
        k += 1
    open(dst, "w").write("".join(f"{a}\t{b}\n" for a, b in rows))
    return len(rows)

def attack(job):
    path, dst, cov, budget = job
    rel, line, what, text = json.load(open(path))
    d, r = copy_repo()
    try:
        if cov:
            dst = d + "/names.txt"
            if not aim(cov, rel, line, budget, dst): return path, None
        open(os.path.join(r, "src/aligned_textgrid", rel), "w").write(text)
        e = env(r, SYMX_REPO=r, SYMX_OUT=d + "/out")
        try:
            c = subprocess.run([PY, HERE + "/tools/multi.py", dst], env=e, capture_output=True, text=True, timeout=300)
        except subprocess.TimeoutExpired:
            return path, "timeout"
        if "HIT" in c.stdout:
            return path, c.stdout[c.stdout.index("HIT"):].strip()
        return path, None if c.returncode == 0 else f"exit {c.returncode} {c.stderr[-300:]}"
    finally:
        shutil.rmtree(d)

def run(out, budget, ev):
    dst = out + "/names.txt"
    cov = json.load(open(out + "/cov.json")) if os.path.exists(out + "/cov.json") else None
    cheap(budget, ev, dst)
    res = out + "/result.json"
    done = json.load(open(res)) if os.path.exists(res) else {}
    todo = [p for p in sorted(glob.glob(out + "/m*.json")) if p not in done]
    with cf.ThreadPoolExecutor(8) as ex:
        for f in cf.as_completed([ex.submit(attack, (p, dst, cov, budget)) for p in todo]):
            p, k = f.result()
            done[p] = k
            json.dump(done, open(res, "w"), indent=0)
            if k is None or not k.startswith("HIT"):
                rel, line, what, text = json.load(open(p))
                print("SURVIVES" if k is None else k, os.path.basename(p), rel, line, what, flush=True)
    print(sum(1 for v in done.values() if v is None), "of", len(done), "survive")

if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(sys.argv[2])
    else:
        run(sys.argv[2], float(sys.argv[3]) if len(sys.argv) > 3 else 10, sys.argv[4] if len(sys.argv) > 4 else HERE + "/evidence")
