"""development: which instances of the quick checks reach which lines: cover.py EVIDENCE_DIR OUT.json"""
import importlib, json, glob, os, sys, time, multiprocessing as mp
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import check
from symx import npmodel, iomodel, explore
from symx.core import Stats
SRC = os.environ.get("SYMX_REPO", "/repo") + "/src/aligned_textgrid/"
LINES = set()
def line(code, n):
    if code.co_filename.startswith(SRC):
        LINES.add(f"{code.co_filename[len(SRC):]}:{n}")
    return sys.monitoring.DISABLE
def init():
    explore._init()
    m = sys.monitoring
    m.use_tool_id(3, "cover"); m.register_callback(3, m.events.LINE, line); m.set_events(3, m.events.LINE)
INST = []
def work(k):
    p, inst = INST[k]
    sys.monitoring.restart_events(); LINES.clear()
    st, stack, n, t = Stats(), [[]], 0, time.time()
    while stack and n < 60 and time.time() - t < 3:
        r = explore.run_path(inst, stack.pop(0 if n % 2 else -1), st); stack.extend(r.open); n += 1
    return k, sorted(LINES)
if __name__ == "__main__":
    ev, dst = sys.argv[1:]
    cpu = {}
    for f in glob.glob(ev + "/C[0-9]*.json"):
        d = json.load(open(f))
        for x in d["coverage"]["harnesses"]:
            cpu[d["property"], x["harness"]] = x["cpu_s"]
    for f in sorted(glob.glob(HERE + "/harness/c[0-9]*.py")):
        m = importlib.import_module("harness." + os.path.basename(f)[:-3])
        for i in m.instances("quick"):
            INST.append((os.path.basename(f)[:-3].upper(), i))
    npmodel.install(); iomodel.install()
    cov = {}
    with mp.get_context("fork").Pool(8, initializer=init) as pool:
        for k, ls in pool.imap_unordered(work, range(len(INST)), chunksize=4):
            p, i = INST[k]
            for l in ls:
                cov.setdefault(l, []).append((cpu.get((p, i.name), 1.0), p, i.name))
    json.dump(cov, open(dst, "w"))
    print(len(INST), "instances", len(cov), "lines")
