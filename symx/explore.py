"""symx.explore -- exhaustive exploration of harness instances on several processes."""
from __future__ import annotations
import json, os, signal, sys, time, traceback, multiprocessing as mp
from . import core
from .core import (SymContext, ConcreteContext, Stats, PathInfeasible, PathEnd, Unsupported,
                   Divergence, SymxStop, CheckFailed, AssumptionFailed, MissingInput, Violation, reset_tokens, set_ctx)

from .concrete import Instance, run_concrete as _run_concrete

def dyadic(m, kinds):
    for v, k in zip(m, kinds):
        if k == 'time':
            d = getattr(v, 'denominator', 1)
            if d & (d - 1) or d > 1 << 20 or abs(v) > 1 << 24:
                return False
    return True


def run_concrete(inst, values, labels, choices):
    set_ctx(None)
    return _run_concrete(inst, values, labels, choices)


class PathResult:
    __slots__ = ("open", "cands", "note", "sample", "diverged")
    def __init__(self):
        self.open, self.cands, self.note, self.sample, self.diverged = [], [], None, None, False


def run_path(inst, prefix, stats, want_sample=False):
    res = PathResult()
    c = SymContext(prefix, stats)
    reset_tokens()
    set_ctx(c)
    stats.paths += 1
    status = "ok"
    signal.setitimer(signal.ITIMER_REAL, PATH_LIMIT_S)
    try:
        inst.fn(c, **inst.params)
        signal.setitimer(signal.ITIMER_REAL, 0)
    except PathTimeout:
        status = "timeout"
        res.note = "a path took too long"
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            c.candidates.append(Violation("does not finish", *c.concrete_model(), detail=""))
        except BaseException:
            pass
    except PathInfeasible:
        status = "infeasible"
    except PathEnd:
        status = "end"
    except Unsupported as e:
        status = "unsupported"
        res.note = f"unsupported: {e}"
    except Divergence as e:
        status = "diverged"
        res.note = f"divergence: {e}"
        res.diverged = True
    except Exception as e:
        status = "raise"
        tb = traceback.format_exc()[-1500:]
        try:
            vals = c.concrete_model()
            c.candidates.append(Violation(f"raised {type(e).__name__}", *vals, detail=tb))
        except BaseException as e2:
            res.note = f"no model for a raising path: {e2}"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        set_ctx(None)
    stats.depth_max = max(stats.depth_max, len(c.trail))
    res.open = c.open
    if c.notes and not res.note:
        res.note = "; ".join(c.notes[:3])
    if status == "infeasible":
        stats.infeasible += 1
        return res
    if status in ("ok", "end"):
        stats.completed += 1
    if status == "unsupported":
        stats.unsupported += 1
    if c.was_realised and not res.note:
        res.note = "a symbolic number was forced to one value by C code"
    # candidates: (what, values, labels, choices, detail)
    for v in c.candidates:
        res.cands.append((v.what, v.values, v.labels, v.choices, v.detail))
    # witness: run the real code on one exact model of this path
    do_w = inst.witness and (stats.paths % inst.witness == 0 or status != "ok" or c.was_realised)
    if (do_w or want_sample) and status in ("ok", "unsupported", "diverged"):
        try:
            m = c.model if dyadic(c.model, c.kinds) else c.exact_model()
        except BaseException:
            m = None
        if m is not None:
            vals = c.split(m)
            out = run_concrete(inst, *vals)
            if out[0] == "ok":
                stats.witness_ok += 1
            elif out[0] in ("fail", "raise"):
                stats.witness_bad += 1
                res.cands.append((out[1], *vals, "path witness: " + out[2]))
            else:
                stats.witness_bad += 1
            # the same numbers as integers, as far as they are whole
            ints = {k: int(v) if float(v).is_integer() else v for k, v in vals[0].items()}
            whole = [type(v) is int for v in ints.values()]
            if out[0] == "ok" and whole and (all(whole) or (want_sample and any(whole))):
                o = run_concrete(inst, ints, *vals[1:])
                if o[0] in ("fail", "raise"):
                    res.cands.append((o[1], ints, *vals[1:], "path witness with integer times: " + o[2]))
            if want_sample:
                res.sample = {"values": vals[0], "labels": vals[1], "choices": vals[2],
                              "decisions": len(c.trail), "assertions": c.n_checks, "concrete_rerun": out[0]}
        else:
            stats.witness_bad += 1
    return res


# ------------------------------------------------------------------ workers

_INST = None

def _work(args):
    idx, prefixes, max_paths, max_s = args
    inst = _INST[idx]
    st = Stats()
    t0 = time.time()
    stack = list(prefixes)
    cands, notes, samples = [], {}, []
    n = 0
    while stack and n < max_paths and time.time() - t0 < max_s:
        p = stack.pop()
        r = run_path(inst, p, st, want_sample=(n == 0))
        n += 1
        stack.extend(r.open)
        cands.extend(r.cands)
        if r.note:
            notes[r.note] = notes.get(r.note, 0) + 1
        if r.sample:
            samples.append(r.sample)
        if cands:
            break
    fns = sorted(_FUNCS - _SENT)
    _SENT.update(fns)
    return idx, st, stack, cands[:6], notes, samples[:1], time.time() - t0, fns


_FUNCS, _SENT = set(), set()

PATH_LIMIT_S = 60.0

class PathTimeout(SymxStop):
    pass

def _on_alarm(sig, frame):
    raise PathTimeout()

def _init():
    import gc, resource
    gc.freeze()
    signal.signal(signal.SIGALRM, _on_alarm)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    watch_functions()

def watch_functions():
    """record which functions of the repository are executed symbolically"""
    src = os.environ.get("SYMX_REPO", "/repo") + "/src/"
    mon = sys.monitoring
    tool = 4
    try:
        mon.use_tool_id(tool, "symx")
    except ValueError:
        return
    def start(code, off):
        if code.co_filename.startswith(src):
            _FUNCS.add(code.co_filename[len(src):] + ":" + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


class Outcome:
    def __init__(self):
        self.stats = {}
        self.cands = []
        self.exhausted = True
        self.unexplored = {}
        self.notes = {}
        self.samples = {}
        self.wall = {}
        self.errors = []
        self.functions = set()
        self.muted = set()


def explore(instances, deadline, procs=8, on_candidate=None, log=None):
    """explore every instance; on_candidate(inst, cand) -> 'stop' | 'skip'"""
    global _INST
    _INST = instances
    out = Outcome()
    for i, inst in enumerate(instances):
        out.stats[i] = Stats()
        out.wall[i] = 0.0
        out.samples[i] = []
    queue = [(i, [[]]) for i in range(len(instances))]
    stop = False
    confirmed = None
    muted = out.muted
    ctxm = mp.get_context("fork")
    with ctxm.Pool(procs, initializer=_init, maxtasksperchild=400) as pool:
        pending = []
        while (queue or pending) and not stop:
            while queue and len(pending) < procs * 2:
                # an instance with very many paths doesn't keep the others waiting
                at = min(range(len(queue) - 1, max(-1, len(queue) - 2000), -1), key=lambda k: out.stats[queue[k][0]].paths >> 7)
                idx, prefs = queue.pop(at)
                if idx in muted:
                    continue
                batch = prefs[:8]
                rest = prefs[8:]
                if rest:
                    queue.append((idx, rest))
                mx = 4 if out.stats[idx].paths < 16 else 40
                pending.append((idx, pool.apply_async(_work, ((idx, batch, mx, 5.0),))))
            done = [p for p in pending if p[1].ready()]
            if not done:
                if time.time() > deadline:
                    break
                time.sleep(0.003)
                continue
            for p in done:
                pending.remove(p)
                try:
                    idx, st, stack, cands, notes, samples, w, fns = p[1].get()
                except Exception as e:
                    out.errors.append(f"{instances[p[0]].name}: {type(e).__name__}: {e}")
                    continue
                out.stats[idx].add(st)
                out.functions.update(fns)
                out.wall[idx] += w
                for k, v in notes.items():
                    out.notes.setdefault(idx, {}).setdefault(k, 0)
                    out.notes[idx][k] += v
                if samples and len(out.samples[idx]) < 2:
                    out.samples[idx].extend(samples)
                if stack:
                    # spread the open prefixes
                    for j in range(0, len(stack), 4):
                        queue.append((idx, stack[j:j + 4]))
                for cnd in cands:
                    if on_candidate is None:
                        out.cands.append((idx, cnd))
                        continue
                    act = on_candidate(instances[idx], cnd)
                    if act == "stop":
                        out.cands.append((idx, cnd))
                        stop = True
                        break
                    if act == "mute":
                        muted.add(idx)
            if time.time() > deadline:
                break
        if not stop and (queue or pending):
            out.exhausted = False
            for idx, prefs in queue:
                out.unexplored[idx] = out.unexplored.get(idx, 0) + len(prefs)
            for idx, _ in pending:
                out.unexplored[idx] = out.unexplored.get(idx, 0) + 1
        pool.terminate()
    return out
