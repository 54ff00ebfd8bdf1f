"""Shared builders and invariants, written once for symbolic and concrete runs.

Nothing here branches on a symbolic value except through sx.check / sx.assume, so the
harness adds no paths of its own."""
import contextlib, io
import warnings
from functools import reduce

import numpy as np
from aligned_textgrid import (SequenceInterval, SequencePoint, SequenceList, SequenceTier,
                              SequencePointTier, TierGroup, PointsGroup, AlignedTextGrid,
                              Top, Bottom, Word, Phone, custom_classes)

RTOL, ATOL = 1e-05, 1e-08       # numpy's closeness tolerance, used throughout the library


# ------------------------------------------------------------------ formulas

def conj(*cs):
    out = True
    for c in cs:
        out = c if out is True else (out & c)
    return out

def disj(*cs):
    out = False
    for c in cs:
        out = c if out is False else (out | c)
    return out

def eq(a, b):
    """symbolic-or-concrete equality of times or labels, no fork"""
    if a is b:
        return True
    if a is None or b is None:
        return False
    if hasattr(a, "sym_eq"):
        return a.sym_eq(b)
    if hasattr(b, "sym_eq"):
        return b.sym_eq(a)
    r = (a == b)
    return r if not isinstance(r, np.bool_) else bool(r)

def same_entry(x, triple):
    s, e, l = triple
    return conj(eq(x.start, s), eq(x.end, e), eq(x.label, l))

def close(a, b, rtol=RTOL, atol=ATOL):
    """|a-b| <= atol + rtol*|b| without fork"""
    d = a - b
    return conj(disj(d <= b * rtol + atol, d <= b * (-rtol) + atol),
                disj(-d <= b * rtol + atol, -d <= b * (-rtol) + atol))


# ------------------------------------------------------------------ symbolic inputs

def times(sx, name, n, lo=0, first=None, last=None, strict=True, gap=None):
    """t0 < t1 < ... < tn"""
    ts = []
    for i in range(n + 1):
        if i == 0 and first is not None:
            t = first
        elif i == n and last is not None:
            t = last
        else:
            t = sx.real(f"{name}{i}")
        if i == 0 and lo is not None:
            sx.assume(t >= lo)
        if i > 0:
            if gap is not None:
                sx.assume(t >= ts[-1] + gap)
            elif strict:
                sx.assume(ts[-1] < t)
            else:
                sx.assume(ts[-1] <= t)
        ts.append(t)
    return ts

def contiguous(sx, name, n, **kw):
    """n gap-free intervals as (start, end, label) triples"""
    ts = times(sx, name, n, **kw)
    return [(ts[i], ts[i + 1], sx.label(f"{name}L{i}")) for i in range(n)]

def disjoint(sx, name, n, lo=0, gap=None):
    """n disjoint, ordered intervals, with gaps allowed"""
    out, prev = [], None
    for i in range(n):
        s, e = sx.real(f"{name}s{i}"), sx.real(f"{name}e{i}")
        if prev is None:
            if lo is not None:
                sx.assume(s >= lo)
        else:
            sx.assume(s >= prev)
        sx.assume(s < e) if gap is None else sx.assume(s + gap <= e)
        prev = e
        out.append((s, e, sx.label(f"{name}L{i}")))
    return out

def quiet(f, *a, **k):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        return f(*a, **k)


# ------------------------------------------------------------------ invariants

def ident_index(seq, x):
    return [i for i, y in enumerate(seq) if y is x]

def same_objects(sx, got, want, what):
    got, want = list(got), list(want)
    sx.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), what,
             detail=f"got {[getattr(x,'label',x) for x in got]} want {[getattr(x,'label',x) for x in want]}")

def same_set(sx, got, want, what):
    got, want = list(got), list(want)
    ok = len(got) == len(want) and all(len(ident_index(got, x)) == 1 for x in want)
    sx.check(ok, what, detail=f"got {len(got)} objects, want {len(want)}")

def is_boundary(x, cls=None):
    return x is not None and str.__eq__(x.label, "#") is True and \
        (getattr(x, "start", None) is None)

def check_sorted(sx, seq, what="entries are in time order"):
    xs = list(seq)
    for a, b in zip(xs, xs[1:]):
        sx.check(a.start <= b.start, what)

def check_chain(sx, seq, what="precedence"):
    """fol/prev along `seq` are exactly its neighbours, boundaries at both ends"""
    xs = list(seq)
    for i, x in enumerate(xs):
        if i == 0:
            sx.check(is_boundary(x.prev), f"{what}: first has no previous")
        else:
            sx.check(x.prev is xs[i - 1], f"{what}: prev is the preceding entry")
        if i == len(xs) - 1:
            sx.check(is_boundary(x.fol), f"{what}: last has no following")
        else:
            sx.check(x.fol is xs[i + 1], f"{what}: fol is the following entry")

def check_group_chain(sx, group):
    for k, tier in enumerate(group):
        if k == 0:
            check_chain(sx, tier, "top tier precedence")
        for x in tier:
            check_chain(sx, x.subset_list, "subset precedence")

def check_intier(sx, tier):
    for i, x in enumerate(tier):
        sx.check(x.intier is tier, "intier is the tier")
        sx.check(x.tier_index == i, "tier_index is the position")

def check_strict(sx, group, complete=True):
    """super_instance / subset_list are inverse to one another between adjacent tiers"""
    for up, low in zip(list(group), list(group)[1:]):
        ups, lows = list(up), list(low)
        for x in lows:
            owners = [u for u in ups if ident_index(u.subset_list, x)]
            sx.check(len(owners) <= 1, "at most one superset holds an interval")
            if complete:
                sx.check(len(owners) == 1, "every lower interval has a superset instance")
            if owners:
                sx.check(x.super_instance is owners[0], "super_instance is the holder")
                sx.check(len(ident_index(owners[0].subset_list, x)) == 1, "held once")
            else:
                sx.check(x.super_instance is None, "unheld interval has no super_instance")
        for u in ups:
            for c in u.subset_list:
                sx.check(c.super_instance is u, "subset member points back")
                sx.check(len(ident_index(lows, c)) == 1, "subset member is on the lower tier")
            if complete:
                sx.check(len(u) > 0, "every upper interval has a subset member")

def check_within(sx, root):
    """within/contains agree, and within_path leads from the root to the object"""
    def walk(obj, path):
        for i, c in enumerate(obj.contains):
            sx.check(c.within is obj, "within is the container")
            sx.check(c.within_index == i, "within_index is the position")
            p = path + [i]
            sx.check(list(c.within_path) == p, "within_path leads to the object")
            sx.check(c.id == "-".join(map(str, p)), "id spells the path")
            walk(c, p)
    walk(root, [])

def check_no_overlap(sx, tier, what="intervals on a tier do not overlap"):
    xs = list(tier)
    for a, b in zip(xs, xs[1:]):
        sx.check(a.end <= b.start, what)

def check_positive(sx, tier, what="start precedes end"):
    for x in tier:
        sx.check(x.start < x.end, what)


# ------------------------------------------------------------------ snapshots

def _real(x):
    """a neighbour, or None for a boundary"""
    return None if (x is None or is_boundary(x)) else x

class Snap:
    """everything observable about a set of entries and the tiers they are on"""
    def __init__(self, tiers=(), floats=()):
        self.tiers = [(t, list(t)) for t in tiers]
        self.objs = {}
        def visit(x):
            if x is None or is_boundary(x) or id(x) in self.objs:
                return
            self.objs[id(x)] = (x, x.start, getattr(x, "end", None), x.label, getattr(x, "super_instance", None),
                                list(getattr(x, "subset_list", [])), _real(x.fol), _real(x.prev), x.intier)
            for c in getattr(x, "subset_list", []):
                visit(c)
            visit(getattr(x, "super_instance", None))
        for t, xs in self.tiers:
            for x in xs:
                visit(x)
        for x in floats:
            visit(x)

    def check(self, sx, what, times=(), links=(), tiers=(), skip=()):
        """nothing changed, except: times/label of `times`, fol/prev/children of `links`, the entries of `tiers`,
        and anything of `skip`"""
        has = lambda s, x: any(x is y for y in s)
        for t, xs in self.tiers:
            if not has(tiers, t):
                same_objects(sx, t, xs, f"{what}: tiers keep their entries")
        for x, s, e, l, sup, sub, fol, prev, intier in self.objs.values():
            if has(skip, x):
                continue
            if not has(times, x):
                sx.check(conj(eq(x.start, s), eq(getattr(x, "end", None), e)), f"{what}: times are kept")
                sx.check(eq(x.label, l), f"{what}: labels are kept")
            sx.check(getattr(x, "super_instance", None) is sup, f"{what}: parents are kept")
            sx.check(x.intier is intier, f"{what}: tier membership is kept")
            if not has(links, x):
                now = list(getattr(x, "subset_list", []))
                sx.check(len(now) == len(sub) and all(a is b for a, b in zip(now, sub)), f"{what}: children are kept")
                sx.check(_real(x.fol) is fol and _real(x.prev) is prev, f"{what}: neighbours are kept")
