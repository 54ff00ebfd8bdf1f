"""C06: cleanup fills every gap with blank intervals and changes nothing else."""
from harness.worlds import *
from harness.c05 import separated, snapshot

BOUNDS = ("one parent with up to 4 children and arbitrary gaps, up to 3 levels; tiers of up to 4 intervals with arbitrary gaps; groups "
          "of up to 5 words / 8 phones with arbitrary gaps between words and up to 3 levels, groups of two tiers with independent "
          "times (2x2), single tiers of groups; textgrids of up to 3 groups with independent extents, with point groups; parents and tiers of "
          "up to 3 (thorough 4) intervals that overlap in any way; cleaning twice")
ASSUMES = ["any two boundaries are equal or differ by more than the closeness tolerance (3e-5 of the last time plus 1e-6)"]


def gap_specs(sx, name, n, lo=0, first=None, last_free=True):
    """n intervals in order, each gap zero or larger than the tolerance at the last time"""
    xs, ts = [], []
    for i in range(n):
        s = sx.real(f"{name}s{i}") if not (i == 0 and first is not None) else first
        e = sx.real(f"{name}e{i}")
        if i == 0 and lo is not None and first is None:
            sx.assume(s >= lo)
        if i:
            sx.assume(s >= xs[-1][1])
        sx.assume(s < e)
        xs.append((s, e, sx.label(f"{name}L{i}")))
        ts += [s, e]
    return xs, ts

def sep_all(sx, ts, end):
    for a, b in zip(ts, ts[1:]):
        sx.assume(disj(eq(a, b), b - a >= end * (1 / 32768) + 1 / 1048576))

def check_tight(sx, seq, what):
    xs = list(seq)
    for a, b in zip(xs, xs[1:]):
        sx.check(eq(a.end, b.start), f"{what}: no gap is left")

def check_filled(sx, seq, objs, raw, what):
    """the originals are there, untouched, and everything new is blank"""
    ids = {id(o) for o in objs}
    for o, r in zip(objs, raw):
        sx.check(len(ident_index(seq, o)) == 1, f"{what}: no interval is lost")
        sx.check(same_entry(o, r), f"{what}: the intervals are untouched")
    for x in seq:
        if id(x) not in ids:
            sx.check(x.label == "", f"{what}: added intervals are blank")
            sx.check(x.start < x.end, f"{what}: added intervals have a duration")
    check_sorted(sx, seq, f"{what}: time order")

def twice(sx, obj, tiers):
    snap = [[(x, x.start, getattr(x, "end", 0), x.label, getattr(x, "super_instance", None)) for x in t] for t in tiers()]
    quiet(obj.cleanup)
    for t, s in zip(tiers(), snap):
        same_objects(sx, t, [e[0] for e in s], "cleaning twice adds nothing")
        for x, (_, a, b, l, p) in zip(t, s):
            sx.check(conj(eq(x.start, a), eq(getattr(x, "end", 0), b), eq(x.label, l)), "cleaning twice changes nothing")
            sx.check(getattr(x, "super_instance", None) is p, "cleaning twice keeps the parents")

# ---------------------------------------------------------------- intervals

def h_interval(sx, n, internal, ingroup=False):
    W, P = custom_classes(["W", "P"])
    raw, ts = gap_specs(sx, "c", n)
    ws, we = sx.real("ws"), sx.real("we")
    sx.assume(ws >= 0)
    ts = [ws] + ts + [we]
    for a, b in zip(ts, ts[1:]):
        sx.assume(a <= b)
    sx.assume(ws < we)
    sep_all(sx, ts, we)
    w = W((ws, we, sx.label("wL")))
    kids = [P(r) for r in raw]
    w.set_subset_list(kids)
    if ingroup:
        pass
    quiet(w.cleanup, **({} if internal else {"internal": False}))
    sx.check(conj(eq(w.start, ws), eq(w.end, we)), "the interval itself is untouched")
    check_filled(sx, w.subset_list, kids, raw, "children")
    if n == 0:
        sx.check(len(w) == 1 and w[0].label == "", "an interval without children gets one blank child")
        check_snug(sx, w)
    elif internal:
        check_snug(sx, w)
    else:
        same_objects(sx, w.subset_list, kids, "internal gaps are left alone when asked to")
    for c in w.subset_list:
        sx.check(c.super_instance is w, "children point to the parent")
    check_chain(sx, w.subset_list)
    if internal:
        twice(sx, w, lambda: [w.subset_list])

def h_interval_deep(sx, levels):
    cl = custom_classes(["A", "B", "C", "D"][:levels])
    s, e = sx.real("s"), sx.real("e")
    sx.assume(s < e)
    a = cl[0]((s, e, sx.label("aL")))
    quiet(a.cleanup)
    x = a
    for c in cl[1:]:
        sx.check(len(x) == 1, "one child per level, down to the bottom")
        y = x[0]
        sx.check(type(y) is c and y.super_instance is x, "the child is of the next class")
        sx.check(conj(eq(y.start, s), eq(y.end, e)), "the child has its parent's extent")
        sx.check(y.label == "", "the child is blank")
        x = y
    sx.check(len(x) == 0, "the bottom has no children")

# ---------------------------------------------------------------- tiers

def h_tier(sx, n, lower):
    cl = custom_classes(["W", "P"])[1 if lower else 0]
    raw, ts = gap_specs(sx, "c", n)
    sep_all(sx, ts, ts[-1])
    xs = [cl(r) for r in raw]
    t = SequenceTier(xs)
    quiet(t.cleanup)
    check_filled(sx, t, xs, raw, "tier")
    check_tight(sx, t, "tier")
    sx.check(conj(eq(t.xmin, raw[0][0]), eq(t.xmax, raw[-1][1])), "the tier's extent is untouched")
    check_chain(sx, t)
    check_intier(sx, t)
    twice(sx, t, lambda: [t])

def any_specs(sx, name, n):
    """n intervals anywhere, possibly overlapping or containing one another"""
    raw = []
    for i in range(n):
        a, b = sx.real(f"{name}s{i}"), sx.real(f"{name}e{i}")
        sx.assume(conj(a >= 0, a < b, b <= 1000))
        raw.append((a, b, f"{name}{i}"))
    return raw

def far_all(sx, ts):
    for i, a in enumerate(ts):
        for b in ts[:i]:
            sx.assume(disj(eq(a, b), a - b >= 1 / 16, b - a >= 1 / 16))

def check_no_gap(sx, seq, start, end, what):
    """everything between start and end is covered by some interval"""
    for t in [start] + [x.end for x in seq]:
        sx.check(disj(t < start, t >= end, *[conj(x.start <= t, t < x.end) for x in seq]), f"{what}: no gap is left")

def check_apart(sx, seq, objs, what):
    """what was added overlaps nothing"""
    ids = {id(o) for o in objs}
    for x in seq:
        if id(x) not in ids:
            for y in seq:
                if y is not x:
                    sx.check(disj(x.end <= y.start, y.end <= x.start), f"{what}: added intervals overlap nothing")

def h_overlap_interval(sx, n):
    W, P = custom_classes(["W", "P"])
    ws, we = sx.real("ws"), sx.real("we")
    sx.assume(conj(ws >= 0, ws < we, we <= 1000))
    raw = any_specs(sx, "c", n)
    far_all(sx, [ws, we] + [t for r in raw for t in r[:2]])
    for a, b, _ in raw:
        sx.assume(conj(a < we, b > ws))
    w = W((ws, we, "w"))
    kids = [P(r) for r in raw]
    quiet(w.set_subset_list, kids)
    quiet(w.cleanup)
    sx.check(conj(eq(w.start, ws), eq(w.end, we)), "the interval itself is untouched")
    check_filled(sx, w.subset_list, kids, raw, "children")
    check_no_gap(sx, w.subset_list, ws, we, "children")
    check_apart(sx, w.subset_list, kids, "children")
    for c in w.subset_list:
        sx.check(c.super_instance is w, "children point to the parent")
    check_chain(sx, w.subset_list)
    twice(sx, w, lambda: [w.subset_list])

def h_overlap_tier(sx, n):
    W, P = custom_classes(["W", "P"])
    raw = any_specs(sx, "c", n)
    far_all(sx, [t for r in raw for t in r[:2]])
    xs = [W(r) for r in raw]
    t = quiet(SequenceTier, xs)
    lo, hi = t.xmin, t.xmax
    quiet(t.cleanup)
    check_filled(sx, t, xs, raw, "tier")
    check_no_gap(sx, t, lo, hi, "tier")
    check_apart(sx, t, xs, "tier")
    sx.check(conj(eq(t.xmin, lo), eq(t.xmax, hi)), "the tier's extent is untouched")
    check_chain(sx, t)
    check_intier(sx, t)
    twice(sx, t, lambda: [t])

# ---------------------------------------------------------------- groups

def check_clean_group(sx, g, top=True):
    tiers = list(g)
    for t in tiers:
        check_tight(sx, t, "group")
        check_sorted(sx, t)
        check_intier(sx, t)
        sx.check(conj(eq(t.xmin, tiers[0].xmin), eq(t.xmax, tiers[0].xmax)), "all tiers of a group have the same extent")
    check_strict(sx, g)
    for t in tiers[:-1]:
        for u in t:
            check_snug(sx, u)
    check_chain(sx, tiers[0])
    for t in tiers[:-1]:
        for u in t:
            check_chain(sx, u.subset_list, "children")

def h_group(sx, shape, how):
    """aligned groups with gaps between the words"""
    levels = aligned_specs(sx, "t", listify(shape), gaps=True)
    last = levels[0][-1][1]
    ts = [t for x in levels[-1] for t in x[:2]]
    sep_all(sx, ts, last)
    cls = classes(len(levels), "lower" if how == "lower" else "custom")
    objs = [[c(t) for t in lv] for c, lv in zip(cls, levels)]
    tg = quiet(TierGroup, [SequenceTier(o) for o in objs])
    root = tg
    if how == "atg":
        root = quiet(AlignedTextGrid, [tg])
        tg = root[0]
    quiet(root.cleanup)
    tg = root[0] if how == "atg" else tg
    for t, o, lv in zip(tg, objs, levels):
        check_filled(sx, t, o, lv, "group")
    check_clean_group(sx, tg)
    sx.check(conj(eq(tg.xmin, levels[0][0][0]), eq(tg.xmax, last)), "the group's extent is untouched")
    twice(sx, root, lambda: list(root[0]) if how == "atg" else list(tg))

def h_free_group(sx, n, m, how):
    """two tiers with independent times"""
    us, t1 = gap_specs(sx, "u", n)
    ls, t2 = gap_specs(sx, "l", m)
    separated(sx, t1 + t2, [us[-1][1], ls[-1][1]])
    W, P = custom_classes(["V", "W", "P"])[1:] if how == "lower" else custom_classes(["W", "P"])
    U, L = [W(t) for t in us], [P(t) for t in ls]
    tg = quiet(TierGroup, [SequenceTier(U), SequenceTier(L)])
    root = tg
    if how == "atg":
        root = quiet(AlignedTextGrid, [tg])
    quiet(root.cleanup)
    tg = root[0] if how == "atg" else tg
    check_clean_group(sx, tg)
    for t, o, raw in ((tg[0], U, us), (tg[1], L, ls)):
        ids = {id(x) for x in o}
        for x, r in zip(o, raw):
            sx.check(len(ident_index(t, x)) == 1, "no interval is lost")
            sx.check(conj(eq(x.label, r[2]), r[0] <= x.start, x.end <= r[1], x.start < x.end), "labels are kept, times at most trimmed")
        for x in t:
            if id(x) not in ids:
                sx.check(x.label == "", "added intervals are blank")
    twice(sx, root, lambda: list(root[0]) if how == "atg" else list(tg))

def check_tier_cleanup(sx, g, k):
    """clean up tier k of a group, whose times are settled"""
    before = [[(x, x.start, x.end, x.label) for x in t] for t in g]
    tiers = list(g)
    quiet(tiers[k].cleanup)
    sx.check(len(g) == len(tiers), "the group has its tiers")
    for i, (t, b) in enumerate(zip(g, before)):
        check_filled(sx, t, [x[0] for x in b], [x[1:] for x in b], "tier of a group")
        if i < k:
            sx.check(len(t) == len(b), "the tiers above are left alone")
        check_intier(sx, t)
    check_tight(sx, g[k], "tier of a group")
    sx.check(conj(eq(g[k].xmin, before[k][0][1]), eq(g[k].xmax, before[k][-1][2])), "the tier's extent is untouched")
    check_strict(sx, g, complete=False)
    for up, low in zip(g, list(g)[1:]):
        for x in low:
            inside = [u for u in up if conj(u.start <= x.start, x.end <= u.end)]
            sx.check(x.super_instance is (inside[0] if inside else None), "an interval is part of the one above that contains it")
        for u in up:
            if len(u):
                check_snug(sx, u)
    twice(sx, tiers[k], lambda: list(g))

def h_tier_in(sx, shape, k, how):
    """cleaning up one tier of a group, with gaps between the words"""
    levels = aligned_specs(sx, "t", listify(shape), gaps=True)
    sep_all(sx, [t for x in levels[-1] for t in x[:2]], levels[0][-1][1])
    n = len(levels)
    cls = classes(n, "lower") if how == "lower" else custom_classes(["W", "P", "Q", "R"][:n + (how == "upper")])[:n]
    check_tier_cleanup(sx, quiet(TierGroup, [SequenceTier([c(t) for t in lv]) for c, lv in zip(cls, levels)]), k)

def h_tier_in_free(sx, n, m, k, how):
    """the same with independent times"""
    us, t1 = gap_specs(sx, "u", n)
    ls, t2 = gap_specs(sx, "l", m)
    separated(sx, t1 + t2, [us[-1][1], ls[-1][1]])
    cls = custom_classes(["V", "W", "P"])[1:] if how == "lower" else custom_classes(["W", "P", "Q"][:2 + (how == "upper")])[:2]
    check_tier_cleanup(sx, quiet(TierGroup, [SequenceTier([c(t) for t in r]) for c, r in zip(cls, (us, ls))]), k)

def h_tier_in_low(sx, spans, k, how):
    """words given by which of the phones they span; some phones are in none"""
    n = max(b for _, b in spans) + 1
    ts = times(sx, "t", n)
    sep_all(sx, ts, ts[-1])
    ls = [(a, b, sx.label(f"l{i}")) for i, (a, b) in enumerate(zip(ts, ts[1:]))]
    us = [(ts[a], ts[b + 1], sx.label(f"u{i}")) for i, (a, b) in enumerate(spans)]
    cls = custom_classes(["W", "P", "Q"][:2 + (how == "upper")])[:2]
    check_tier_cleanup(sx, quiet(TierGroup, [SequenceTier([c(t) for t in r]) for c, r in zip(cls, (us, ls))]), k)

# ---------------------------------------------------------------- textgrids

def h_atg(sx, shapes, points, gaps):
    specs, objs = [], []
    groups, ends, ts = [], [], []
    for k, sh in enumerate(shapes):
        if sh == "points":
            A, = custom_classes(["Pt"], points=[0])
            raw = [(sx.real(f"p{k}_{i}"), sx.label(f"p{k}L{i}")) for i in range(2)]
            sx.assume(raw[0][0] < raw[1][0])
            sx.assume(raw[0][0] >= 0)
            pts = [A(r) for r in raw]
            groups.append(PointsGroup([SequencePointTier(pts)]))
            specs.append(("points", raw)); objs.append(pts)
            continue
        if isinstance(sh, str):         # "empty" and the number of tiers
            n = int(sh[5:])
            cls = custom_classes([f"W{k}", f"P{k}", f"Q{k}"][:n])
            groups.append(quiet(TierGroup, [SequenceTier([], entry_class=c) for c in cls]))
            specs.append(("empty", [[] for _ in cls])); objs.append([[] for _ in cls])
            continue
        levels = aligned_specs(sx, f"g{k}_", listify(sh), gaps=gaps)
        cls = custom_classes([f"W{k}", f"P{k}", f"Q{k}"][:len(levels)])
        o = [[c(t) for t in lv] for c, lv in zip(cls, levels)]
        groups.append(quiet(TierGroup, [SequenceTier(x) for x in o]))
        specs.append(("intervals", levels)); objs.append(o)
        ends.append(levels[0][-1][1])
        ts += [levels[0][0][0], levels[0][-1][1]]
        allts = [t for x in levels[-1] for t in x[:2]]
        for e in [levels[0][-1][1]]:
            sep_all(sx, allts, e)
    for i in range(len(ts)):
        for j in range(i):
            a, b = ts[j], ts[i]
            far = lambda x, y: conj(*[y - x >= e * (1 / 32768) + 1 / 1048576 for e in ends])
            sx.assume(disj(eq(a, b), far(a, b), far(b, a)))
    atg = quiet(AlignedTextGrid, groups)
    if points == "append":
        atg = quiet(AlignedTextGrid, groups[:1])
        for g in groups[1:]:
            quiet(atg.append, g)
    for g in atg:
        if isinstance(g, PointsGroup):
            for t in g:
                t.cleanup()
    atg.cleanup()
    lo = [s[1][0][0][0] for s in specs if s[0] == "intervals"]
    hi = [s[1][0][-1][1] for s in specs if s[0] == "intervals"]
    for g, s, o in zip(atg, specs, objs):
        if s[0] == "points":
            same_objects(sx, g[0], o, "point tiers are left alone")
            for x, r in zip(o, s[1]):
                sx.check(conj(eq(x.time, r[0]), eq(x.label, r[1])), "points are untouched")
            continue
        for t, ob, lv in zip(g, o, s[1]):
            check_filled(sx, t, ob, lv, "textgrid")
            if s[0] == "empty":
                sx.check(len(t) == (1 if lo else 0), "an empty group is one gap, if anything is known of its extent")
        if not lo:
            continue
        check_clean_group(sx, g)
        sx.check(conj(*[g.xmin <= x for x in lo]), "a group begins with the earliest")
        sx.check(disj(*[eq(g.xmin, x) for x in lo]), "a group begins no earlier than the earliest")
        sx.check(conj(*[g.xmax >= x for x in hi]), "a group ends with the latest")
        sx.check(disj(*[eq(g.xmax, x) for x in hi]), "a group ends no later than the latest")
    twice(sx, atg, lambda: [t for g in atg for t in g])

def h_twice_ops(sx, ops, shape, **kw):
    """after operations, a cleanup gives a clean textgrid"""
    w = run_ops(sx, ops, shape, (), **kw)
    if any(len(t) == 0 for g in w.groups for t in g):
        return
    for g in w.groups:
        last = g[0][-1].end
        for t in g:
            for e in (last, t[-1].end):
                sep_all(sx, [v for x in t for v in (x.start, x.end)], e)
        # tiers begin and end together or apart
        for a in g:
            for b in g:
                if a is not b:
                    separated(sx, [a[0].start, b[0].start], [last, b[-1].end])
                    separated(sx, [a[-1].end, b[-1].end], [last, b[-1].end])
    before = [[[(x, x.start, x.end, x.label) for x in t] for t in g] for g in w.groups]
    root = w.atg or w.groups[0]
    quiet(root.cleanup)
    gs = list(w.atg) if w.atg is not None else [w.groups[0]]
    for g, b in zip(gs, before):
        check_clean_group(sx, g)
        for t, s in zip(g, b):
            ids = {id(e[0]) for e in s}
            for x, a, z, l in s:
                sx.check(len(ident_index(t, x)) == 1, "no interval is lost")
                sx.check(eq(x.label, l), "labels are kept")
            for x in t:
                if id(x) not in ids:
                    sx.check(x.label == "", "added intervals are blank")

def instances(tier):
    th = tier == "thorough"
    out = []
    for n in (0, 1, 2, 3) + ((4,) if th else ()):
        out.append(Instance(f"interval-{n}", h_interval, dict(n=n, internal=True)))
        out.append(Instance(f"interval-{n}-outer-only", h_interval, dict(n=n, internal=False)))
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        out.append(Instance(f"overlap-interval-{n}", h_overlap_interval, dict(n=n)))
        if n > 1:
            out.append(Instance(f"overlap-tier-{n}", h_overlap_tier, dict(n=n)))
    for k in (2, 3, 4):
        out.append(Instance(f"interval-deep-{k}", h_interval_deep, dict(levels=k)))
    for n in (1, 2, 3) + ((4,) if th else ()):
        for lower in (False, True):
            out.append(Instance(f"tier-{n}-{'lower' if lower else 'top'}", h_tier, dict(n=n, lower=lower)))
    for nm, shape in (("single", (1, 1)), ("small", (2, 1)), ("three", (1, 2, 1)), ("deep", ((1,), (2, 1))), ("flat", (1, 1, 1))) + (
            (("five", (1, 2, 1, 2, 2)), ("deep3", ((1, 1), (2,), (1,)))) if th else ()):
        for how in ("group", "atg", "lower"):
            out.append(Instance(f"group-{nm}-{how}", h_group, dict(shape=shape, how=how)))
    for n, m in ((1, 1), (1, 2), (2, 1)) + (((2, 2),) if th else ()):
        for how in ("group", "atg", "lower"):
            out.append(Instance(f"free-{n}x{m}-{how}", h_free_group, dict(n=n, m=m, how=how)))
    for how in ("top", "lower", "upper"):
        for nm, shape in (("flat", (1, 1, 1)), ("small", (2, 1)), ("deep", ((1,), (2, 1)))):
            for k in range(2 if nm != "deep" else 3):
                out.append(Instance(f"tier-in-{nm}-{k}-{how}", h_tier_in, dict(shape=shape, k=k, how=how)))
        for n, m in ((1, 2), (2, 1)) + (((2, 2),) if th else ()):
            for k in (0, 1):
                out.append(Instance(f"tier-in-free-{n}x{m}-{k}-{how}", h_tier_in_free, dict(n=n, m=m, k=k, how=how)))
        if how != "lower":
            for nm, spans in (("one", ((0, 0), (2, 2))), ("two", ((0, 0), (3, 3))), ("more", ((0, 1), (3, 3), (5, 6)))):
                for k in (0, 1):
                    out.append(Instance(f"tier-in-low-{nm}-{k}-{how}", h_tier_in_low, dict(spans=spans, k=k, how=how)))
    for nm, shapes, gaps in (("two", ((1, 1), (1,)), False), ("two-gaps", ((1, 1), (1, 1)), True), ("deep", (((1,), (1,)), (2,)), False),
                             ("points", ((1,), "points", (1, 1)), False), ("points-first", ("points", (2,), (1,)), False),
                             ("three", ((1,), (1,), (1,)), False), ("empty-last", ((1, 1), "empty1"), False), ("empty-first", ("empty2", (2,)), True),
                             ("empty-between", ((1,), "empty3", "points", (1,)), False), ("empty-two", ("empty1", (1,), "empty2"), False),
                             ("empty-only", ("empty2",), False), ("empty-only-points", ("points", "empty1"), False)):
        for how in ("list", "append"):
            out.append(Instance(f"atg-{nm}-{how}", h_atg, dict(shapes=shapes, points=how, gaps=gaps)))
    good = ["none", "rerelate", "fuse_right_top", "fuse_left_top", "fuse_right_low", "fuse_left_low", "append_word", "append_word_far",
            "append_bare_word", "append_front", "shift", "concat", "add", "interleave", "atg_append", "append_phone_tier", "pop_low", "pop_top"]
    for op in good:
        out.append(Instance(f"ops-{op}", h_twice_ops, dict(ops=[op], shape=(2, 1), atg=True)))
        out.append(Instance(f"ops-{op}-many", h_twice_ops, dict(ops=[op], shape=MANY, atg=True)))
        out.append(Instance(f"ops-{op}-wide", h_twice_ops, dict(ops=[op], shape=WIDE, atg=True)))
    return out
