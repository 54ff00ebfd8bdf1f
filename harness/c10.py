"""C10: looking up a time finds exactly the entries there."""
from harness.worlds import *

BOUNDS = ("tiers of up to 8 intervals with arbitrary gaps, point tiers of up to 6 points, groups of up to 3 tiers (10 phones), textgrids of up to "
          "3 groups with point groups; any query time including every boundary; after every structural operation")
ASSUMES = ["intervals on one tier do not overlap and have a positive duration"]


def check_hit(sx, tier, t, i):
    xs = list(tier)
    if i is None:
        for x in xs:
            sx.check(disj(t < x.start, t >= x.end), "nothing is reported only when no interval is at the time")
    else:
        sx.check(type(i) is int and 0 <= i < len(xs), "an index is a plain valid index")
        sx.check(conj(xs[i].start <= t, t < xs[i].end), "the interval reported contains the time (start inclusive, end exclusive)")
        sx.check(tier[i] is xs[i], "the index retrieves the interval")

def check_near(sx, tier, t, i):
    xs = list(tier)
    sx.check(0 <= int(i) < len(xs), "a nearest index is valid")
    x = xs[int(i)]
    for y in xs:
        # |x-t| <= |y-t|  without fork: both signs
        d, e = x.time - t, y.time - t
        sx.check(conj(disj(d <= e, d <= -e), disj(-d <= e, -d <= -e)), "no other point is nearer")

def h_tier(sx, n, lower):
    W, P = custom_classes(["W", "P"])
    raw = disjoint(sx, "a", n, lo=None)
    t = SequenceTier([(P if lower else W)(r) for r in raw]) if n else SequenceTier([], entry_class=W)
    q = sx.real("q")
    i = t.get_interval_at_time(q)
    check_hit(sx, t, q, i)
    if n == 0:
        sx.check(i is None, "nothing is found on an empty tier")

def h_tier_boundary(sx, n, shift):
    W, P = custom_classes(["W", "P"])
    raw = disjoint(sx, "a", n, lo=None)
    t = SequenceTier([W(r) for r in raw])
    if shift:
        g = quiet(TierGroup, [t])
        g.shift(sx.real("by"))
    for i, x in enumerate(t):
        sx.check(t.get_interval_at_time(x.start) == i, "an interval is found at its own start")
        j = t.get_interval_at_time(x.end)
        check_hit(sx, t, x.end, j)
        sx.check(j != i, "an interval is not found at its own end")
        mid = x.start + (x.end - x.start) / 2
        sx.check(t.get_interval_at_time(mid) == i, "an interval is found at its middle")

def h_points(sx, n, group):
    P, = custom_classes(["Pt"], points=[0])
    ts = times(sx, "p", n - 1, lo=None)
    t = SequencePointTier([P((x, sx.label(f"L{i}"))) for i, x in enumerate(ts)])
    q = sx.real("q")
    if group:
        g = PointsGroup([t])
        r = g.get_intervals_at_time(q)
        sx.check(len(r) == 1, "one index per tier")
        check_near(sx, t, q, r[0])
        check_near(sx, t, q, g.get_nearest_points_index(q)[0])
        sx.check(g[[int(r[0])]][0] is t[int(r[0])], "indices retrieve the points")
    else:
        i = t.get_nearest_point_index(q)
        check_near(sx, t, q, i)
        x = t.get_nearest_point(q)
        sx.check(len(ident_index(t, x)) == 1, "the nearest point is on the tier")
        check_near(sx, t, q, ident_index(t, x)[0])
    for i, x in enumerate(t):
        sx.check(t.get_nearest_point(x.time) is x, "a point is nearest to its own time")

def h_moved(sx, n, how):
    """points whose times were changed since, in any order"""
    P, = custom_classes(["Pt"], points=[0])
    t = SequencePointTier([P((float(i), sx.label(f"L{i}"))) for i in range(n)])
    xs = list(t)
    ts = [sx.real(f"t{i}") for i in range(n)]
    if how == "times":
        t.times = list(ts)
    else:
        for x, v in zip(xs, ts):
            x.time = v
    q = sx.real("q")
    same_objects(sx, t, xs, "the points are those that were there")
    for x, v in zip(t, ts):
        sx.check(eq(x.time, v), "points have the times given")
    check_near(sx, t, q, t.get_nearest_point_index(q))
    x = t.get_nearest_point(q)
    check_near(sx, t, q, ident_index(t, x)[0])

def h_moved_intervals(sx, n):
    """intervals whose times were changed since: not in time order, but disjoint"""
    W, P = custom_classes(["W", "P"])
    t = SequenceTier([W((float(i), i + .5, sx.label(f"L{i}"))) for i in range(n)])
    raw = disjoint(sx, "a", n, lo=None)
    k = sx.choose("rot", n)
    xs = list(t)
    for x, r in zip(xs, raw[k:] + raw[:k]):
        x.start, x.end = r[0], r[1]
    q = sx.real("q")
    same_objects(sx, t, xs, "the intervals are those that were there")
    check_hit(sx, t, q, t.get_interval_at_time(q))

def h_ties(sx, n):
    """points that may be at the same time"""
    P, = custom_classes(["Pt"], points=[0])
    ts = times(sx, "p", n - 1, lo=None, strict=False)
    t = SequencePointTier([P((x, f"l{i}")) for i, x in enumerate(ts)])
    q = sx.real("q")
    check_near(sx, t, q, t.get_nearest_point_index(q))
    check_near(sx, t, q, PointsGroup([t]).get_nearest_points_index(q)[0])

def h_empty(sx, n):
    """an empty point tier has no nearest point; the others of its group are found all the same"""
    P, Q = custom_classes(["Pt", "Qt"], points=[0, 1])
    ts = times(sx, "p", n - 1, lo=None) if n else []
    a = SequencePointTier([P((x, sx.label(f"L{i}"))) for i, x in enumerate(ts)], entry_class=P)
    b = SequencePointTier([], entry_class=Q)
    q = sx.real("q")
    sx.check(b.get_nearest_point_index(q) is None and b.get_nearest_point(q) is None, "there is no point on an empty tier")
    g = PointsGroup([a, b] if sx.choose("order", 2) else [b, a])
    r = g.get_intervals_at_time(q)
    sx.check(len(r) == 2, "one index per tier")
    for t, i in zip(g, r):
        if len(t):
            check_near(sx, t, q, i)
        else:
            sx.check(i is None, "there is no point on an empty tier")
    t = SequenceTier([], entry_class=Word)
    sx.check(t.get_interval_at_time(q) is None, "there is no interval on an empty tier")

def h_point_interval(sx, n, grouped):
    """the interval at a point"""
    W, P = custom_classes(["W", "P"])
    Pt, = custom_classes(["Pt"], points=[0])
    raw = disjoint(sx, "a", n, lo=None)
    t = SequenceTier([W(r) for r in raw])
    p = Pt((sx.real("q"), sx.label("pL")))
    if grouped:
        pt = SequencePointTier([p])
        atg = quiet(AlignedTextGrid, [quiet(TierGroup, [t]), PointsGroup([pt])])
        t = atg[0][0]
        p = atg[1][0][0]
    i = p.get_interval_index_at_time(t)
    check_hit(sx, t, p.time, i)
    x = p.get_interval_at_point(t)
    if i is None:
        sx.check(x is None, "no interval at the point")
    else:
        sx.check(x is t[i], "the interval at the point")
    sx.check(p.get_interval_at_point() is None, "no tier, no interval")

def check_world(sx, w, q):
    for g in w.groups:
        r = g.get_intervals_at_time(q)
        sx.check(len(r) == len(g), "one index per tier")
        for t, i in zip(g, r):
            check_hit(sx, t, q, i)
        if all(i is not None for i in r):
            xs = g[list(r)]
            sx.check(len(xs) == len(g) and all(x is t[i] for x, t, i in zip(xs, g, r)), "a list of indices picks one entry per tier")
    if w.atg is not None:
        rr = w.atg.get_intervals_at_time(q)
        sx.check(len(rr) == len(w.atg), "one list per group")
        for g, r in zip(w.atg, rr):
            sx.check(len(r) == len(g), "one index per tier")
            for t, i in zip(g, r):
                if isinstance(t, SequenceTier):
                    check_hit(sx, t, q, i)
                else:
                    check_near(sx, t, q, i)
        if all(i is not None for r in rr for i in r):
            rr = [[int(i) for i in r] for r in rr]
            xs = w.atg[rr]
            sx.check(len(xs) == len(rr), "a nested list of indices picks per group")
            for a, r, g in zip(xs, rr, w.atg):
                sx.check(len(a) == len(r) and all(x is t[i] for x, t, i in zip(a, g, r)), "nested indices pick the entries")
        if len(w.atg):
            tr = list(range(len(w.atg)))
            ts = w.atg[[0] * len(w.atg)]
            sx.check(len(ts) == len(w.atg) and all(x is g[0] for x, g in zip(ts, w.atg)), "a list of tier indices picks one tier per group")

def h_world(sx, ops, shape, **kw):
    w = run_ops(sx, ops, shape, (), **kw)
    if any(len(t) == 0 for g in w.groups for t in g):
        return
    for t in all_tiers(w):
        xs = list(t)
        for a, b in zip(xs, xs[1:]):
            sx.assume(a.end <= b.start)
    check_world(sx, w, sx.real("q"))

def h_hier(sx, shape):
    """at any time covered by an aligned group, the entry found on a lower tier belongs to the one found above"""
    w = world(sx, shape, atg=True)
    g = w.groups[0]
    q = sx.real("q")
    r = g.get_intervals_at_time(q)
    for k in range(len(g) - 1):
        if r[k] is None:
            sx.check(r[k + 1] is None, "outside the group nothing is found on any tier")
        else:
            sx.check(r[k + 1] is not None and g[k + 1][r[k + 1]].super_instance is g[k][r[k]], "the entries found are in one another")

def h_mixed(sx, groups):
    gs = []
    for k, s in enumerate(groups):
        if isinstance(s, int):
            P, = custom_classes([f"Pt{k}"], points=[0])
            ts = times(sx, f"p{k}_", s - 1, lo=None)
            gs.append(PointsGroup([SequencePointTier([P((x, sx.label(f"p{k}L{i}"))) for i, x in enumerate(ts)])]))
        else:
            lv = aligned_specs(sx, f"g{k}_", listify(s))
            cls = custom_classes([f"W{k}", f"P{k}", f"Q{k}"][:len(lv)])
            gs.append(quiet(TierGroup, [SequenceTier([c(t) for t in l], **({} if l else {"entry_class": c})) for c, l in zip(cls, lv)]))
    w = World()
    w.atg = quiet(AlignedTextGrid, gs)
    check_world(sx, w, sx.real("q"))

def h_bad_index(sx, what):
    w = world(sx, (2, 1), atg=True)
    if what == "group": f = lambda: w.groups[0][[0]]
    if what == "group-long": f = lambda: w.groups[0][[0, 0, 0]]
    if what == "atg": f = lambda: w.atg[[0, 0]]
    if what == "atg-empty": f = lambda: w.atg[[]]
    if what == "tier": f = lambda: w.groups[0][0][len(w.groups[0][0])]
    raised = False
    try:
        f()
    except Exception:
        raised = True
    sx.check(raised, "an index list of the wrong length is refused")

def instances(tier):
    th = tier == "thorough"
    out = []
    add = lambda name, fn, **kw: out.append(Instance(name, fn, kw))
    for n in (0, 1, 2, 3, 5) + ((8,) if th else ()):
        for lower in (False, True):
            add(f"tier-{n}-{'low' if lower else 'top'}", h_tier, n=n, lower=lower)
    for n in (1, 2, 3) + ((5,) if th else ()):
        for shift in (False, True):
            add(f"boundaries-{n}{'-shifted' if shift else ''}", h_tier_boundary, n=n, shift=shift)
    for n in (1, 2, 3) + ((4, 6) if th else ()):
        for group in (False, True):
            add(f"points-{n}{'-group' if group else ''}", h_points, n=n, group=group)
        for grouped in (False, True):
            add(f"point-interval-{n}{'-atg' if grouped else ''}", h_point_interval, n=n, grouped=grouped)
    for nm, shape in (("small", (2, 1)), ("wide", (1, 2, 1, 2)), ("deep", ((2, 1), (1,)))) + ((("wider", WIDE), ("deeper", DEEP)) if th else ()):
        add(f"hierarchy-{nm}", h_hier, shape=shape)
    for nm, gs in (("two", ((1, 1), (1,))), ("points", ((1,), 2, (1,))), ("points-first", (2, (2,))),
                   ("empty", ((1, 1), "empty2")), ("empty-first", ("empty1", (1,), 2))):
        add(f"mixed-{nm}", h_mixed, groups=gs)
    for n in (2, 3) + ((4, 5) if th else ()):
        for how in ("times", "time"):
            add(f"moved-points-{n}-{how}", h_moved, n=n, how=how)
        add(f"moved-intervals-{n}", h_moved_intervals, n=n)
        add(f"ties-{n}", h_ties, n=n)
    add("hierarchy-many", h_hier, shape=MANY)
    add("points-many", h_points, n=12, group=False)
    add("tier-many", h_tier, n=14, lower=False)
    for n in (0, 1, 3):
        add(f"empty-{n}", h_empty, n=n)
    for what in ("group", "group-long", "atg", "atg-empty", "tier"):
        add(f"bad-index-{what}", h_bad_index, what=what)
    for op in OPS:
        if op == "replace_alike": continue
        add(f"op-{op}", h_world, ops=[op], shape=(2, 1), atg=True)
        if th:
            add(f"op-{op}-deep", h_world, ops=[op], shape=((2, 1), (1,)), atg=True)
            add(f"op-{op}-gaps", h_world, ops=[op], shape=(1, 2), atg=True, gaps=True)
    return out
