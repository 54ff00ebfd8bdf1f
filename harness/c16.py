"""C16: distances between points."""
from harness.worlds import *

BOUNDS = ("point tiers of up to 5 points in any order, ties included, made in one go, appended, added or concatenated; groups and textgrids with up to 2 point "
          "tiers, shifted, re-read, moved or concatenated; intervals of up to 3 levels; between any two points, and any point and interval, of a textgrid")
ASSUMES = ["no two points of one tier agree in time and label"]


def check_distances(sx, t):
    xs = list(t)
    for i, x in enumerate(xs):
        f, p = quiet(lambda: x.fol_distance), quiet(lambda: x.prev_distance)
        if i + 1 < len(xs):
            sx.check(f is not None and eq(f, xs[i + 1].time - x.time), "the distance to the following point")
            sx.check(f >= 0, "the following point is not before")
            back = quiet(lambda: xs[i + 1].prev_distance)
            sx.check(eq(f + back, 0), "the distance forth is the distance back")
        else:
            sx.check(f is None, "the last point has no following distance")
        if i > 0:
            sx.check(p is not None and eq(p, xs[i - 1].time - x.time), "the distance to the previous point")
            sx.check(p <= 0, "the previous point is not after")
        else:
            sx.check(p is None, "the first point has no previous distance")

def check_froms(sx, tiers, ivs=()):
    """distance_from any entry, on the same tier or another"""
    pts = [x for t in tiers for x in t]
    for x in pts:
        for y in pts:
            d = x.distance_from(y)
            sx.check(eq(d.item() if hasattr(d, "item") else d, x.time - y.time), "the distance from any point of any tier")
        for y in ivs:
            d = x.distance_from(y)
            sx.check(len(d) == 2 and conj(eq(d[0], x.time - y.start), eq(d[1], x.time - y.end)), "the distances from any interval")

def pts(sx, n, nm="p", cls=SequencePoint, tie=True):
    xs = [cls((sx.real(f"{nm}{i}"), sx.label(f"{nm}L{i}"))) for i in range(n)]
    for i in range(n):
        for j in range(i):
            a, b = xs[i], xs[j]
            sx.assume(disj(a.time < b.time, b.time < a.time, *([~eq(a.label, b.label) if sx.symbolic else a.label != b.label] if tie else [])))
    return xs

def h_tier(sx, n, how):
    xs = pts(sx, n)
    if how == "ctor":
        t = SequencePointTier(xs)
    elif how == "append":
        t = SequencePointTier(xs[:1])
        for x in xs[1:]:
            quiet(t.append, x)
            check_distances(sx, t)
    elif how == "add":
        t = quiet(lambda: SequencePointTier(xs[:1]) + SequencePointTier(xs[1:]))
    elif how == "concat":
        t = SequencePointTier(xs[:1])
        for x in xs:
            sx.assume(x.time > 0)
        quiet(t.concat, SequencePointTier(xs[1:]))
    elif how == "praatio":
        t = SequencePointTier(PointTier("x", [(x.time, x.label) for x in xs]))
    elif how == "copy":
        t = SequencePointTier(SequencePointTier(xs))
    sx.check(len(t) == n, "all points are there")
    check_distances(sx, t)
    check_froms(sx, [t])

def h_moved(sx, n):
    """points moved anywhere, past one another too"""
    t = SequencePointTier(pts(sx, n, tie=False))
    if sx.choose("how", 2):
        t.times = [sx.real(f"to{i}") for i in range(n)]
    else:
        for i, x in enumerate(t):
            x.time = sx.real(f"to{i}")
    xs = list(t)
    for i, x in enumerate(xs):
        f, p = quiet(lambda: x.fol_distance), quiet(lambda: x.prev_distance)
        sx.check(f is None if i + 1 == len(xs) else f is not None and eq(f, xs[i + 1].time - x.time), "the distance to the following point")
        sx.check(p is None if i == 0 else p is not None and eq(p, xs[i - 1].time - x.time), "the distance to the previous point")

def h_zero(sx, k):
    """points at time 0 and below"""
    P = SequencePoint
    a, b = sx.real("a"), sx.real("b")
    sx.assume(a < 0); sx.assume(b > 0)
    t = SequencePointTier([P((a, "x")), P((0, "y")), P((b, "z"))][k:k + 2] if k < 2 else [P((a, "x")), P((0, "y")), P((b, "z"))])
    check_distances(sx, t)

def h_from(sx, what):
    """distance from a point or an interval"""
    p = SequencePoint((sx.real("p"), sx.label("pL")))
    if what == "point":
        q = SequencePoint((sx.real("q"), sx.label("qL")))
        d, e = p.distance_from(q), q.distance_from(p)
        d, e = (d.item() if hasattr(d, "item") else d), (e.item() if hasattr(e, "item") else e)
        sx.check(eq(d, p.time - q.time), "the distance from a point")
        sx.check(eq(d + e, 0), "the distance forth is the distance back")
        z = p.distance_from(p)
        sx.check(eq(z.item() if hasattr(z, "item") else z, 0), "a point is at no distance from itself")
        return
    if what == "interval":
        x = SequenceInterval((sx.real("s"), sx.real("e"), sx.label("xL")))
        xs = [x]
    else:
        g = aligned_group(sx, "g", listify(what))
        xs = [x for t in g for x in t]
    for x in xs:
        d = p.distance_from(x)
        sx.check(len(d) == 2, "two distances from an interval")
        sx.check(conj(eq(d[0], p.time - x.start), eq(d[1], p.time - x.end)), "the distances from its start and its end")
        sx.check(eq(d[0] - d[1], x.end - x.start), "they differ by the duration")

def h_group(sx, ns, how):
    cls = custom_classes(["PA", "PB"][:len(ns)], points=list(range(len(ns))))
    mk = lambda nm: PointsGroup([SequencePointTier(pts(sx, n, f"{nm}{k}", c, tie=False)) for k, (n, c) in enumerate(zip(ns, cls))])
    g = mk("a")
    if how == "shift":
        quiet(g.shift, sx.real("by"))
    elif how == "atg":
        g, = quiet(AlignedTextGrid, [g])
    elif how == "atg-shift":
        atg = quiet(AlignedTextGrid, [g])
        quiet(atg.shift, sx.real("by"))
        quiet(atg.cleanup)
        g, = atg
    elif how == "concat":
        h = mk("b")
        for t in list(g) + list(h):
            for x in t:
                sx.assume(x.time > 0)
        quiet(g.concat, h)
        sx.check([len(t) for t in g] == [2 * n for n in ns], "all points are there")
    elif how == "read":
        for t in g:
            for x in t:
                sx.assume(x.time >= 0)
        g, = quiet(lambda: AlignedTextGrid(AlignedTextGrid([g]).return_textgrid(), [list(cls)]))
    elif how == "times":
        by = sx.real("by")
        for t in g:
            t.times = t.times + by
    for t in g:
        check_distances(sx, t)
    check_froms(sx, g)

def h_textgrid(sx, shape, first):
    """points and intervals of one textgrid"""
    g = aligned_group(sx, "g", listify(shape))
    pg = PointsGroup([SequencePointTier(pts(sx, 2, f"a{k}", c, tie=False)) for k, c in enumerate(custom_classes(["PA", "PB"], points=[0, 1]))])
    atg = quiet(AlignedTextGrid, [pg, g] if first else [g, pg])
    ps, gs = (atg[0], atg[1]) if first else (atg[1], atg[0])
    ivs = [x for t in gs for x in t]
    check_froms(sx, ps, ivs)
    for t in ps:
        check_distances(sx, t)
    quiet(atg.shift, sx.real("by"))
    check_froms(sx, ps, ivs)

def h_lone(sx):
    """a point on no tier has no neighbours"""
    p = SequencePoint((sx.real("p"), sx.label("L")))
    sx.check(quiet(lambda: p.fol_distance) is None and quiet(lambda: p.prev_distance) is None, "a point on no tier has no neighbours")

def instances(tier):
    th = tier == "thorough"
    out = []
    add = lambda nm, fn, **kw: out.append(Instance(nm, fn, kw))
    for how in ("ctor", "append", "add", "concat", "praatio", "copy"):
        for n in range(2, 6 if th else 5):
            add(f"tier-{how}-{n}", h_tier, n=n, how=how)
    add("tier-ctor-1", h_tier, n=1, how="ctor")
    for n in (1, 2, 3):
        add(f"moved-{n}", h_moved, n=n)
    for k in range(3):
        add(f"zero-{k}", h_zero, k=k)
    for what in ("point", "interval", (2, 1), ((1, 2), (1,))):
        add(f"from-{what}", h_from, what=what)
    for how in ("plain", "shift", "atg", "atg-shift", "concat", "read", "times"):
        for ns in ((1,), (3,), (2, 2)) + (((4,), (3, 2)) if th else ()):
            add(f"group-{how}-{'x'.join(map(str, ns))}", h_group, ns=ns, how=how)
    add("lone", h_lone)
    for first in (False, True):
        for shape in ((1,), (2, 1)):
            add(f"textgrid-{'x'.join(map(str, shape))}-{'points' if first else 'intervals'}-first", h_textgrid, shape=shape, first=first)
    return out
