"""C17: PoLaR annotations."""
from harness.worlds import *
from aligned_textgrid.polar.polar_classes import PrStr, ToBI, TurningPoints, Ranges, Levels, Misc
from aligned_textgrid.polar.polar_grid import PolarGrid

BOUNDS = ("PoLaR textgrids of up to 3 ranges (touching or with gaps), 3 levels and 3 turning points at any times, with or without words and phones, other point "
          "tiers and each of the tiers empty or missing; level and range labels of all forms; made from groups or from praatio; also after shifting")
ASSUMES = ["points of one tier differ in time, and a level and a turning point either agree in time or differ, by more than the closeness tolerance"]

RANGES = ["75-300", "100.5-220.25", "0-50", "120-120", "", "n/a", "60-1000", "7-9.5", "085-0300.0", "-", "high-low", "300-75"]
NUMS = [(75.0, 300.0), (100.5, 220.25), (0.0, 50.0), (120.0, 120.0), None, None, (60.0, 1000.0), (7.0, 9.5), (85.0, 300.0), None, None, (300.0, 75.0)]

def apart(sx, a, b, same):
    d = [sep(a, b), sep(b, a)] + ([eq(a, b)] if same else [])
    sx.assume(disj(*d))

def ptimes(sx, nm, n):
    ts = sep_times(sx, nm, n - 1) if n else []
    return ts

def build(sx, m, n, k, how, gaps, words, extra, rlabel=0):
    """a grid of m ranges, n levels, k turning points"""
    rt = sep_times(sx, "r", 2 * m - 1 if gaps else m) if m else []
    rspec = [(rt[2 * i], rt[2 * i + 1], RANGES[(i + rlabel) % len(RANGES)]) if gaps else (rt[i], rt[i + 1], RANGES[(i + rlabel) % len(RANGES)]) for i in range(m)]
    ls, ps = ptimes(sx, "l", n), ptimes(sx, "p", k)
    for l in ls:
        for p in ps:
            apart(sx, l, p, True)
    lspec = [(t, str(i % 5 + 1) + ("?" if i % 2 else "")) for i, t in enumerate(ls)]
    pspec = [(t, ["0", "0,200", "0?"][i % 3]) for i, t in enumerate(ps)]
    w = []
    if words:
        w = [[(0.0, 1.0, sx.label("w0")), (1.0, 2.5, sx.label("w1"))], [(0.0, 1.0, sx.label("q0")), (1.0, 2.0, sx.label("q1")), (2.0, 2.5, sx.label("q2"))]]
    ptiers, pcls = [], []
    if "ToBI" in extra:
        ptiers.append([(sx.real("tobi"), sx.label("tL"))]); pcls.append(ToBI)
        sx.assume(ptiers[-1][0][0] >= 0)
    if k is not None:
        ptiers.append(pspec); pcls.append(TurningPoints)
    if n is not None:
        ptiers.append(lspec); pcls.append(Levels)
    if "PrStr" in extra:
        ptiers.append([(sx.real("ps"), "*")]); pcls.append(PrStr)
        sx.assume(ptiers[-1][0][0] >= 0)
    order = [("w", [Word, Phone])] * bool(w) + [("p", pcls)] + [("r", [Ranges])] * bool(m)
    if "first" in extra:
        order = order[::-1]
    if how == "groups":
        gs = []
        for kind, cl in order:
            src = {"w": w, "p": ptiers, "r": [rspec]}[kind]
            gs.append(quiet(PointsGroup if kind == "p" else TierGroup, [(SequencePointTier if kind == "p" else SequenceTier)([c(e) for e in es] if es else [], *(() if es else (c,))) for c, es in zip(cl, src)]))
        grid = quiet(PolarGrid, gs)
    else:
        tg = Textgrid()
        for kind, cl in order:
            src = {"w": w, "p": ptiers, "r": [rspec]}[kind]
            for c, es in zip(cl, src):
                quiet(tg.addTier, (PointTier if kind == "p" else IntervalTier)(kind + c.__name__, es, *((None, None) if es else (0, 1))))
        grid = quiet(PolarGrid, tg, None, [cl for _, cl in order])
    return grid, [o[0] for o in order]

def check_grid(sx, grid, order, by=0):
    kinds = [t.entry_class.__name__ for g in grid for t in g]
    for g in grid:
        for t in g:
            nm = t.entry_class.__name__
            sx.check(getattr(grid, nm, None) is t, "a tier is found by the name of its class", detail=nm)
    want = {"w": "Word_Phone", "p": "Points", "r": "RangesTier"}
    for g, o in zip(grid, order):
        sx.check(g.name == want[o] and getattr(grid, want[o], None) is g, "groups are named for what they are", detail=g.name)
    levels = list(grid.Levels) if "Levels" in kinds else []
    ranges = list(grid.Ranges) if "Ranges" in kinds else []
    points = list(grid.TurningPoints) if "TurningPoints" in kinds else []
    for l in levels:
        if "Ranges" in kinds:
            sx.check(l.ranges_tier is grid.Ranges, "a level knows the ranges tier")
        r = l.range_interval
        sx.check(r is None or any(r is x for x in ranges), "a level is in an interval of the ranges tier")
        for x in ranges:
            inside = conj(x.start <= l.time, l.time < x.end)
            sx.check(inside if x is r else not_(sx, inside), "a level is in the range that contains it")
        p = l.turning_point
        sx.check(p is None or any(p is x for x in points), "a level's turning point is on the tier")
        for x in points:
            same = eq(l.time, x.time)
            sx.check(same if x is p else not_(sx, same), "a level's turning point is the one at its time")
        if p is not None:
            sx.check(p.level is l, "a level's turning point has that level")
    for p in points:
        l = p.level
        sx.check(l is None or any(l is x for x in levels), "a turning point's level is on the tier")
        for x in levels:
            same = eq(p.time, x.time)
            sx.check(same if x is l else not_(sx, same), "a turning point's level is the one at its time")
        if l is not None:
            sx.check(l.turning_point is p, "a turning point's level has that turning point")
    for r in ranges:
        check_range(sx, r)
    for i, l in enumerate(levels):
        check_level(sx, l)

def not_(sx, c):
    return (not c) if isinstance(c, (bool, np.bool_)) else ~c

def check_range(sx, r):
    num = dict(zip(RANGES, NUMS)).get(r.label)
    if num is None:
        sx.check(np.isnan(r.low) and np.isnan(r.high) and len(r.range) == 2 and len(r.bands) == 6, "a range without numbers has none")
        return
    lo, hi = num
    sx.check(r.low == lo and r.high == hi and list(r.range) == [lo, hi], "the range is what the label says")
    b = list(r.bands)
    sx.check(len(b) == 6 and b[0] == lo and b[5] == hi, "six break points from low to high")
    for i in range(6):
        sx.check(abs(b[i] - (lo + (hi - lo) * i / 5)) < 1e-9, "the break points are evenly spaced")

def check_level(sx, l):
    num = int(l.label.strip("?"))
    sx.check(type(l.level) is int and l.level == num, "the level is what the label says")
    sx.check(l.certainty == ("uncertain" if "?" in l.label else "certain"), "certainty of a level")
    r = l.range_interval
    if r is None:
        return
    v = dict(zip(RANGES, NUMS)).get(r.label)
    b = list(l.band)
    sx.check(len(b) == 2, "a band has two ends")
    if v is None:
        sx.check(all(np.isnan(x) for x in b), "no band in a range without numbers")
    else:
        step = (v[1] - v[0]) / 5
        sx.check(abs(b[0] - (v[0] + step * (num - 1))) < 1e-9 and abs(b[1] - (v[0] + step * num)) < 1e-9, "the band is the one of the level in its range")

def h_grid(sx, m, n, k, how="groups", gaps=False, words=False, extra=(), after=None, rlabel=0):
    grid, order = build(sx, m, n, k, how, gaps, words, extra, rlabel)
    sx.check(type(grid) is PolarGrid and len(grid) == len(order), "one group each")
    if after == "shift":
        by = sx.real("by")
        sx.assume(by >= 0)
        quiet(grid.shift, by)
    check_grid(sx, grid, order)

def h_labels(sx):
    """what labels say"""
    t = sx.real("t")
    lev = sx.choose("lev", 5) + 1
    q = sx.choose("q", 2)
    l = Levels((t, f"{lev}{'?' * q}"))
    check_level(sx, l)
    sx.check(l.level == lev, "level")
    for n in (0, 7, 10, 12, 105):
        m = Levels((t, f"{n}{'?' * q}"))
        sx.check(type(m.level) is int and m.level == n and m.certainty == ("uncertain" if q else "certain"), "levels of any number")
    r = Ranges((t, t + 1, RANGES[sx.choose("r", len(RANGES))]))
    check_range(sx, r)
    l.set_ranges_tier(SequenceTier([r]))
    l.set_range_interval()
    sx.check(l.range_interval is r, "the range")
    check_level(sx, l)

OVERRIDES = [None, "200", "85.5", "12", "055", "0.5", "00", "1000.25", "-3", "7", "100", "low"]

def h_marks(sx):
    t = sx.real("t")
    q = "?" * sx.choose("q", 2)
    want = "uncertain" if q else "certain"
    kind = ["*", "]"][sx.choose("kind", 2)]
    p = PrStr((t, ["", "1", "a ", "!", "H+", "L", "L-H%"][sx.choose("pre", 7)] + kind + q))
    sx.check(p.certainty == want, "certainty of prominences and edges")
    sx.check(p.status == {"*": "prominence", "]": "edge"}[kind], "prominences and edges")
    ov = OVERRIDES[sx.choose("ov", len(OVERRIDES))]
    tp = TurningPoints((t, ["0", "1", "x", "12"][sx.choose("head", 4) if ov else 0] + (f",{ov}" if ov else "") + q))
    sx.check(tp.certainty == want, "certainty of turning points")
    sx.check(tp.override == ov, "the override value is what follows the comma", detail=repr(tp.override))
    sx.check(tp.level is None, "no level without a grid")

def instances(tier):
    th = tier == "thorough"
    out = []
    add = lambda nm, fn, **kw: out.append(Instance(nm, fn, kw))
    add("labels", h_labels)
    add("marks", h_marks)
    shapes = [(1, 1, 1), (1, 2, 2), (2, 2, 1), (2, 1, 2), (1, 2, 3), (3, 2, 0), (2, 0, 2)]
    if th:
        shapes += [(2, 2, 2), (3, 3, 1), (2, 3, 2), (1, 3, 3), (3, 2, 2)]
    for how in ("groups", "praatio"):
        for m, n, k in shapes:
            add(f"grid-{how}-{m}-{n}-{k}", h_grid, m=m, n=n, k=k, how=how)
        for m, n, k in [(2, 2, 1), (3, 1, 1)] + ([(2, 2, 2), (3, 2, 1)] if th else []):
            add(f"grid-gaps-{how}-{m}-{n}-{k}", h_grid, m=m, n=n, k=k, how=how, gaps=True, rlabel=1)
        for ex in [("ToBI",), ("PrStr", "first"), ("ToBI", "PrStr")]:
            add(f"grid-{how}-words-{'+'.join(ex)}", h_grid, m=1, n=1, k=1, how=how, words=True, extra=ex)
        add(f"grid-{how}-shift", h_grid, m=2, n=2, k=2 if th else 1, how=how, after="shift", rlabel=2)
        for m, n, k in [(0, 1, 2), (1, None, 1), (1, 1, None), (0, None, 1), (0, 1, None)]:
            add(f"grid-missing-{how}-{m}-{n}-{k}", h_grid, m=m, n=n, k=k, how=how)
        for r in range(len(RANGES)):
            add(f"grid-{how}-label-{r}", h_grid, m=2, n=1, k=1, how=how, rlabel=r)
    return out
