"""C25: what is made from something else: entries from tuples, praatio and other entries, tiers from entries, praatio tiers and other tiers."""
from harness.worlds import *
from aligned_textgrid.custom_classes import clone_class
from praatio.utilities.constants import Interval as PI, Point as PP

BOUNDS = ("intervals and points from tuples, lists, praatio entries and entries anywhere in hierarchies of up to 3 levels, to 3 classes; tiers of up to 4 (thorough: 5) entries at any times in any order "
          "from lists, sequence lists, praatio tiers and other tiers, with any or no class and any of 3 names; tiers changed since they were made; groups made from nothing; 9 things made from a list and 4 changes to the list")
ASSUMES = ["praatio tiers have entries that do not overlap"]

def bare(sx, x, what):
    """no relations"""
    pt = isinstance(x, SequencePoint)
    sx.check(x.intier is None, f"{what}: on no tier")
    if not pt:
        sx.check(x.super_instance is None and len(x.subset_list) == 0 and len(x) == 0, f"{what}: neither parent nor children")
    for y in (x.fol, x.prev):
        sx.check(y is None or is_boundary(y), f"{what}: no neighbours but boundaries")

def made(sx, x, cls, vals, what):
    sx.check(type(x) is cls and x.entry_class is cls, f"{what}: of the class asked for")
    if isinstance(x, SequencePoint):
        sx.check(conj(eq(x.time, vals[0]), eq(x.label, vals[1])), f"{what}: the time and label given")
    else:
        sx.check(conj(eq(x.start, vals[0]), eq(x.end, vals[1]), eq(x.label, vals[2])), f"{what}: the times and label given")
        sx.check(eq(x.duration, vals[1] - vals[0]), f"{what}: its duration")

def h_interval(sx, how):
    vals = (sx.real("s"), sx.real("e"), sx.label("l"))
    sx.assume(vals[0] <= vals[1])
    W, P = custom_classes(["Wd", "Ph"])
    for cls in (SequenceInterval, Word, W, P):
        x = {"tuple": lambda: cls(vals), "list": lambda: cls(list(vals)), "praatio": lambda: cls(PI(*vals)), "keyword": lambda: cls(Interval=PI(*vals)), "kwtuple": lambda: cls(Interval=vals)}[how]()
        made(sx, x, cls, vals, how)
        bare(sx, x, how)
        sx.check(x.fol.label == "#" and x.prev.label == "#", "an interval by itself is first and last")

def h_point(sx, how):
    vals = (sx.real("t"), sx.label("l"))
    P, = custom_classes(["Pt"], points=[0])
    for cls in (SequencePoint, P):
        x = {"tuple": lambda: cls(vals), "list": lambda: cls(list(vals)), "praatio": lambda: cls(PP(*vals))}[how]()
        made(sx, x, cls, vals, how)
        bare(sx, x, how)
        sx.check(x.fol.label == "#" and x.prev.label == "#", "a point by itself is first and last")

def h_copy(sx, shape, kw):
    """a copy of an entry anywhere in a group: same or another class"""
    g = aligned_group(sx, "t", listify(shape))
    atg = quiet(AlignedTextGrid, [g])
    g = atg[0]
    alle = [x for t in g for x in t]
    x = alle[sx.choose("x", len(alle))]
    snap = Snap(g)
    for cls in [type(x), SequenceInterval, Phone] + [c for c in g.entry_classes if c is not type(x)]:
        y = cls(Interval=x) if kw else cls(x)
        sx.check(y is not x, "a copy is another interval")
        made(sx, y, cls, (x.start, x.end, x.label), "copy")
        bare(sx, y, "copy")
        snap.check(sx, "copying")
        y.start, y.end, y.label = y.start + 1, y.end + 2, "changed"
        snap.check(sx, "changing a copy")

def h_copy_point(sx, n):
    P, Q = custom_classes(["P", "Q"], points=[0, 1])
    t = SequencePointTier([P((p, sx.label(f"l{i}"))) for i, p in enumerate(times(sx, "p", n - 1, lo=None))])
    PointsGroup([t])
    x = t[sx.choose("x", n)]
    snap = Snap([t])
    for cls in (P, Q, SequencePoint):
        y = cls(x)
        sx.check(y is not x, "a copy is another point")
        made(sx, y, cls, (x.time, x.label), "copy")
        bare(sx, y, "copy")
        snap.check(sx, "copying")
        y.time, y.label = y.time + 1, "changed"
        snap.check(sx, "changing a copy")

def ordered(sx, t, what):
    st = [x.start for x in t]
    for a, b in zip(st, st[1:]):
        sx.check(a <= b, f"{what}: in order of time")
    for a, b in zip(list(t), list(t)[1:]):
        sx.check(a.fol is b and b.prev is a, f"{what}: each followed by the next")

def whole(sx, t, cls, name, n, what):
    sx.check(t.entry_class is cls, f"{what}: a tier of the class asked for")
    sx.check(t.name == name, f"{what}: the name", detail=f"{t.name} {name}")
    sx.check(len(t) == n, f"{what}: as many entries as given")
    for x in t:
        sx.check(type(x) is cls, f"{what}: all entries of this class")
        sx.check(x.intier is t, f"{what}: entries are on the tier")
    if issubclass(cls, SequenceInterval):
        sx.check(t.superset_class is cls.superset_class and t.subset_class is cls.subset_class, f"{what}: classes above and below")
    ordered(sx, t, what)

def sources(sx, n, pts, how):
    """(what to make a tier from, [values])"""
    vals = []
    for i in range(n):
        if pts:
            vals.append((sx.real(f"t{i}"), sx.label(f"l{i}")))
        else:
            s, e = sx.real(f"s{i}"), sx.real(f"e{i}")
            sx.assume(conj(s >= 0, s < e))
            vals.append((s, e, sx.label(f"l{i}")))
    if how == "tier":
        for a, b in zip(vals, vals[1:]):
            sx.assume(a[0] < b[0] if pts else a[1] <= b[0])
    else:
        for i, a in enumerate(vals):
            for b in vals[:i]:
                sx.assume(disj(a[0] < b[0], b[0] < a[0]))
    return vals

def h_praatio(sx, n, pts, how, k):
    """tiers of praatio entries"""
    vals = sources(sx, n, pts, how)
    if pts:
        cls = [None, SequencePoint, custom_classes(["Pt"], points=[0])[0]][k]
        T, E, default = SequencePointTier, PP, SequencePoint
    else:
        cls = [None, Word, custom_classes(["Wd", "Ph"])[1]][k]
        T, E, default = SequenceTier, PI, SequenceInterval
    es = [E(*v) for v in vals]
    name = None
    src = es
    if how == "tier":
        name = ["notes", "Word", "Pt"][sx.choose("name", 3)]
        src = quiet((PointTier if pts else IntervalTier), name, es)
    t = T(src) if cls is None else T(src, cls) if k == 1 else T(src, entry_class=cls)
    want = cls or default
    whole(sx, t, want, name or want.__name__, n, f"from praatio {how}")
    for x in t:
        sx.check(disj(False, *[conj(*[eq(a, b) for a, b in zip((x.time, x.label) if pts else (x.start, x.end, x.label), v)]) for v in vals]), "every entry is one of those given")
    for v in vals:
        sx.check(disj(False, *[conj(*[eq(a, b) for a, b in zip((x.time, x.label) if pts else (x.start, x.end, x.label), v)]) for x in t]), "every entry given is there")

def h_entries(sx, n, pts, how, k):
    """tiers of entries: the entries themselves, with the class asked for"""
    vals = sources(sx, n, pts, "list")
    if pts:
        A, B = custom_classes(["Pt", "Qt"], points=[0, 1])
        T = SequencePointTier
    else:
        A, = custom_classes(["Wd"])
        B, = custom_classes(["Ph"])
        T = SequenceTier
    es = [A(v) for v in vals]
    name = None
    src = es
    if how == "seqlist":
        src = SequenceList(*es)
    elif how == "tier":
        src = T(es)
        name = [None, "notes", "Ph"][sx.choose("name", 3)]
        if name:
            src.name = name
    want = [A, A, B, SequencePoint if pts else SequenceInterval, clone_class(A)][k]
    t = [lambda: T(src), lambda: T(src, A), lambda: T(src, entry_class=want)][min(k, 2)]()
    whole(sx, t, want, name or want.__name__, n, f"from {how}")
    same_set(sx, t, es, "the entries given are themselves on the tier")
    for x, v in zip(es, vals):
        if pts:
            sx.check(conj(eq(x.time, v[0]), eq(x.label, v[1])), "entries keep time and label")
        else:
            sx.check(conj(eq(x.start, v[0]), eq(x.end, v[1]), eq(x.label, v[2])), "entries keep times and label")

CHANGES = ("append", "pop", "assign", "concat", "plus", "rename")

def h_changed(sx, pts, how, cls):
    """tiers made from tiers that were changed since they were made"""
    A, B = custom_classes(["Pt", "Qt"], points=[0, 1]) if pts else (custom_classes(["Wd"])[0], custom_classes(["Ph"])[0])
    T = SequencePointTier if pts else SequenceTier
    a = times(sx, "t", 6)
    entry = lambda i: A((a[i], sx.label(f"l{i}"))) if pts else A((a[i], a[i + 1], sx.label(f"l{i}")))
    es = [entry(i) for i in range(2)]
    t = T(es)
    if how == "append":
        t.append(entry(2))
    elif how == "pop":
        x = es[sx.choose("x", 2)]
        if pts:
            t.sequence_list = [e for e in es if e is not x]
        else:
            t.pop(x)
    elif how == "assign":
        t.sequence_list = [entry(2), es[1], entry(3)]
    elif how == "concat":
        quiet(t.concat, T([entry(2), entry(3)]))
    elif how == "plus":
        t = quiet(lambda: t + T([entry(2), entry(3)]))
    else:
        t.name = "notes"
        t.append(entry(3))
    have = list(t)
    vals = [(x.start, getattr(x, "end", 0), x.label) for x in have]
    name = t.name
    want = {"same": A, "given": A, "other": B}[cls]
    # entry classes name tiers that were not given a name
    u = quiet(T, t, *([] if cls == "same" else [want]))
    whole(sx, u, want, name if name != "Wd" and name != "Pt" else want.__name__, len(have), "from a changed tier")
    same_objects(sx, u, have, "the entries the tier has now are themselves on the tier made from it")
    for x, (s, e, l) in zip(have, vals):
        sx.check(conj(eq(x.start, s), eq(getattr(x, "end", 0), e), eq(x.label, l)), "entries keep times and label")

def h_none(sx, pts, k):
    T, C = (SequencePointTier, SequencePoint) if pts else (SequenceTier, SequenceInterval)
    X, = custom_classes(["X"], points=[0] if pts else [])
    t = [lambda: T(), lambda: T([]), lambda: T(SequenceList()), lambda: T([], X), lambda: T(entry_class=X), lambda: T(T([], X), X)][k]()
    want = X if k > 2 else C
    whole(sx, t, want, want.__name__, 0, "empty")
    u = T()
    u.append((C if k < 3 else C)((sx.real("a"), "x") if pts else (sx.real("a"), sx.real("a") + 1, "x")))
    sx.check(len(u) == 1 and len(T()) == 0 and len(t) == 0, "empty tiers have nothing in common")

def h_none_group(sx, pts):
    """groups made from nothing"""
    G, T, C = (PointsGroup, SequencePointTier, SequencePoint) if pts else (TierGroup, SequenceTier, SequenceInterval)
    g, h = quiet(G), quiet(G)
    for x in (g, h):
        sx.check(len(x) == 1 and type(x[0]) is T and len(x[0]) == 0 and x[0].within is x, "a group made from nothing has an empty tier")
        sx.check(x[0].entry_class is C and x.contains[0] is x[0], "a group made from nothing has an empty tier of the general class")
    e = C((sx.real("a"), "x") if pts else (sx.real("a"), sx.real("a") + 1, "x"))
    quiet(g[0].append, e)
    sx.check(len(g[0]) == 1 and len(h[0]) == 0 and len(quiet(G)[0]) == 0, "groups made from nothing have nothing in common")

def h_lists(sx, what, change):
    """the list something is made from stays the caller's"""
    W, P, Q = custom_classes(["W", "P", "Q"], points=[2])
    X, = custom_classes(["X"], points=[0])
    a = [sx.real(f"t{i}") for i in range(5)]
    for x, y in zip(a, a[1:]):
        sx.assume(x + 1 < y)
    tier = lambda c: SequencePointTier([c((t, "p")) for t in a[:3]], c) if c in (Q, X) else SequenceTier([c((x, y, "w")) for x, y in zip(a[:3], a[1:4])], c)
    group = lambda c: (PointsGroup if c in (Q, X) else TierGroup)([tier(c)])
    make, items, spare = {
        "tier": (SequenceTier, [W((x, y, "w")) for x, y in zip(a[:3], a[1:4])], W((a[3], a[4], "w"))),
        "points": (SequencePointTier, [Q((x, "p")) for x in a[:3]], Q((a[4], "p"))),
        "list": (lambda l: SequenceList(*l), [W((x, y, "w")) for x, y in zip(a[:3], a[1:4])], W((a[3], a[4], "w"))),
        "group": (TierGroup, [tier(W), tier(P)], tier(Q)),
        "lower": (TierGroup, [tier(P), tier(W)], tier(Q)),
        "pgroup": (PointsGroup, [tier(Q), tier(X)], tier(W)),
        "textgrid": (AlignedTextGrid, [group(W), group(Q), group(W)], group(W)),
        "children": (None, [P((x, y, "p")) for x, y in zip(a[:3], a[1:4])], P((a[3], a[4], "p"))),
        "set": (None, [P((x, y, "p")) for x, y in zip(a[:3], a[1:4])], P((a[3], a[4], "p"))),
    }[what]
    given = list(items)
    if make:
        made = quiet(make, items)
    else:
        made = W((a[0], a[3], "w"))
        if what == "set":
            quiet(made.set_subset_list, items)
        else:
            made.subset_list = items
    sx.check(len(items) == len(given) and all(x is y for x, y in zip(items, given)), "the list something is made from stays as it is")
    have = list(made)
    if change == "append":
        items.append(spare)
    elif change == "pop":
        items.pop()
    elif change == "swap":
        items[0], items[1] = items[1], items[0]
    else:
        items.clear()
    inside = [made.contains] if what in ("pgroup", "group", "lower", "textgrid", "tier", "points", "children", "set") else []
    for l in [list(made)] + [list(x) for x in inside]:
        sx.check(len(l) == len(have) and all(x is y for x, y in zip(l, have)), "what is done to the list later changes nothing in what was made from it")

def h_return(sx, n, pts, how):
    """return_tier, return_interval, return_point"""
    vals = sources(sx, n, pts, "tier")
    if pts:
        A, = custom_classes(["Pt"], points=[0])
        t = SequencePointTier([A(v) for v in vals])
    else:
        A, = custom_classes(["Wd"])
        t = SequenceTier([A(v) for v in vals])
    snap = Snap([t])
    for x, v in zip(t, vals):
        e = x.return_point() if pts else x.return_interval()
        sx.check(isinstance(e, PP if pts else PI) and conj(*[eq(a, b) for a, b in zip(e, v)]) and len(e) == len(v), "a praatio entry of the same times and label")
        for a, b in zip(e, v):
            sx.check(eq(a, b), "a praatio entry of the same times and label")
    if how == "named":
        t.name = "mine"
    r = quiet(t.return_tier, "other") if how == "other" else quiet(t.return_tier)
    sx.check(isinstance(r, PointTier if pts else IntervalTier), "a praatio tier")
    sx.check(r.name == {"plain": A.__name__, "named": "mine", "other": "other"}[how], "named as asked for, or for the tier", detail=r.name)
    sx.check(len(r.entries) == n, "as many entries")
    for e, v in zip(r.entries, vals):
        for a, b in zip(e, v):
            sx.check(eq(a, b), "the entries of the tier, in order")
    snap.check(sx, "returning praatio tiers")

def instances(tier):
    th = tier == "thorough"
    out = []
    add = lambda nm, fn, **kw: out.append(Instance(nm, fn, kw))
    for how in ("tuple", "list", "praatio", "keyword", "kwtuple"):
        add(f"interval-{how}", h_interval, how=how)
        if "k" not in how:
            add(f"point-{how}", h_point, how=how)
    for shape in ((2, 1), ((1, 2), (1,))) + ((2, 1, 3), ((1, 2), (1,), (2, 2))) + ((WIDE, DEEP) if th else ()):
        for kw in (False, True):
            add(f"copy-{shape}-{kw}", h_copy, shape=shape, kw=kw)
    for n in (1, 2, 3):
        add(f"copy-point-{n}", h_copy_point, n=n)
    for n in (1, 2, 3, 4) + ((5,) if th else ()):
        for pts in (False, True):
            for k in range(3):
                for how in ("list", "tier"):
                    add(f"praatio-{n}-{pts}-{how}-{k}", h_praatio, n=n, pts=pts, how=how, k=k)
            for k in range(5):
                for how in ("list", "seqlist", "tier"):
                    add(f"entries-{n}-{pts}-{how}-{k}", h_entries, n=n, pts=pts, how=how, k=k)
            for how in ("plain", "named", "other"):
                add(f"return-{n}-{pts}-{how}", h_return, n=n, pts=pts, how=how)
    for pts in (False, True):
        for k in range(6):
            add(f"none-{pts}-{k}", h_none, pts=pts, k=k)
    for pts in (False, True):
        for how in CHANGES:
            for cls in ("same", "given", "other"):
                add(f"changed-{pts}-{how}-{cls}", h_changed, pts=pts, how=how, cls=cls)
    for pts in (False, True):
        add(f"none-group-{pts}", h_none_group, pts=pts)
    for what in ("tier", "points", "list", "group", "lower", "pgroup", "textgrid", "children", "set"):
        for change in ("append", "pop", "swap", "clear"):
            add(f"lists-{what}-{change}", h_lists, what=what, change=change)
    return out
