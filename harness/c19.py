"""C19: extents, durations and shorthands agree with the entries."""
from harness.worlds import *

BOUNDS = ("tiers of up to 4 intervals or points (touching, with gaps, or empty), groups of up to 3 tiers with different extents, textgrids of up to 3 groups, points "
          "groups included; every operation on aligned textgrids of up to 3 levels; replaced start and end times; integer times")
ASSUMES = ["boundaries differ by more than the closeness tolerance"]

def lt(sx, a, bs, what):
    """a is one of bs and none is less"""
    sx.check(disj(*[eq(a, b) for b in bs]), what)
    for b in bs:
        sx.check(a <= b, what)

def gt(sx, a, bs, what):
    sx.check(disj(*[eq(a, b) for b in bs]), what)
    for b in bs:
        sx.check(a >= b, what)

def fails(f, *errs):
    try:
        f()
    except errs:
        return True
    return False

def check_interval(sx, x):
    sx.check(eq(x.duration, x.end - x.start), "duration is end minus start")
    sx.check(x.entry_class is type(x), "an interval's class")
    kids = list(x.subset_list)
    sx.check(len(x.sub_starts) == len(x.sub_ends) == len(x.sub_labels) == len(kids) == len(x), "one start, end and label per child")
    for i, k in enumerate(kids):
        sx.check(conj(eq(x.sub_starts[i], k.start), eq(x.sub_ends[i], k.end), eq(x.sub_labels[i], k.label)), "the children's times and labels")
    if kids:
        sx.check(x.first is kids[0] and x.last is kids[-1], "first and last child")
        sx.check(all(k.super_instance is x for k in kids), "children name their parent")
    else:
        sx.check(fails(lambda: x.first, IndexError) and fails(lambda: x.last, IndexError), "no first or last child without children")
    if isinstance(x, Word) and all(isinstance(k, Phone) for k in kids):
        sx.check(x.phone_list is x.subset_list or list(x.phone_list) == kids, "phone_list is the children")
        sx.check(len(x.phones) == len(kids) and all(a is k.label or a == k.label for a, k in zip(x.phones, kids)), "phones are the children's labels")
        for k in kids:
            sx.check(k.inword is x, "a phone is in its word")
    iv = x.return_interval()
    sx.check(conj(eq(iv[0], x.start), eq(iv[1], x.end), eq(iv[2], x.label)), "as a praatio interval")

def check_tier(sx, t):
    xs = list(t)
    points = isinstance(t, SequencePointTier)
    if not xs:
        sx.check(t.xmin is None and t.xmax is None, "an empty tier has no extent")
        sx.check(len(t) == 0 and len(t.labels) == 0, "nothing on an empty tier")
        sx.check(fails(lambda: t.first, IndexError) and fails(lambda: t.last, IndexError), "no first or last on an empty tier")
        return
    sx.check(t.first is xs[0] and t.last is xs[-1], "first and last of a tier")
    sx.check(all(type(x) is t.entry_class for x in xs), "entries are of the tier's class")
    lt(sx, t.xmin, [x.start for x in xs], "a tier begins with its earliest entry")
    gt(sx, t.xmax, [x.time if points else x.end for x in xs], "a tier ends with its latest entry")
    sx.check(len(t.labels) == len(xs), "one label per entry")
    for i, x in enumerate(xs):
        sx.check(eq(t.labels[i], x.label), "labels of a tier")
        if points:
            sx.check(eq(t.times[i], x.time), "times of a point tier")
            sx.check(eq(x.start, x.time) and x.entry_class is type(x), "a point starts at its time")
            p = x.return_point()
            sx.check(conj(eq(p[0], x.time), eq(p[1], x.label)), "as a praatio point")
        else:
            sx.check(conj(eq(t.starts[i], x.start), eq(t.ends[i], x.end)), "starts and ends of a tier")
            check_interval(sx, x)

def check_extent(sx, obj, parts, what):
    full = [p for p in parts if p.xmin is not None]
    if not full:
        sx.check(obj.xmin is None and obj.xmax is None, f"{what}: nothing, so no extent")
        return
    lt(sx, obj.xmin, [p.xmin for p in full], f"{what}: begins with its earliest part")
    gt(sx, obj.xmax, [p.xmax for p in full], f"{what}: ends with its latest part")

def check_group(sx, g):
    ts = list(g)
    for t in ts:
        check_tier(sx, t)
    check_extent(sx, g, ts, "group")
    sx.check(list(g.entry_classes) == [t.entry_class for t in ts], "classes of a group")
    sx.check(list(g.tier_names) == [t.name for t in ts], "tier names of a group")
    for k, c in enumerate(g.entry_classes):
        if len({d.__name__ for d in g.entry_classes}) == len(ts):
            sx.check(getattr(g, c.__name__) is ts[k], "tiers are found by the name of their class")

def check_atg(sx, atg):
    gs = list(atg)
    for g in gs:
        check_group(sx, g)
    check_extent(sx, atg, gs, "textgrid")
    sx.check(len(atg) == len(gs) and all(a is b for a, b in zip(atg.tier_groups, gs)), "groups of a textgrid")
    sx.check([list(c) for c in atg.entry_classes] == [list(g.entry_classes) for g in gs], "classes of a textgrid")
    sx.check([list(n) for n in atg.tier_names] == [[t.name for t in g] for g in gs], "tier names of a textgrid")
    flat = [c for g in gs for c in g.entry_classes]
    for c in set(flat):
        if len({d for d in flat if d.__name__ == c.__name__}) == 1:
            sx.check(quiet(atg.get_class_by_name, c.__name__) is c, "a class is found by its name")
    sx.check(quiet(atg.get_class_by_name, "Nothing") is None, "no class of an unused name")

def loose(sx, nm, n, cls, points):
    """n entries anywhere, apart, in any order of creation"""
    if points:
        ts = sep_times(sx, nm, n - 1) if n else []
        return [cls((t, sx.label(f"{nm}L{i}"))) for i, t in enumerate(ts)][::-1]
    ts = sep_times(sx, nm, 2 * n - 1) if n else []
    return [cls((ts[2 * i], ts[2 * i + 1], sx.label(f"{nm}L{i}"))) for i in range(n)][::-1]

def overlapping(sx, nm, n, cls, points):
    """n entries anywhere, at any times: they may overlap, contain one another and share starts or ends"""
    if points:
        return [cls((sx.real(f"{nm}t{i}"), f"l{i}")) for i in range(n)]
    out = []
    for i in range(n):
        a, b = sx.real(f"{nm}s{i}"), sx.real(f"{nm}e{i}")
        sx.assume(a < b)
        out.append(cls((a, b, f"l{i}")))
    return out

def h_overlap(sx, n, points, grouped):
    c = SequencePoint if points else custom_classes(["Word"])[0]
    t = mktier(overlapping(sx, "t", n, c, points), c, points)
    if not grouped:
        return check_tier(sx, t)
    g = PointsGroup([t]) if points else quiet(TierGroup, [t])
    check_group(sx, g)
    check_atg(sx, quiet(AlignedTextGrid, [g]))

def h_moved(sx, n, points, grouped):
    """times changed one by one since the tier was made"""
    c = SequencePoint if points else custom_classes(["Word"])[0]
    xs = [c((float(i), f"l{i}") if points else (float(i), i + .5, f"l{i}")) for i in range(n)]
    t = mktier(xs, c, points)
    if grouped:
        g = PointsGroup([t]) if points else quiet(TierGroup, [t])
        atg = quiet(AlignedTextGrid, [g])
    for i, x in enumerate(list(t)):
        if points:
            x.time = sx.real(f"a{i}")
        else:
            x.start, x.end = sx.real(f"a{i}"), sx.real(f"b{i}")
            sx.assume(x.start < x.end)
    check_atg(sx, atg) if grouped else check_tier(sx, t)

def mktier(xs, cls, points):
    T = SequencePointTier if points else SequenceTier
    return T(xs) if xs else T([], cls)

def h_tier(sx, n, points):
    c = SequencePoint if points else custom_classes(["Word"])[0]
    check_tier(sx, mktier(loose(sx, "t", n, c, points), c, points))

def h_group(sx, ns, points):
    cls = custom_classes(["A", "B", "C"][:len(ns)], points=list(range(len(ns))) if points else [])
    if points:
        g = PointsGroup([mktier(loose(sx, f"t{k}_", n, c, True), c, True) for k, (n, c) in enumerate(zip(ns, cls))])
        check_group(sx, g)
        check_atg(sx, quiet(AlignedTextGrid, [g]))
    else:
        # separate hierarchies, so that extents differ: one group each
        gs = [TierGroup([mktier(loose(sx, f"t{k}_", n, c, False), c, False)]) for k, (n, c) in enumerate(zip(ns, custom_classes(["A"]) + custom_classes(["B"]) + custom_classes(["C"])))]
        for g in gs:
            check_group(sx, g)
        check_extent(sx, quiet(AlignedTextGrid, gs), gs, "textgrid")

def h_levels(sx, shape, gaps, kind="custom"):
    g = aligned_group(sx, "g", listify(shape), gaps=gaps, kind=kind)
    check_group(sx, g)
    atg = quiet(AlignedTextGrid, [g, PointsGroup([SequencePointTier(loose(sx, "q", 2, SequencePoint, True))])])
    check_atg(sx, atg)

def h_partial(sx, n, m):
    """upper and lower tier of different extents (the group reconciles them)"""
    W, P = classes(2)
    a, b = sep_times(sx, "a", n), sep_times(sx, "b", m)
    for x in a:
        for y in b:
            sx.assume(disj(eq(x, y), sep(x, y), sep(y, x)))
    g = quiet(TierGroup, [SequenceTier([W((a[i], a[i + 1], sx.label(f"w{i}"))) for i in range(n)]),
                          SequenceTier([P((b[i], b[i + 1], sx.label(f"p{i}"))) for i in range(m)])])
    check_group(sx, g)

def h_ops(sx, ops, shape, atg, gaps=False, kind="custom"):
    w = run_ops(sx, ops, shape, [], atg=atg, gaps=gaps, kind=kind)
    if w.atg is not None:
        check_atg(sx, w.atg)
    for g in w.groups + w.pgroups:
        check_group(sx, g)

def h_times(sx, what, n):
    """replacing the times of a tier"""
    pts = what == "times"
    c = SequencePoint if pts else custom_classes(["Word"])[0]
    t = mktier(loose(sx, "t", n, c, pts), c, pts)
    xs = list(t)
    old = [(x.start, getattr(x, "end", None)) for x in xs]
    new = [sx.real(f"n{i}") for i in range(n)]
    for i in range(n):
        if what == "starts":
            sx.assume(new[i] < xs[i].end)
            if i:
                sx.assume(new[i] >= xs[i - 1].end)
        elif what == "ends":
            sx.assume(new[i] > xs[i].start)
            if i + 1 < n:
                sx.assume(new[i] <= xs[i + 1].start)
        elif i:
            sx.assume(new[i] > new[i - 1])
    for bad in (new[:-1], new + [new[0]]):
        sx.check(fails(lambda: setattr(t, what, bad), Exception), "the wrong number of times is refused")
    for x, (s, e) in zip(xs, old):
        sx.check(conj(eq(x.start, s), eq(getattr(x, "end", None), e)), "and changes nothing")
    setattr(t, what, new)
    same_objects(sx, t, xs, "entries stay where they are")
    for x, v, (s, e) in zip(xs, new, old):
        if what == "starts":
            sx.check(conj(eq(x.start, v), eq(x.end, e)), "each entry gets its start time")
        elif what == "ends":
            sx.check(conj(eq(x.start, s), eq(x.end, v)), "each entry gets its end time")
        else:
            sx.check(eq(x.time, v), "each point gets its time")
    check_tier(sx, t)

def h_both_times(sx, n, first):
    """all times of a tier replaced, one side after the other; the tier may be wherever between"""
    c = custom_classes(["Word"])[0]
    t = mktier(loose(sx, "t", n, c, False), c, False)
    xs = list(t)
    st, en = [], []
    for i in range(n):
        a, b = sx.real(f"a{i}"), sx.real(f"b{i}")
        sx.assume(conj(a < b, *[a >= e for e in en[-1:]]))
        st.append(a); en.append(b)
    for what in (("starts", "ends") if first == "starts" else ("ends", "starts")):
        setattr(t, what, st if what == "starts" else en)
        for x, a, b in zip(xs, st, en):
            sx.check(eq(x.start, a) if what == "starts" else eq(x.end, b), f"each entry gets its {what[:-1]} time")
    same_objects(sx, t, xs, "entries stay where they are")
    for x, a, b in zip(xs, st, en):
        sx.check(conj(eq(x.start, a), eq(x.end, b)), "each entry has both new times")
    check_tier(sx, t)

def h_point_time(sx):
    p = SequencePoint((sx.real("a"), sx.label("l")))
    v = sx.real("b")
    p.time = v
    sx.check(conj(eq(p.time, v), eq(p.start, v), eq(p.return_point()[0], v)), "a point's new time")

def h_views_copy(sx):
    """arrays handed out are not the tier's own"""
    g = aligned_group(sx, "g", [2, 1])
    snap = Snap(g)
    for t in g:
        a, b, l = t.starts, t.ends, t.labels
        a[0] = sx.real("x"); b[0] = sx.real("x"); l[0] = "changed"
        l.append("more")
        for x in t:
            s, e, k = x.sub_starts, x.sub_ends, x.sub_labels
            if len(s):
                s[0] = sx.real("x"); e[0] = sx.real("x"); k[0] = "changed"
    snap.check(sx, "changing what was handed out")

def h_empty(sx, ns):
    """nothing at all"""
    A = custom_classes(["A"])[0]
    B = custom_classes(["B"], points=[0])[0]
    parts = [TierGroup([mktier(loose(sx, f"i{k}", n, A, False), A, False)]) if k % 2 == 0 else PointsGroup([mktier(loose(sx, f"p{k}", n, B, True), B, True)]) for k, n in enumerate(ns)]
    for g in parts:
        check_group(sx, g)
    if ns:
        check_extent(sx, quiet(AlignedTextGrid, parts), parts, "textgrid")
    else:
        atg = AlignedTextGrid()
        sx.check(len(atg) == 0 and fails(lambda: atg.xmin, ValueError) and fails(lambda: atg.xmax, ValueError) and fails(lambda: atg.tier_names, ValueError), "an empty textgrid has no extent")

def h_feature(sx):
    x = Word((sx.real("s"), sx.real("e"), sx.label("l")))
    v = sx.label("v")
    x.set_feature("lemma", v)
    sx.check(x.lemma is v, "features are kept")
    y = Word((sx.real("s"), sx.real("e"), sx.label("l")))
    sx.check(not hasattr(y, "lemma"), "and belong to one entry")

def instances(tier):
    th = tier == "thorough"
    out = []
    add = lambda nm, fn, **kw: out.append(Instance(nm, fn, kw))
    for n in range(0, 6 if th else 5):
        for p in (False, True):
            add(f"tier-{n}-{'points' if p else 'intervals'}", h_tier, n=n, points=p)
    for ns in ((1, 1), (2, 1), (0, 2), (1, 0), (0, 0), (1, 1, 1), (0, 2, 1)) + (((2, 2), (3, 2), (2, 2, 1), (2, 2, 2)) if th else ()):
        for p in (False, True):
            add(f"group-{'-'.join(map(str, ns))}-{'points' if p else 'intervals'}", h_group, ns=ns, points=p)
    for shape in ((1,), (2, 1), ((1, 2), (1,)), (1, 3, 2)) + (((2, 2, 2), ((2, 1), (1, 2))) if th else ()):
        for gaps in (False, True):
            add(f"levels-{shape}-{gaps}", h_levels, shape=shape, gaps=gaps)
    add("levels-wp", h_levels, shape=(2, 1), gaps=False, kind="wp")
    for n, m in ((1, 1), (1, 2), (2, 1)) + (((2, 2),) if th else ()):
        add(f"partial-{n}-{m}", h_partial, n=n, m=m)
    for what in ("starts", "ends", "times"):
        for n in range(1, 5 if th else 4):
            add(f"set-{what}-{n}", h_times, what=what, n=n)
    for n in range(1, 5 if th else 4):
        for first in ("starts", "ends"):
            add(f"set-both-{n}-{first}", h_both_times, n=n, first=first)
    for n in (2, 3) + ((4,) if th else ()):
        for p in (False, True):
            for grouped in (False, True):
                add(f"overlap-{n}-{'points' if p else 'intervals'}-{grouped}", h_overlap, n=n, points=p, grouped=grouped)
                add(f"moved-{n}-{'points' if p else 'intervals'}-{grouped}", h_moved, n=n, points=p, grouped=grouped)
    add("levels-many", h_levels, shape=MANY, gaps=True, kind="wp")
    add("point-time", h_point_time)
    add("views-copy", h_views_copy)
    for ns in ((), (0,), (0, 0), (0, 1), (1, 0), (0, 2, 0), (2, 0, 1)):
        add(f"empty-{'-'.join(map(str, ns))}", h_empty, ns=ns)
    add("feature", h_feature)
    out += op_instances(h_ops, tier, pairs=th, wide=th)
    return out
