"""C24: warnings are given exactly when there is cause."""
from harness.worlds import *
from aligned_textgrid.polar.polar_classes import PrStr

BOUNDS = ("lists, tiers and groups of up to 4+3 intervals at any times, added and concatenated; textgrids of up to 4 groups with any of 3 names; points groups of up to 3 tiers with "
          "any of 3 class names; every class popped from textgrids of up to 3 groups; point tiers of up to 4 points")
ASSUMES = ["intervals have a positive duration"]

def heard(f):
    """(result, messages)"""
    with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("always")
        r = f()
    return r, [str(x.message) for x in w]

def about(ms, word):
    return [m for m in ms if word in m]

def free(sx, nm, n, cls, lo=None):
    out = []
    for i in range(n):
        s, e = sx.real(f"{nm}s{i}"), sx.real(f"{nm}e{i}")
        if lo is not None:
            sx.assume(s >= lo)
        if i:
            sx.assume(out[-1].start <= s)
        sx.assume(s < e)
        out.append(cls((s, e, f"{nm}{i}")))
    return out

def overlap(xs):
    xs = list(xs)
    return disj(False, *[conj(a.start < b.end, b.start < a.end) for i, a in enumerate(xs) for b in xs[:i]])

def neg(c):
    return (not c) if isinstance(c, (bool, np.bool_)) else ~c

def told(sx, c, ms, word, what):
    """there is such a message if and only if c"""
    if about(ms, word):
        sx.check(c, f"{what}: a warning only with cause")
    else:
        sx.check(neg(c), f"{what}: no cause without a warning")

def h_overlap(sx, n, m, how):
    W, = custom_classes(["W"])
    A, B = free(sx, "a", n, W), free(sx, "b", m, W)
    if how == "list-add":
        got, ms = heard(lambda: SequenceList(*A) + SequenceList(*B))
    elif how == "list-concat":
        got = SequenceList(*A)
        _, ms = heard(lambda: got.concat(SequenceList(*B)))
    elif how == "tier-add":
        a, b = SequenceTier(A), SequenceTier(B)
        got, ms = heard(lambda: a + b)
    elif how == "tier-concat":
        got, b = SequenceTier(A), SequenceTier(B)
        _, ms = heard(lambda: got.concat(b))
    same_set(sx, got, A + B, "all are there")
    told(sx, overlap(got), ms, "overlap", "joining")

def h_points_quiet(sx, n, m, how):
    P, = custom_classes(["P"], points=[0])
    A = [P((sx.real(f"a{i}"), f"a{i}")) for i in range(n)]
    B = [P((sx.real(f"b{i}"), f"b{i}")) for i in range(m)]
    if how == "add":
        got, ms = heard(lambda: SequencePointTier(A) + SequencePointTier(B))
    else:
        got = SequencePointTier(A)
        _, ms = heard(lambda: got.concat(SequencePointTier(B)))
    sx.check(not about(ms, "overlap"), "points do not overlap")

def h_clean(sx, shape, how):
    """whole, aligned data: nothing to warn of"""
    f = {"group": lambda: aligned_specs(sx, "t", listify(shape)), "deep": lambda: aligned_specs(sx, "t", listify(shape))}["group"]
    lv = f()
    cls = classes(len(lv))
    def build():
        g = TierGroup([SequenceTier([c(e) for e in es]) for c, es in zip(cls, lv)])
        if how == "group":
            return g
        atg = AlignedTextGrid([g])
        if how == "edit":
            atg.shift(sx.real("by"))
            atg.cleanup()
            atg[0].re_relate()
            list(map(repr, atg[0]))
            atg.return_textgrid()
            if len(atg[0][0]) > 1:
                atg[0][0][0].fuse_rightwards()
            atg.interleave_class("Extra", above=atg[0].entry_classes[-1].__name__)
            atg.pop_class("Extra")
        return atg
    _, ms = heard(build)
    sx.check(ms == [], "no warning about sound data", detail=str(ms)[:300])

def h_empty(sx, how):
    if how == "nothing":
        atg, ms = heard(lambda: AlignedTextGrid())
        sx.check(len(atg) == 0 and about(ms, "empty"), "an empty textgrid is warned of")
    elif how == "list":
        atg, ms = heard(lambda: AlignedTextGrid([]))
        sx.check(len(atg) == 0 and about(ms, "empty"), "an empty textgrid is warned of")
    else:
        g = aligned_group(sx, "t", [1, 1])
        atg, ms = heard(lambda: AlignedTextGrid([g]))
        sx.check(len(atg) == 1 and not about(ms, "empty"), "only an empty textgrid is warned of")

NAMES = ["A", "B", "C"]

def h_names(sx, n, points):
    """groups of any names: namesakes are warned of and not found by name"""
    gs, names = [], []
    for k in range(n):
        nm = NAMES[sx.choose(f"n{k}", 3)]
        if points and k == n - 1:
            g = PointsGroup([SequencePointTier([SequencePoint((sx.real("p"), "p"))])])
        else:
            g = aligned_group(sx, f"g{k}", [1])
        g.name = nm
        gs.append(g)
        names.append(nm)
    atg, ms = heard(lambda: AlignedTextGrid(gs))
    dup = sorted({x for x in names if names.count(x) > 1})
    sx.check(bool(about(ms, "duplicate names")) == bool(dup), "namesakes are warned of, and only they", detail=f"{names} {ms}")
    sx.check([g.name for g in atg] == names, "groups keep their names")
    if dup:
        m = " ".join(about(ms, "duplicate names"))
        for x in set(names):
            sx.check((repr(x) in m) == (x in dup), "the warning names the namesakes", detail=m)
    else:
        for g in atg:
            sx.check(getattr(atg, g.name) is g, "groups are found by name")

def h_classes(sx, n):
    """point tiers of any classes in one group"""
    ts, names = [], []
    for k in range(n):
        nm = NAMES[sx.choose(f"n{k}", 3)]
        c, = custom_classes([nm], points=[0])
        ts.append(SequencePointTier([c((sx.real(f"p{k}"), "p"))]))
        names.append(nm)
    g, ms = heard(lambda: PointsGroup(ts))
    dup = sorted({x for x in names if names.count(x) > 1})
    sx.check(bool(about(ms, "same entry class")) == bool(dup), "tiers of one class are warned of, and only they", detail=f"{names} {ms}")
    if dup:
        m = about(ms, "same entry class")[0]
        for x in set(names):
            sx.check((repr(x) in m) == (x in dup), "the warning names the classes", detail=m)
    else:
        for t in g:
            sx.check(getattr(g, t.entry_class.__name__) is t, "tiers are found by the name of their class")

def h_byname(sx, spec):
    """get_class_by_name"""
    gs = []
    for k, names in enumerate(spec):
        ts = sep_times(sx, f"g{k}_", 1)
        cl = custom_classes(list(names))
        gs.append(quiet(TierGroup, [SequenceTier([c((ts[0], ts[1], sx.label(f"l{k}{i}")))]) for i, c in enumerate(cl)]))
    atg = quiet(AlignedTextGrid, gs)
    for nm in ("Word", "Phone", "Tone", "Nothing"):
        have = []
        for g in atg:
            have += [c for c in g.entry_classes if c.__name__ == nm and not any(c is d for d in have)]
        r, ms = heard(lambda: atg.get_class_by_name(nm))
        if len(have) == 1:
            sx.check(r is have[0] and ms == [], "a class is found by its name, without a warning")
        elif have:
            sx.check(len(r) == len(have) and all(any(c is d for d in r) for c in have) and about(ms, nm), "several classes of a name are all given, with a warning")
        else:
            sx.check(r is None and about(ms, nm), "no class of a name: None, with a warning")

def h_pop(sx, spec):
    """pop_class says which groups it removes"""
    gs = []
    made = {}
    for k, names in enumerate(spec):
        ts = sep_times(sx, f"g{k}_", 1)
        cl = made.setdefault(names, custom_classes(list(names)))
        g = quiet(TierGroup, [SequenceTier([c((ts[0], ts[1], sx.label(f"l{k}{i}")))]) for i, c in enumerate(cl)])
        g.name = f"spk{k}"
        gs.append(g)
    atg = quiet(AlignedTextGrid, gs)
    names = sorted({n for s in spec for n in s})
    nm = names[sx.choose("n", len(names))]
    gone = [f"spk{k}" for k, s in enumerate(spec) if s == (nm,)]
    _, ms = heard(lambda: atg.pop_class(nm))
    said = about(ms, "removed")
    sx.check(len(said) == len(gone) and all(any(g in m for m in said) for g in gone), "each removed group is warned of, and only they", detail=str(ms))
    sx.check([g.name for g in atg] == [f"spk{k}" for k, s in enumerate(spec) if s != (nm,)], "the others stay")

def h_distance(sx, n):
    P, = custom_classes(["P"], points=[0])
    ts = times(sx, "p", n - 1, lo=None, strict=False)
    t = SequencePointTier([P((x, f"l{i}")) for i, x in enumerate(ts)])
    for i, p in enumerate(t):
        d, ms = heard(lambda: p.fol_distance)
        sx.check((d is None) == bool(ms) == (i == n - 1), "no following distance for the last point, and a warning, and only there")
        d, ms = heard(lambda: p.prev_distance)
        sx.check((d is None) == bool(ms) == (i == 0), "no previous distance for the first point, and a warning, and only there")

def h_point_ops(sx, k):
    """what a point cannot do is warned of and changes nothing"""
    P, = custom_classes(["P"], points=[0])
    t = SequencePointTier([P((sx.real("a"), "a")), P((sx.real("b"), "b"))])
    p, q = t
    snap = Snap([t])
    f = [lambda: q in p, lambda: p[0], lambda: p + q, lambda: p.append(q)][k]
    _, ms = heard(f)
    sx.check(len(ms) == 1, "what a point cannot do is warned of")
    snap.check(sx, "what a point cannot do")

def h_superset(sx, how):
    g = aligned_group(sx, "t", [2, 1])
    x = g[1][sx.choose("i", 3)]
    snap = Snap(g)
    if how == "none":
        _, ms = heard(lambda: x.set_super_instance())
        sx.check(len(ms) == 1, "no parent given: a warning")
    else:
        up = [u for u in g[0] if u is not x.super_instance][0]
        _, ms = heard(lambda: x.set_super_instance(up))
        sx.check(ms == [] and x.super_instance is up, "a parent given: no warning")
        return
    snap.check(sx, "no parent given")

def h_status(sx, k):
    lab = ["*", "]", "*?", "]?", "*]", "", "x", "H"][k]
    p = PrStr((sx.real("t"), lab))
    r, ms = heard(lambda: p.status)
    known = "*" in lab or "]" in lab
    sx.check(bool(ms) != known, "a label that is neither prominence nor edge is warned of, and only then")
    sx.check(r == ("prominence" if "*" in lab else "edge" if "]" in lab else lab), "prominence, edge, or the label")

def h_group_join(sx, shape, shape2, how):
    """joining groups: overlaps on any tier"""
    a = aligned_group(sx, "a", listify(shape))
    b = aligned_group(sx, "b", listify(shape2), cls=a.entry_classes)
    ta, tb = [list(t) for t in a], [list(t) for t in b]
    if how == "concat":
        _, ms = heard(lambda: a.concat(b))
        sx.check(ms == [], "one group after the other: nothing to warn of", detail=str(ms)[:200])
        return
    sx.assume(ta[0][-1].end <= tb[0][0].start)
    _, ms = heard(lambda: a + b)
    sx.check(ms == [], "one group after the other: nothing to warn of", detail=str(ms)[:200])

def instances(tier):
    th = tier == "thorough"
    out = []
    add = lambda nm, fn, **kw: out.append(Instance(nm, fn, kw))
    for how in ("list-add", "list-concat", "tier-add", "tier-concat"):
        for n, m in ((1, 1), (2, 1), (1, 2), (3, 1), (2, 2)) + (((3, 2), (4, 1)) if th else ()):
            add(f"overlap-{how}-{n}+{m}", h_overlap, n=n, m=m, how=how)
    for how in ("add", "concat"):
        add(f"points-{how}", h_points_quiet, n=2, m=2, how=how)
    for how in ("group", "atg", "edit"):
        for shape in ((1,), (2, 1), (1, 3, 2), ((1, 2), (1,)), DEEP, MANY):
            add(f"clean-{how}-{str(shape)[:24]}", h_clean, shape=shape, how=how)
    for how in ("nothing", "list", "group"):
        add(f"empty-{how}", h_empty, how=how)
    for n in (1, 2, 3) + ((4,) if th else ()):
        for p in (False, True):
            add(f"names-{n}-{p}", h_names, n=n, points=p)
        add(f"classes-{n}", h_classes, n=n)
    WP, T = ("Word", "Phone"), ("Tone",)
    for i, spec in enumerate([(WP,), (WP, WP), (WP, T), (WP, ("Word",)), (T, T), (("Phone", "Tone"), WP, T)]):
        add(f"byname-{i}", h_byname, spec=spec)
        add(f"pop-{i}", h_pop, spec=spec)
    for i, spec in enumerate([(("Word",), WP, ("Word",)), (("Word",), ("Tone",), WP), (("Word",),)]):
        add(f"pop-more-{i}", h_pop, spec=spec)
    for n in (1, 2, 3, 4):
        add(f"distance-{n}", h_distance, n=n)
    for k in range(4):
        add(f"point-{k}", h_point_ops, k=k)
    for how in ("none", "given"):
        add(f"superset-{how}", h_superset, how=how)
    for k in range(8):
        add(f"status-{k}", h_status, k=k)
    for how in ("concat", "add"):
        for i, (a, b) in enumerate((((1, 1), (1,)), ((2, 1), (1, 2)), (((1, 1),), ((1,), (1,))))):
            add(f"join-{how}-{i}", h_group_join, shape=a, shape2=b, how=how)
    return out
