"""C12: data frames."""
from harness.worlds import *
from aligned_textgrid.outputs.to_dataframe import to_df

BOUNDS = ("intervals, points, tiers, groups and textgrids of up to 6 words / 10 phones / 3 levels with up to 2 interval groups and 1 points group, "
          "with and without subsets; children missing on any level; after every operation")
ASSUMES = ["the data frame library only carries the values (tokens stand for symbolic cells)"]
ATT = ["id", "tier_index", "label", "start", "end"]


def cells(x, prefix=""):
    d = {prefix + "id": x.id, prefix + "tier_index": x.tier_index, prefix + "label": x.label, prefix + "start": x.start}
    if hasattr(x, "end"):
        d[prefix + "end"] = x.end
    return d

def rows_sub(x):
    """one row per lowest descendant, carrying every interval above it"""
    own = cells(x, type(x).__name__ + "_")
    kids = list(x.subset_list)
    if not kids:
        return [own]
    return [{**own, **r} for k in kids for r in rows_sub(k)]

def rows_entry(x):
    return [{**cells(x), "entry_class": type(x).__name__}]

def rows_of(obj, sub):
    if isinstance(obj, SequencePoint):
        return rows_entry(obj)
    if isinstance(obj, SequenceInterval):
        return rows_sub(obj) if sub else rows_entry(obj)
    if isinstance(obj, (SequenceTier, SequencePointTier)):
        return [r for x in obj for r in rows_of(x, sub)]
    if isinstance(obj, TierGroup):
        return [{**r, "name": obj.name} for t in ([obj[0]] if sub else obj) for r in rows_of(t, sub)]
    if isinstance(obj, PointsGroup):
        return [{**r, "name": obj.name} for t in obj for r in rows_of(t, sub)]
    return [r for g in obj for r in rows_of(g, sub)]

def check_df(sx, obj, sub=True, default=False):
    want = rows_of(obj, sub)
    df = quiet(to_df, obj) if default else quiet(to_df, obj, with_subset=sub)
    got = df.to_dicts()
    cols = []
    for r in want:
        cols += [c for c in r if c not in cols]
    if not want:
        return sx.check(len(got) == 0, "no rows without entries")
    sx.check(sorted(df.columns) == sorted(cols), "the columns are those of the entries", detail=f"{df.columns} {cols}")
    sx.check(len(got) == len(want), "one row per lowest interval, or per entry", detail=f"{len(got)} {len(want)}")
    for g, w in zip(got, want):
        for c in cols:
            v = sx.read(g[c])
            if c not in w:
                sx.check(v is None, "nothing is filled in where there is no entry", detail=c)
            elif w[c] is None or isinstance(w[c], int):
                sx.check(v == w[c], "indices are those of the entry", detail=f"{c} {v} {w[c]}")
            else:
                sx.check(eq(v, w[c]), "every cell is the entry's", detail=f"{c} {v} {w[c]}")

def everything(sx, root):
    """the textgrid, its groups, tiers, and entries, both ways"""
    for sub in (True, False):
        check_df(sx, root, sub)
        for g in root if isinstance(root, AlignedTextGrid) else []:
            check_df(sx, g, sub)
        gs = list(root) if isinstance(root, AlignedTextGrid) else [root]
        for g in gs:
            for t in g:
                check_df(sx, t, sub)
    check_df(sx, root, default=True)
    g = gs[sx.choose("g", len(gs))]
    t = g[sx.choose("t", len(g))]
    if len(t) == 0:
        return
    n = len(t)
    x = t[sx.choose("x", n) if n < 9 else (0, 1, n // 2, n - 1)[sx.choose("x", 4)]]
    check_df(sx, x, True)
    check_df(sx, x, False)
    check_df(sx, x, default=True)

def points_group(sx, ns):
    cl = custom_classes(["Peak", "Valley"][:len(ns)], points=list(range(len(ns))))
    ts = []
    memo = {}
    def times_(k):
        if k not in memo:
            memo[k] = times(sx, f"p{k}_", ns[k] - 1, lo=None)
        return memo[k]
    for k, (c, n) in enumerate(zip(cl, ns)):
        ts.append(SequencePointTier([c(((sx.real(f"p{k}_{i}") if n < 9 else times_(k)[i]), sx.label(f"pL{k}_{i}"))) for i in range(n)], entry_class=c))
    return PointsGroup(ts)

def h_atg(sx, shapes, points=(), pfirst=False, kind="custom", other=()):
    groups = []
    for k, s in enumerate(shapes):
        cls = custom_classes(other) if other and k else None
        groups.append(aligned_group(sx, f"g{k}_", listify(s), kind=kind, cls=cls))
    if points:
        groups.insert(0 if pfirst else len(groups), points_group(sx, points))
    atg = quiet(AlignedTextGrid, groups)
    everything(sx, atg)

def h_group(sx, shape):
    everything(sx, aligned_group(sx, "t", listify(shape)))

def h_points(sx, ns):
    everything(sx, points_group(sx, ns))

def h_free(sx, kids, which):
    """intervals outside tiers, children of differing depth"""
    A, B, C = custom_classes(["A", "B", "C"])
    mk = lambda c, n: c((sx.real(n + "s"), sx.real(n + "e"), sx.label(n + "L")))
    a = mk(A, "a")
    prev = None
    for i, n in enumerate(kids):
        b = mk(B, f"b{i}")
        if prev is not None:
            sx.assume(prev < b.start)
        prev = b.start
        a.append(b)
        p2 = None
        for j in range(n):
            c = mk(C, f"c{i}_{j}")
            if p2 is not None:
                sx.assume(p2 < c.start)
            p2 = c.start
            b.append(c)
    obj = {"root": a, "mid": a[0] if len(a) else a}[which]
    check_df(sx, obj, True)
    check_df(sx, obj, False)
    check_df(sx, obj, default=True)

def h_int(sx, what):
    """whole-number times next to others"""
    s = sx.real("s")
    sx.assume(s > 1)
    W, P = custom_classes(["W", "P"])
    ws = [W((0, 1, sx.label("a"))), W((1, s, sx.label("b")))]
    ps = [P((0, 1, sx.label("c"))), P((1, s, sx.label("d")))]
    t = [SequenceTier(ws), SequenceTier(ps)]
    if what == "tier":
        check_df(sx, t[0], True); check_df(sx, t[0], False)
        return
    g = quiet(TierGroup, t)
    check_df(sx, g, True); check_df(sx, g, False)

def h_kind(sx, k):
    """anything else is refused"""
    bad = [1, "x", None, [SequenceInterval((0, 1, "a"))], SequenceList(SequenceInterval((0, 1, "a")))][k]
    try:
        to_df(bad)
    except ValueError:
        return sx.check(True, "refused")
    sx.check(False, "anything but a textgrid object is refused")

def h_ops(sx, ops, shape, **kw):
    w = run_ops(sx, ops, shape, (), **kw)
    if any(len(t) == 0 for g in w.groups for t in g):
        return
    # entries of one tier at differing depths: the rows still are the chains
    for sub in (True, False):
        check_df(sx, w.atg if w.atg is not None else w.groups[0], sub)

def instances(tier):
    th = tier == "thorough"
    out = []
    add = lambda nm, fn, **kw: out.append(Instance(nm, fn, kw))
    add("atg-one", h_atg, shapes=[(2, 1)])
    add("atg-wp", h_atg, shapes=[(1, 2)], kind="wp")
    add("atg-two", h_atg, shapes=[(2, 1), (1, 3)])
    add("atg-deep", h_atg, shapes=[DEEP])
    add("atg-mixed", h_atg, shapes=[((1, 2), (1,)), (2, 1)], other=["Phrase", "Tone"])
    add("atg-wide", h_atg, shapes=[WIDE])
    add("atg-points", h_atg, shapes=[(2, 1)], points=(2, 1))
    add("atg-points-first", h_atg, shapes=[(1, 1)], points=(1, 2), pfirst=True)
    add("group", h_group, shape=(3, 1))
    add("group-deep", h_group, shape=((1,), (2, 1)))
    add("atg-points-empty", h_atg, shapes=[(1, 1)], points=(0, 2))
    add("atg-points-empty-first", h_atg, shapes=[(1, 1)], points=(1, 0), pfirst=True)
    for ns in ((1,), (2,), (2, 3), (0,), (0, 2), (1, 0)):
        add(f"points-{'x'.join(map(str, ns))}", h_points, ns=ns)
    for kids in ((), (0,), (1,), (0, 0), (1, 0), (0, 2), (2, 1), (1, 0, 2)):
        for which in ("root", "mid"):
            add(f"free-{'x'.join(map(str, kids))}-{which}", h_free, kids=kids, which=which)
    for what in ("tier", "group"):
        add(f"int-{what}", h_int, what=what)
    add("atg-many", h_atg, shapes=[MANY])
    add("group-many", h_group, shape=MANYDEEP)
    add("points-many", h_points, ns=(12,))
    add("atg-empty", h_atg, shapes=[(1, 2), "empty2"])
    add("atg-empty-first", h_atg, shapes=["empty2", (1, 2)])
    add("atg-three", h_atg, shapes=[(1, 1), (2,), (1,)], points=(1,))
    for k in range(5):
        add(f"kind-{k}", h_kind, k=k)
    out += op_instances(h_ops, tier, pairs=th, local=th)
    return out
