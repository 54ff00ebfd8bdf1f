"""C09: joining sequences, tiers and groups keeps everything, shifted as a whole when concatenated."""
from harness.worlds import *

BOUNDS = ("sequence lists, interval tiers, point tiers with up to 4+4 entries and up to 2 children each; groups of up to 3 words + 3 words "
          "with up to 3 levels; point groups of up to 2 tiers; joined once or twice, inside and outside textgrids and tiers within groups, with entries of the same "
          "class or of a class derived from it")
ASSUMES = ["concatenated points come after time 0 (a point at 0 may coincide with the last point of the first tier)"]


def specs(sx, name, n, lo=0, over=False):
    if not over:
        return disjoint(sx, name, n, lo=lo)
    # in order of their starts, but they may overlap and contain one another
    out = []
    for i in range(n):
        s, e = sx.real(f"{name}s{i}"), sx.real(f"{name}e{i}")
        sx.assume(s >= 0) if not out else sx.assume(out[-1][0] < s)
        sx.assume(s < e)
        out.append((s, e, sx.label(f"{name}L{i}")))
    return out

def check_max(sx, end, xs, what):
    sx.check(conj(*[x.end <= end for x in xs]), what)
    sx.check(disj(*[eq(x.end, end) for x in xs]), what)

def after(sx, a, b):
    """b's entries start at or after a's end"""
    if a and b:
        sx.assume(b[0][0] >= a[-1][1])

def make(cls, raw, sub=None, sx=None, kids=0, nm=""):
    out = []
    for i, r in enumerate(raw):
        x = cls(r)
        if kids:
            m = [r[0]]
            for k in range(kids - 1):
                t = sx.real(f"{nm}m{i}_{k}")
                sx.assume(m[-1] < t)
                sx.assume(t < r[1])
                m.append(t)
            m.append(r[1])
            for k in range(kids):
                x.append(sub((m[k], m[k + 1], sx.label(f"{nm}k{i}_{k}"))))
        out.append(x)
    return out

def record(xs):
    """(object, start, end, label, [children records])"""
    return [(x, x.start, getattr(x, "end", None), x.label, record(list(getattr(x, "subset_list", [])))) for x in xs]

def check_rec(sx, recs, by, what):
    for x, s, e, l, kids in recs:
        sx.check(eq(x.start, s + by), f"{what}: starts")
        if e is not None:
            sx.check(eq(x.end, e + by), f"{what}: ends")
        sx.check(eq(x.label, l), f"{what}: labels")
        same_objects(sx, getattr(x, "subset_list", []), [k[0] for k in kids], f"{what}: children")
        check_rec(sx, kids, by, what)

def pspecs(sx, name, n):
    out = []
    for i in range(n):
        t = sx.real(f"{name}{i}")
        sx.assume(t > (out[-1][0] if out else 0))
        out.append((t, sx.label(f"{name}L{i}")))
    return out

# ---------------------------------------------------------------- sequence lists

def h_list(sx, n, m, kids, how, plain, over=False):
    W, P = custom_classes(["W", "P"])
    A = make(W, specs(sx, "a", n, over=over), P, sx, kids, "a")
    raw = specs(sx, "b", m, over=over)
    B = make(W, raw, P, sx, kids, "b")
    if how == "add":
        if A and B:
            for x in A if over else A[-1:]:
                sx.assume(B[0].start >= x.end)
    a = SequenceList(*A)
    ra, rb = record(A), record(B)
    end = A[-1].end if A else 0
    if over and how == "concat":
        # the end of a list is the latest end in it
        quiet(a.concat, list(B) if plain else SequenceList(*B))
        by = B[0].start - rb[0][1]
        same_objects(sx, a, A + B, "joined list has the entries of both, in order")
        check_max(sx, by, A, "concatenated entries move by the end of the first list")
        check_rec(sx, ra, 0, "the first part is as it was")
        check_rec(sx, rb, by, "the second part moved as a whole")
        return
    other = list(B) if plain else SequenceList(*B)
    if how == "concat":
        quiet(a.concat, other)
        got, by = a, end
    elif how == "add":
        got, by = quiet(lambda: a + other), 0
    else:
        got, by = a, None
        for x in B:
            quiet(a.append, x, shift=True)
    same_objects(sx, got, A + B, "joined list has the entries of both, in order")
    check_rec(sx, ra, 0, "the first part is as it was")
    if by is not None:
        check_rec(sx, rb, by, "the second part moved as a whole")
    else:
        off = end
        for r in rb:
            check_rec(sx, [r], off, "each appended entry moved by the end before it")
            off = off + r[2]
    same_labels(sx, got, A + B)

def same_labels(sx, got, want):
    sx.check(len(got.labels) == len(want), "labels")
    for a, b in zip(got.labels, want):
        sx.check(eq(a, b.label), "labels in order")

def h_points_list(sx, n, m, how):
    P, = custom_classes(["Pt"], points=[0])
    A = [P(r) for r in pspecs(sx, "a", n)]
    B = [P(r) for r in pspecs(sx, "b", m)]
    if how == "add" and A and B:
        sx.assume(B[0].time > A[-1].time)
    a = SequenceList(*A)
    ra, rb = record(A), record(B)
    end = A[-1].time if A else 0
    got, by = a, end
    if how == "concat":
        quiet(a.concat, SequenceList(*B))
    else:
        got, by = quiet(lambda: a + SequenceList(*B)), 0
    same_objects(sx, got, A + B, "joined points, in order")
    check_rec(sx, ra, 0, "first part"); check_rec(sx, rb, by, "second part")

# ---------------------------------------------------------------- tiers

def h_tier(sx, n, m, kids, how, derived, lower=False, points=False, over=False):
    if points:
        W, = custom_classes(["Pt"], points=[0])
        P = None
    else:
        W, P = custom_classes(["W", "P"])
    V = type(W.__name__, (W,), {}) if derived else W
    if points:
        A = [W(r) for r in pspecs(sx, "a", n)]
        B = [V(r) for r in pspecs(sx, "b", m)]
        T = SequencePointTier
    else:
        A = make(P if lower else W, specs(sx, "a", n, over=over), P, sx, kids, "a")
        B = make(P if lower else V, specs(sx, "b", m, over=over), P, sx, kids, "b")
        T = SequenceTier
    if how == "add":
        for x in A if over else A[-1:]:
            sx.assume(B[0].start >= x.end) if not points else sx.assume(B[0].time > x.time)
    t1, t2 = T(A), T(B)
    t1.name = "first"
    ra, rb = record(A), record(B)
    end = t1.xmax
    if over:
        check_max(sx, end, A, "the end of a tier is the latest end on it")
    if how == "concat":
        quiet(t1.concat, t2)
        got, by = t1, end
        sx.check(got.name == "first", "a concatenated tier keeps its name")
    else:
        got, by = quiet(lambda: t1 + t2), 0
        sx.check(isinstance(got, T), "tiers add to a tier")
    same_objects(sx, got, A + B, "joined tier has the entries of both, in order")
    check_rec(sx, ra, 0, "the first part is as it was")
    check_rec(sx, rb, by, "the second part moved as a whole")
    check_chain(sx, got)
    check_intier(sx, got)
    for x in got:
        sx.check(isinstance(x, got.entry_class), "entries are of the tier's class")
        sx.check(type(x) is type(got[0]), "all entries are of one class")
    if over:
        check_max(sx, got.xmax, list(got), "the joined tier spans both")
    else: sx.check(conj(eq(got.xmin, ra[0][1]), eq(got.xmax, (rb[-1][2] if not points else rb[-1][1]) + by)), "the joined tier spans both")

# ---------------------------------------------------------------- groups

def h_group(sx, shape, shape2, how, where, kind, times_=1):
    a = aligned_group(sx, "a", listify(shape), kind=kind)
    if where == "atg":
        atg = quiet(AlignedTextGrid, [a])
        a = atg[0]
        cls = classes(len(a), kind) if kind == "custom" else [Word, Phone]
    else:
        cls = a.entry_classes
    if where == "atg" and kind == "custom":
        cls = a.entry_classes
    for k in range(times_):
        b = aligned_group(sx, f"b{k}", listify(shape2), cls=cls)
        A, B = [list(t) for t in a], [list(t) for t in b]
        if how == "add":
            sx.assume(B[0][0].start >= A[0][-1].end)
        ra, rb = record(A[0]), record(B[0])
        end = a.xmax
        name, tnames = a.name, a.tier_names
        if how == "concat":
            quiet(a.concat, b)
            got, by = a, end
        else:
            got, by = quiet(lambda: a + b), 0
        sx.check(len(got) == len(A), "the joined group has the same tiers")
        for t, x, y in zip(got, A, B):
            same_objects(sx, t, x + y, "each tier has the entries of both, in order")
            check_intier(sx, t)
            for z in t:
                sx.check(isinstance(z, t.entry_class), "entries are of the tier's class")
        check_rec(sx, ra, 0, "the first part is as it was")
        check_rec(sx, rb, by, "the second part moved as a whole")
        check_strict(sx, got)
        check_group_chain(sx, got)
        check_within(sx, got if where != "atg" or how == "add" else atg)
        if how == "concat":
            sx.check(got.name == name and got.tier_names == tnames, "names are kept")
            same_objects(sx, got, list(a), "the tiers are the same")
        a = got

def h_in_group(sx, shape, shape2, k, where, src, times_=1):
    """a tier concatenated to, or added to, a tier of a group: what its entries contain goes to the tiers below"""
    a = aligned_group(sx, "a", listify(shape))
    atg = None
    if where == "atg":
        atg = quiet(AlignedTextGrid, [a])
        a = atg[0]
    for r in range(times_):
        if isinstance(shape2, int):
            b = quiet(TierGroup, [SequenceTier([a.entry_classes[k](x) for x in disjoint(sx, f"b{r}", shape2, lo=0)])])
        else:
            b = aligned_group(sx, f"b{r}", listify(shape2), cls=a.entry_classes[k:])
        A, B = [list(t) for t in a], [list(t) for t in b]
        tier = b[0]
        if src == "loose":                 # no group around it
            tier = SequenceTier(list(tier))
        ra, rb = [record(t) for t in A], record(B[0])
        parents = [[x.super_instance for x in t] for t in A]
        by = a[k].xmax
        name, tnames = a.name, a.tier_names
        quiet(a[k].concat, tier)
        sx.check(len(a) == len(A) and a.name == name and a.tier_names == tnames, "tiers and names are kept")
        for t, x, y in zip(a, A, [[]] * k + B):
            same_objects(sx, t, x + y, "each tier has the entries of both, in order")
            check_intier(sx, t)
            for z in t:
                sx.check(type(z) is t.entry_class, "entries are of the tier's class")
        for x in ra:
            check_rec(sx, x, 0, "the first part is as it was")
        for t, ps in zip(A, parents):
            for x, y in zip(t, ps):
                sx.check(x.super_instance is y, "the first part keeps its parents")
        check_rec(sx, rb, by, "the second part moved as a whole")
        for x in B[0]:
            sx.check(x.super_instance is None, "the new entries are beyond the entries above")
        check_strict(sx, a, complete=k == 0)
        check_group_chain(sx, a)
        if k == 0:
            check_within(sx, a if where == "group" else atg)

def h_points_group(sx, n, m, how, k):
    cls = custom_classes(["PA", "PB", "PC"][:k], points=list(range(k)))
    A = [[c(r) for r in pspecs(sx, f"a{j}_", n)] for j, c in enumerate(cls)]
    B = [[c(r) for r in pspecs(sx, f"b{j}_", m)] for j, c in enumerate(cls)]
    if how == "add":
        for x, y in zip(A, B):
            sx.assume(y[0].time > x[-1].time)
    a = PointsGroup([SequencePointTier(x) for x in A])
    b = PointsGroup([SequencePointTier(x) for x in B])
    ra, rb = [record(x) for x in A], [record(x) for x in B]
    end = a.xmax
    if how == "concat":
        quiet(a.concat, b)
        got, by = a, end
    else:
        got, by = quiet(lambda: a + b), 0
    for t, x, y, p, q in zip(got, A, B, ra, rb):
        same_objects(sx, t, x + y, "each point tier has the points of both, in order")
        check_rec(sx, p, 0, "first part"); check_rec(sx, q, by, "second part")
        check_chain(sx, t)
        check_intier(sx, t)
    sx.check(conj(*[end >= x[-1].time for x in A]), "shifted by the end of the whole group")

def h_points_empty(sx, ns, ms):
    """some tiers of either group are empty"""
    cls = custom_classes(["PA", "PB"], points=[0, 1])
    A = [[c(r) for r in pspecs(sx, f"a{j}_", n)] if n else [] for j, (c, n) in enumerate(zip(cls, ns))]
    B = [[c(r) for r in pspecs(sx, f"b{j}_", n)] if n else [] for j, (c, n) in enumerate(zip(cls, ms))]
    a = PointsGroup([SequencePointTier(x, entry_class=c) for x, c in zip(A, cls)])
    b = PointsGroup([SequencePointTier(x, entry_class=c) for x, c in zip(B, cls)])
    ra, rb = [record(x) for x in A], [record(x) for x in B]
    by = a.xmax if any(ns) else 0
    quiet(a.concat, b)
    for t, x, y, p, q in zip(a, A, B, ra, rb):
        same_objects(sx, t, x + y, "each point tier has the points of both, in order")
        check_rec(sx, p, 0, "first part"); check_rec(sx, q, by, "second part")
        check_chain(sx, t)
        check_intier(sx, t)

def h_refused(sx, how):
    """joining different classes is refused and changes nothing"""
    W, P = custom_classes(["W", "P"])
    V, Q = custom_classes(["V", "Q"])
    A = make(W, specs(sx, "a", 2), P, sx, 2, "a")
    B = make(V, specs(sx, "b", 2), Q, sx, 1, "b")
    t1, t2 = SequenceTier(A), SequenceTier(B)
    g1 = quiet(TierGroup, [t1, SequenceTier([k for x in A for k in x.subset_list])])
    g2 = quiet(TierGroup, [t2, SequenceTier([k for x in B for k in x.subset_list])])
    snap = Snap(list(g1) + list(g2))
    raised = False
    try:
        if how == "tier-concat": quiet(g1[0].concat, g2[0])
        if how == "tier-add": quiet(lambda: g1[0] + g2[0])
        if how == "levels-concat": quiet(g1[0].concat, g1[1])
        if how == "levels-add": quiet(lambda: g1[0] + g1[1])
        if how == "group-concat": quiet(g1.concat, g2)
        if how == "group-add": quiet(lambda: g1 + g2)
        if how == "tier-append": quiet(g1[0].append, g2[0][0])
        if how == "tier-append-tier": quiet(g1[0].append, g2[0])
        if how == "list-append": g1[0].sequence_list.append(g1[1][0])
        if how == "list-add": quiet(lambda: g1[0].sequence_list + g1[1].sequence_list)
    except Exception:
        raised = True
    sx.check(raised, "joining entries of different classes is refused")
    snap.check(sx, "refused")

def instances(tier):
    th = tier == "thorough"
    out = []
    add = lambda name, fn, **kw: out.append(Instance(name, fn, kw))
    for n, m in ((0, 2), (1, 1), (2, 2), (3, 2), (4, 4)):
        for kids in (0, 2):
            for how in ("concat", "add", "append"):
                for plain in (False, True):
                    if how == "append" and (n == 4 or plain): continue
                    add(f"list-{n}+{m}-kids{kids}-{how}-{'plain' if plain else 'seq'}", h_list, n=n, m=m, kids=kids, how=how, plain=plain)
        for how in ("concat", "add"):
            add(f"points-list-{n}+{m}-{how}", h_points_list, n=n, m=m, how=how)
    for n, m in ((1, 1), (2, 2), (3, 3)) + (((5, 5),) if th else ()):
        for how in ("concat", "add"):
            for derived in (False, True):
                d = "derived" if derived else "same"
                for kids in (0, 2):
                    add(f"tier-{n}+{m}-kids{kids}-{how}-{d}", h_tier, n=n, m=m, kids=kids, how=how, derived=derived)
                add(f"tier-points-{n}+{m}-{how}-{d}", h_tier, n=n, m=m, kids=0, how=how, derived=derived, points=True)
            add(f"tier-lower-{n}+{m}-{how}", h_tier, n=n, m=m, kids=0, how=how, derived=False, lower=True)
    for nm, s1, s2 in (("one", (1,), (1,)), ("small", (2, 1), (1, 2)), ("wide", (1, 2, 1), (2, 1, 1)), ("deep", ((1, 2), (1,)), ((2,), (1, 1)))) + (
            (("wider", WIDE, (2, 1, 2)), ("deeper", (((1, 1), (2,)),), (((1,), (1, 1)),))) if th else ()):
        for how in ("concat", "add"):
            for where in ("group", "atg"):
                for kind in ("custom", "wp") if nm != "deep" and nm != "deeper" else ("custom",):
                    if kind == "wp" and where == "atg" and how == "add" and False: continue
                    add(f"group-{nm}-{how}-{where}-{kind}", h_group, shape=s1, shape2=s2, how=how, where=where, kind=kind)
    for how in ("concat", "add"):
        add(f"group-twice-{how}", h_group, shape=(1, 2), shape2=(1,), how=how, where="group", kind="custom", times_=2)
        add(f"group-twice-{how}-atg", h_group, shape=(2,), shape2=(1, 1), how=how, where="atg", kind="custom", times_=2)
        for n, m, k in ((1, 1, 1), (2, 2, 2), (1, 2, 3)):
            add(f"points-group-{n}+{m}x{k}-{how}", h_points_group, n=n, m=m, how=how, k=k)
    for how in ("tier-concat", "tier-add", "levels-concat", "levels-add", "group-concat", "group-add", "tier-append", "tier-append-tier",
                "list-append", "list-add"):
        add(f"refused-{how}", h_refused, how=how)
    for n, m in ((2, 1), (2, 2), (3, 2)) + (((4, 3), (5, 2)) if th else ()):
        for how in ("concat", "add"):
            add(f"tier-over-{n}+{m}-{how}", h_tier, n=n, m=m, kids=2 if n == 2 else 0, how=how, derived=False, over=True)
            for plain in (False, True):
                add(f"list-over-{n}+{m}-{how}-{'plain' if plain else 'seq'}", h_list, n=n, m=m, kids=0, how=how, plain=plain, over=True)
    for how in ("concat", "add"):
        add(f"group-many-{how}", h_group, shape=MANY, shape2=MANY, how=how, where="atg", kind="custom")
        add(f"list-many-{how}", h_list, n=12, m=11, kids=0, how=how, plain=False)
    for nm, s1, s2, k in (("small", (2, 1), (1, 2), 0), ("three", (1, 3), (3, 1), 0), ("deep", ((1, 2), (1,)), ((2,), (1, 1)), 0), ("low", (2, 1), 2, 1), ("mid", ((1, 2), (1,)), (2, 1), 1), ("lowest", ((1, 2), (1,)), 3, 2)):
        for where in ("group", "atg"):
            for src in ("loose", "group"):
                add(f"in-group-{nm}-{where}-{src}", h_in_group, shape=s1, shape2=s2, k=k, where=where, src=src)
            if nm in ("small", "deep", "low"):
                add(f"in-group-{nm}-{where}-twice", h_in_group, shape=s1, shape2=s2, k=k, where=where, src="loose", times_=2)
    for ns, ms in (((0, 0), (1, 2)), ((0, 2), (1, 1)), ((2, 0), (0, 1)), ((1, 1), (0, 2)), ((0, 1), (0, 1))):
        add(f"points-empty-{ns}-{ms}", h_points_empty, ns=ns, ms=ms)
    return out
