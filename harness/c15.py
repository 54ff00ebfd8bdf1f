"""C15: addresses."""
from harness.worlds import *

BOUNDS = ("textgrids, groups, tiers and free-standing hierarchies of up to 3 groups, 6 words / 10 phones / 3 levels, points groups; after each of "
          "32 operations and after pairs of operations; relative positions from -7 to 7")
ASSUMES = ["no two entries of one list agree in time(s) and label"]


def check_tierwise(sx, t, reach):
    xs = list(t)
    for i, x in enumerate(xs):
        sx.check(x.intier is t and x.tier_index == i, "an entry knows its tier and its place on it")
        sx.check(x.get_tierwise() is x, "the entry itself is at relative position 0")
        for k in range(-reach, reach + 1):
            if 0 <= i + k < len(xs):
                sx.check(x.get_tierwise(k) is xs[i + k], "relative positions are positions on the tier")
            else:
                try:
                    y = x.get_tierwise(k)
                except IndexError:
                    continue
                sx.check(False, "there is nothing before the first and after the last entry", detail=f"{i} {k}")

def follow(root, path):
    """indexing step by step along a path"""
    for k in path:
        root = root[k]
    return root

def check_address(sx, root, x, seen):
    path = list(x.within_path)
    sx.check(x.id == "-".join(str(p) for p in path), "the id spells the path")
    if path:
        sx.check(x.within_index == path[-1], "the last step of the path is the place in the container")
        sx.check(x.within.contains[path[-1]] is x, "the container contains it there")
    sx.check(follow(root, path) is x, "following the path leads there")
    if x is not root:
        sx.check(x.id not in seen, "no two objects have the same id", detail=x.id)
        seen.add(x.id)

def check_root(sx, root, complete=True):
    """every address below a textgrid or group"""
    seen = set()
    check_within(sx, root)
    sx.check(list(root.within_path) == [] and root.id == "", "the outermost object has an empty path")
    gs = list(root) if isinstance(root, AlignedTextGrid) else [root]
    if isinstance(root, AlignedTextGrid):
        same_objects(sx, root.contains, gs, "a textgrid contains its groups")
        names = [g.name for g in gs]
    for gi, g in enumerate(gs):
        if g is not root:
            sx.check(g.within is root and g.within_index == gi, "a group is within its textgrid")
            check_address(sx, root, g, seen)
            if len(set(names)) == len(names):
                sx.check(getattr(root, g.name, None) is g, "a group is found by its name")
        same_objects(sx, g.contains, list(g), "a group contains its tiers")
        for ti, t in enumerate(g):
            sx.check(t.within is g and t.within_index == ti, "a tier is within its group")
            check_address(sx, root, t, seen)
            if len({c.__name__ for c in g.entry_classes}) == len(g):
                sx.check(getattr(g, t.entry_class.__name__, None) is t, "a tier is found by the name of its class")
            pt = isinstance(t, SequencePointTier)
            if pt or ti == 0:
                same_objects(sx, t.contains, list(t), "a tier contains its entries")
            else:
                sx.check(list(t.contains) == [], "a lower tier leaves its entries to their parents")
            for i, x in enumerate(t):
                if pt or ti == 0:
                    sx.check(x.within is t and x.within_index == i, "an entry is within its tier")
                else:
                    sx.check(x.within is x.super_instance, "an interval is within its parent")
                    if x.super_instance is None:
                        sx.check(x.within_index is None, "an interval without a parent is nowhere")
                        continue
                if not pt:
                    same_objects(sx, x.contains, list(x.subset_list), "an interval contains its children")
                up = x
                while up.within is not None and up is not root:
                    up = up.within
                if up is root:
                    check_address(sx, root, x, seen)

def check_lists(sx, root):
    """indexing with a list takes one entry per tier"""
    gs = list(root) if isinstance(root, AlignedTextGrid) else [root]
    for g in gs:
        idx = [sx.choose(f"x{gs.index(g)}{i}", len(t)) if len(t) else 0 for i, t in enumerate(g)]
        if any(len(t) == 0 for t in g):
            return
        same_objects(sx, g[idx], [t[i] for t, i in zip(g, idx)], "indexing with a list takes one entry per tier")
        for bad in (idx + [0], idx[:-1]):
            try:
                g[bad]
            except Exception:
                continue
            sx.check(False, "an index list of another length is refused")
    if isinstance(root, AlignedTextGrid):
        pick = [len(g) - 1 for g in root]
        same_objects(sx, root[pick], [g[i] for g, i in zip(root, pick)], "indexing with a list takes one tier per group")
        for bad in (pick + [0], pick[:-1]):
            try:
                root[bad]
            except Exception:
                continue
            sx.check(False, "an index list of another length is refused")

def h_ops(sx, ops, shape, **kw):
    w = run_ops(sx, ops, shape, (), **kw)
    for t in all_tiers(w):
        check_tierwise(sx, t, 2)
    if any(len(t) == 0 for g in w.groups for t in g):
        return
    if w.atg is not None:
        check_root(sx, w.atg)
    else:
        for g in w.groups:
            check_root(sx, g)

def h_atg(sx, shapes, points=(), pfirst=False, lists=True, other=None):
    groups = []
    for k, s in enumerate(shapes):
        cls = custom_classes(list(other[k])) if other else None
        groups.append(aligned_group(sx, f"g{k}_", listify(s), cls=cls))
    if points:
        cl = custom_classes(["Peak", "Valley"][:len(points)], points=list(range(len(points))))
        ts = []
        for k, (c, n) in enumerate(zip(cl, points)):
            xs = [c((sx.real(f"p{k}_{i}"), sx.label(f"pL{k}_{i}"))) for i in range(n)]
            for a, b in zip(xs, xs[1:]):
                sx.assume(a.time < b.time)
            ts.append(SequencePointTier(xs))
        groups.insert(0 if pfirst else len(groups), PointsGroup(ts))
    atg = quiet(AlignedTextGrid, groups)
    check_root(sx, atg)
    for g in atg:
        for t in g:
            check_tierwise(sx, t, 7)
    if lists:
        check_lists(sx, atg)

def h_group(sx, shape):
    g = aligned_group(sx, "t", listify(shape))
    check_root(sx, g)
    check_lists(sx, g)

def h_tier_ties(sx, n, pt, sorted_):
    """entries of a lone tier that may be at the same time: they differ in their labels (and ends)"""
    cls = SequencePoint if pt else SequenceInterval
    ts = times(sx, "a", n - 1, lo=None, strict=False) if sorted_ else [sx.real(f"a{i}") for i in range(n)]
    if pt:
        xs = [cls((ts[i], f"l{i}")) for i in range(n)]
    else:
        xs = [cls((ts[i], sx.real(f"b{i}"), f"l{i}")) for i in range(n)]
    t = quiet(SequencePointTier if pt else SequenceTier, xs)
    same_set(sx, t, xs, "the tier has its entries")
    same_objects(sx, t.contains, list(t), "a tier contains its entries")
    for i, x in enumerate(t):
        sx.check(x.within is t and list(x.within_path) == [i] and x.id == str(i), "an entry is within its tier")
    check_tierwise(sx, t, n + 1)

def h_moved(sx, n, pt):
    """times changed after the fact: places stay"""
    cls = SequencePoint if pt else SequenceInterval
    xs = [cls((float(i), f"l{i}") if pt else (float(i), i + .5, f"l{i}")) for i in range(n)]
    t = quiet(SequencePointTier if pt else SequenceTier, xs)
    for i, x in enumerate(xs):
        if pt:
            x.time = sx.real(f"a{i}")
        else:
            x.start = sx.real(f"a{i}")
    same_objects(sx, t, xs, "the tier has its entries")
    for i, x in enumerate(t):
        sx.check(x.within is t and list(x.within_path) == [i] and x.id == str(i), "an entry is within its tier")
    check_tierwise(sx, t, n + 1)

def h_tier(sx, n, pt):
    """entries of a lone tier, in any order of times"""
    cls = SequencePoint if pt else SequenceInterval
    if pt:
        xs = [cls((sx.real(f"a{i}"), sx.label(f"L{i}"))) for i in range(n)]
    else:
        xs = [cls((sx.real(f"a{i}"), sx.real(f"b{i}"), sx.label(f"L{i}"))) for i in range(n)]
    for i in range(n):
        for j in range(i):
            sx.assume(~eq(xs[i].start, xs[j].start) if sx.symbolic else xs[i].start != xs[j].start)
    t = quiet(SequencePointTier if pt else SequenceTier, xs)
    same_set(sx, t, xs, "the tier has its entries")
    same_objects(sx, t.contains, list(t), "a tier contains its entries")
    for i, x in enumerate(t):
        sx.check(x.within is t and list(x.within_path) == [i] and x.id == str(i), "an entry is within its tier")
    check_tierwise(sx, t, n + 1)

def h_free(sx, kids):
    """a hierarchy outside tiers"""
    A, B, C = custom_classes(["A", "B", "C"])
    mk = lambda c, n: c((sx.real(n + "s"), sx.real(n + "e"), sx.label(n + "L")))
    a = mk(A, "a")
    prev = None
    for i, n in enumerate(kids):
        b = mk(B, f"b{i}")
        if prev is not None:
            sx.assume(prev < b.start)
        prev = b.start
        a.append(b)
        p2 = None
        for j in range(n):
            c = mk(C, f"c{i}_{j}")
            if p2 is not None:
                sx.assume(p2 < c.start)
            p2 = c.start
            b.append(c)
    seen = set()
    def walk(x, path):
        sx.check(list(x.within_path) == path and x.id == "-".join(map(str, path)), "the path of an interval outside tiers")
        sx.check(x.intier is None and x.tier_index is None and x.get_tierwise(0) is None, "an interval outside tiers has no place on one")
        same_objects(sx, x.contains, list(x.subset_list), "an interval contains its children")
        for i, c in enumerate(x.subset_list):
            sx.check(c.within is x, "a child is within its parent")
            walk(c, path + [i])
    walk(a, [])
    if len(a):
        b = a[sx.choose("drop", len(a))]
        [lambda: a.pop(b), lambda: a.remove_from_subset_list(b), lambda: b.remove_superset()][sx.choose("how", 3)]()
        sx.check(b.within is None, "a removed child is not within its former parent")
        walk(a, [])
        walk(b, [])

def h_popped(sx, shape, k):
    """an entry popped from its tier has no address there"""
    g = aligned_group(sx, "t", listify(shape))
    t = g[k]
    x = t[sx.choose("i", len(t))]
    kids = list(x.subset_list)
    quiet(t.pop, x)
    sx.check(x.intier is None and x.tier_index is None, "a popped entry is on no tier")
    sx.check(x.within is None and list(x.within_path) == [], "a popped entry is nowhere")
    if len(t):
        check_tierwise(sx, t, 2)

def instances(tier):
    th = tier == "thorough"
    out = []
    add = lambda nm, fn, **kw: out.append(Instance(nm, fn, kw))
    add("atg-one", h_atg, shapes=[(2, 1)])
    add("atg-two", h_atg, shapes=[(2, 1), (1, 2)])
    add("atg-deep", h_atg, shapes=[((2, 1), (1,))])
    add("atg-wide", h_atg, shapes=[WIDE], lists=False)
    add("atg-points", h_atg, shapes=[(2, 1)], points=(2, 3))
    add("atg-points-first", h_atg, shapes=[(1, 1)], points=(1,), pfirst=True)
    add("atg-other", h_atg, shapes=[(2, 1), ((1,), (1, 1))], other=[("Word", "Phone"), ("Phrase", "Foot", "Tone")])
    for s in ((2, 1), ((1, 2), (1,))):
        add(f"group-{len(s)}-{type(s[0]).__name__}", h_group, shape=s)
    for pt in (False, True):
        for n in range(1, 5 if th else 4):
            add(f"tier-{n}-{'p' if pt else 'i'}", h_tier, n=n, pt=pt)
            if n > 1:
                add(f"ties-{n}-{'p' if pt else 'i'}", h_tier_ties, n=n, pt=pt, sorted_=False)
        for n in (4, 5) + ((7,) if th else ()):
            add(f"ties-sorted-{n}-{'p' if pt else 'i'}", h_tier_ties, n=n, pt=pt, sorted_=True)
            add(f"moved-{n}-{'p' if pt else 'i'}", h_moved, n=n, pt=pt)
    add("atg-many", h_atg, shapes=[MANY, (1, 1)], lists=False)
    add("atg-points-many", h_atg, shapes=[(1, 1)], points=(12,), lists=False)
    for kids in ((), (0,), (2,), (1, 0, 2)):
        add(f"free-{'x'.join(map(str, kids))}", h_free, kids=kids)
    for shape in ((2, 1, 2), ((1, 2), (1,))):
        for k in range(3 if isinstance(shape[0], tuple) else 2):
            add(f"popped-{len(shape)}-{k}", h_popped, shape=shape, k=k)
    out += op_instances(h_ops, tier, pairs=True, local=th, skip=("replace_alike",), lower=False)
    return out
