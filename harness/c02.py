"""C02: following and previous entries."""
from harness.worlds import *
from harness.c01 import entries, distinct, tier_of

BOUNDS = ("free-standing lists of children and tiers of up to 4 entries in any order; point tiers of up to 4 points; groups of "
          "up to 6 words / 10 phones and up to 3 levels after each of 32 operations and after pairs of operations")
ASSUMES = ["no two entries of one list agree in time(s) and label"]


def h_ops(sx, ops, shape, **kw):
    run_ops(sx, ops, shape, (inv_chain, inv_types), **kw)

def free_chain(sx, seq, what):
    check_chain(sx, seq, what)
    xs = list(seq)
    for x in xs:
        sx.check(type(x.fol) is type(x) and type(x.prev) is type(x), f"{what}: neighbours have the same class")

def h_subset(sx, n, how):
    W, P = custom_classes(["W", "P"])
    raw, _ = entries(sx, n, False, cls=P)
    distinct(sx, raw)
    xs = [P(r) for r in raw]
    w = W((sx.real("ws"), sx.real("we"), sx.label("wL")))
    if how == "list":
        w.set_subset_list(xs)
    elif how == "assign":
        w.subset_list = xs
    elif how == "one":
        for x in xs:
            w.append_subset_list(x)
    elif how == "super":
        for x in xs:
            x.set_super_instance(w)
    elif how == "append":
        for x in xs:
            quiet(w.append, x)
    free_chain(sx, w.subset_list, "children")
    # and after one of them leaves
    i = sx.choose("i", n)
    x = list(w.subset_list)[i]
    [lambda: w.pop(x), lambda: w.remove_from_subset_list(x), lambda: x.remove_superset()][sx.choose("drop", 3)]()
    sx.check(len(w) == n - 1, "one child has left")
    free_chain(sx, w.subset_list, "remaining children")

def h_tier(sx, n, how, pt, lower=False):
    cls = custom_classes(["W", "P"])[1] if lower else (SequencePoint if pt else SequenceInterval)
    raw, _ = entries(sx, n, pt, cls=cls)
    distinct(sx, raw)
    xs = [cls(r) for r in raw]
    if how == "ctor":
        t = tier_of(xs, pt)
    elif how == "copy":
        t = tier_of(tier_of(xs, pt), pt)
    elif how == "append":
        t = tier_of(xs[:1], pt)
        for x in xs[1:]:
            quiet(t.append, x)
            free_chain(sx, t, "tier")
    elif how == "empty":
        t = tier_of([], pt, entry_class=cls)
        for x in xs:
            quiet(t.append, x)
    elif how == "add":
        t = quiet(lambda: tier_of(xs[:n - 1], pt) + tier_of(xs[n - 1:], pt))
    elif how == "assign":
        t = tier_of(xs[:1], pt)
        t.sequence_list = xs
    free_chain(sx, t, "tier")
    check_intier(sx, t)
    if not pt:
        i = sx.choose("i", n)
        t.pop(list(t)[i])
        free_chain(sx, t, "tier after a pop")

def h_manual(sx, pt, fol):
    """set_fol / set_prev link both ways"""
    raw, cls = entries(sx, 3, pt)
    a, b, c = [cls(r) for r in raw]
    sx.check(all(is_boundary(x.fol) and is_boundary(x.prev) for x in (a, b, c)), "a fresh entry has no neighbours")
    if fol:
        a.set_fol(b); b.set_fol(c)
    else:
        c.set_prev(b); b.set_prev(a)
    free_chain(sx, [a, b, c], "linked entries")
    b.set_final()
    sx.check(is_boundary(b.fol), "set_final: no following")
    b.set_initial()
    sx.check(is_boundary(b.prev), "set_initial: no previous")
    for x in (a, b):
        for f in (x.set_fol, x.set_prev):
            try:
                f(x)
                sx.check(False, "an entry cannot be its own neighbour")
            except Exception as e:
                sx.check(type(e) is Exception, "an entry cannot be its own neighbour")

def h_fuse_free(sx, n, right):
    """fusing entries linked by hand"""
    raw, cls = entries(sx, n, False)
    xs = [cls(r) for r in raw]
    for a, b in zip(xs, xs[1:]):
        a.set_fol(b)
    i = sx.choose("i", n - 1)
    if right:
        xs[i].fuse_rightwards()
        left = xs[:i + 1] + xs[i + 2:]
    else:
        xs[i + 1].fuse_leftwards()
        left = xs[:i] + xs[i + 1:]
    free_chain(sx, left, "fused chain")

def h_group_points(sx, n, how):
    a, b = custom_classes(["A", "B"], points=[0, 1])
    r1, _ = entries(sx, n, True, nm="x")
    r2, _ = entries(sx, n, True, nm="y")
    distinct(sx, r1); distinct(sx, r2)
    pg = PointsGroup([SequencePointTier([a(r) for r in r1]), SequencePointTier([b(r) for r in r2])])
    if how == "atg":
        pg = quiet(AlignedTextGrid, [pg])[0]
    elif how == "concat":
        q, _ = entries(sx, 1, True, nm="z", lo=0)
        q2, _ = entries(sx, 1, True, nm="u", lo=0)
        quiet(pg.concat, PointsGroup([SequencePointTier([a(q[0])]), SequencePointTier([b(q2[0])])]))
    elif how == "shift":
        pg.shift(sx.real("by"))
    elif how == "rerelate":
        pg.re_relate()
    for t in pg:
        free_chain(sx, t, "point tier")

def instances(tier):
    th = tier == "thorough"
    out = []
    for how in ("list", "assign", "one", "super", "append"):
        out.append(Instance(f"subset-{how}", h_subset, dict(n=4 if th and how == "list" else 3, how=how)))
    for pt in (False, True):
        p = "points" if pt else "intervals"
        for how in ("ctor", "copy", "append", "empty", "add", "assign"):
            out.append(Instance(f"tier-{how}-{p}", h_tier, dict(n=4 if th and how in ("ctor", "append") else 3, how=how, pt=pt)))
            if not pt:
                out.append(Instance(f"tier-{how}-lower", h_tier, dict(n=3, how=how, pt=pt, lower=True)))
        for fol in (True, False):
            out.append(Instance(f"manual-{p}-{'fol' if fol else 'prev'}", h_manual, dict(pt=pt, fol=fol)))
    for n in (2, 4):
        for right in (True, False):
            out.append(Instance(f"fuse-free-{n}-{'right' if right else 'left'}", h_fuse_free, dict(n=n, right=right)))
    for how in ("atg", "concat", "shift", "rerelate"):
        out.append(Instance(f"points-{how}", h_group_points, dict(n=2, how=how)))
    out += op_instances(h_ops, tier, local=True)
    return out
