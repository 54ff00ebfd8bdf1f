"""C08: shifting moves every time exactly once by the increment and nothing else."""
from harness.worlds import *

BOUNDS = ("textgrids and groups with up to 6 words / 10 phones / 3 levels, up to 3 groups, point groups of up to 2 tiers x 3 points, any "
          "increment, two shifts in a row and a shift back; after every structural operation")
ASSUMES = []


def all_groups(w):
    return list(w.atg) if w.atg is not None else w.groups + w.pgroups

def tiers_of(w):
    return [t for g in all_groups(w) for t in g]

def times_of(w):
    out = []
    for t in tiers_of(w):
        for x in t:
            out.append((x, x.start, getattr(x, "end", None)))
    return out

def check_moved(sx, before, by, what):
    for x, s, e in before:
        sx.check(eq(x.start, s + by), f"{what}: every start moved by the increment")
        if e is not None:
            sx.check(eq(x.end, e + by), f"{what}: every end moved by the increment")

def shift_check(sx, w, root, back):
    ts = tiers_of(w)
    snap = Snap(ts)
    before = times_of(w)
    views = [(t, t.xmin, t.xmax) for t in ts if len(t)]
    by = sx.real("by")
    quiet(root.shift, by)
    check_moved(sx, before, by, "shift")
    everything = [e[0] for e in snap.objs.values()]
    def rest(what):
        for x, s, e, l, sup, sub, fol, prev, intier in snap.objs.values():
            sx.check(eq(x.label, l), f"{what}: labels are kept")
        snap.check(sx, what, times=everything)
    rest("shift")
    for t, a, b in views:
        sx.check(conj(eq(t.xmin, a + by), eq(t.xmax, b + by)), "the extent moves along")
    if back == "back":
        quiet(root.shift, -by)
        check_moved(sx, before, 0, "shifting back restores")
    elif back == "again":
        by2 = sx.real("by2")
        quiet(root.shift, by2)
        check_moved(sx, before, by + by2, "two shifts add up")
    rest("shift twice")

def h_world(sx, shape, atg, back, gaps=False, kind="custom", pre=None):
    w = world(sx, shape, kind=kind, atg=atg, gaps=gaps)
    if pre:
        OPS[pre](Scoped(sx, "p"), w)
    shift_check(sx, w, w.atg if w.atg is not None else w.groups[0], back)

def h_mixed(sx, groups, back, how):
    """textgrids of interval groups and point groups"""
    gs = []
    for k, g in enumerate(groups):
        if isinstance(g, int):
            cls = custom_classes(["PA", "PB"][:g] if k == 0 else [f"PC{k}", f"PD{k}"][:g], points=list(range(g)))
            tiers = []
            for j, c in enumerate(cls):
                raw = [sx.real(f"p{k}_{j}_{i}") for i in range(2)]
                sx.assume(raw[0] < raw[1])
                tiers.append(SequencePointTier([c((r, sx.label(f"p{k}L{j}{i}"))) for i, r in enumerate(raw)]))
            gs.append(PointsGroup(tiers))
        else:
            lv = aligned_specs(sx, f"g{k}_", listify(g))
            cls = custom_classes([f"W{k}", f"P{k}", f"Q{k}"][:len(lv)])
            gs.append(quiet(TierGroup, [SequenceTier([c(t) for t in l], **({} if l else {"entry_class": c})) for c, l in zip(cls, lv)]))
    w = World()
    if how == "atg":
        w.atg = quiet(AlignedTextGrid, gs)
        shift_check(sx, w, w.atg, back)
    else:
        # shifting one group leaves the others alone
        atg = quiet(AlignedTextGrid, gs)
        i = sx.choose("g", len(atg))
        others = [t for j, g in enumerate(atg) if j != i for t in g]
        snap = Snap(others)
        w.groups = [atg[i]]
        shift_check(sx, w, atg[i], back)
        snap.check(sx, "other groups")

def h_int(sx, points, how):
    """times given as integers, shifted by anything"""
    by = sx.real("by")
    W, P = classes(2)
    if points:
        g = PointsGroup([SequencePointTier([SequencePoint((k, sx.label(f"p{k}"))) for k in (0, 1, 3)])])
    else:
        g = quiet(TierGroup, [SequenceTier([W((0, 2, sx.label("w0"))), W((2, 3, sx.label("w1")))]), SequenceTier([P((k, k + 1, sx.label(f"q{k}"))) for k in range(3)])])
    root = quiet(AlignedTextGrid, [g]) if how == "atg" else g
    w = World()
    w.groups = list(root) if how == "atg" else [g]
    shift_check(sx, w, root, "back")

def instances(tier):
    th = tier == "thorough"
    out = []
    add = lambda name, fn, **kw: out.append(Instance(name, fn, kw))
    for points in (False, True):
        for how in ("atg", "group"):
            add(f"int-{points}-{how}", h_int, points=points, how=how)
    for back in ("back", "again"):
        for nm, shape in (("one", (1,)), ("small", (2, 1, 2)), ("wide", WIDE), ("deep", DEEP)) + (
                (("wider", (2, 3, 1, 3, 2, 1, 2)), ("deeper", (((1, 1), (2,)), ((1,), (1, 1))))) if th else ()):
            for atg in (True, False):
                add(f"{nm}-{'atg' if atg else 'group'}-{back}", h_world, shape=shape, atg=atg, back=back)
        for nm, shape in (("many", MANY), ("manydeep", MANYDEEP)):
            add(f"{nm}-{back}", h_world, shape=shape, atg=True, back=back)
        add(f"lower-{back}", h_world, shape=DEEP, atg=False, back=back, kind="lower")
        add(f"gaps-{back}", h_world, shape=(1, 2, 1), atg=True, back=back, gaps=True)
        add(f"wp-{back}", h_world, shape=(1, 2, 1), atg=True, back=back, kind="wp")
        for nm, gs in (("two", ((1, 1), (1,))), ("points", ((1,), 2, (1, 1))), ("points-first", (2, (2,))), ("only-points", (1,)),
                       ("points-two", (2, 1)), ("deep", (((1,), (1,)), (2,), 1)),
                       ("empty", ((1, 1), "empty2")), ("empty-first", ("empty1", (1,), 2))):
            for how in ("atg", "one"):
                add(f"mixed-{nm}-{how}-{back}", h_mixed, groups=gs, back=back, how=how)
        for op in OPS:
            if op != "none":
                add(f"after-{op}-{back}", h_world, shape=(2, 1), atg=True, back=back, pre=op)
                add(f"after-{op}-deep-{back}", h_world, shape=DEEP, atg=True, back=back, pre=op)
    return out
