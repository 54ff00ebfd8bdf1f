"""C04: relating tiers by maximal overlap; aligned data is left alone."""
from harness.worlds import *

BOUNDS = ("two tiers of up to 3 upper and 3 lower intervals with arbitrary, non-overlapping times on each tier (gaps allowed, both "
          "tiers independent); aligned hierarchies of up to 7 words, 12 phones and 3 levels; built as a group, from a textgrid "
          "or by appending to a textgrid, in any tier order, and related again")
ASSUMES = ["intervals of one tier do not overlap one another and have positive duration",
           "ties in overlap may go to either interval"]


def overlap_pos(c, u):
    """c and u (triples) overlap in more than a point"""
    return conj(c[0] < u[1], u[0] < c[1])

def overlap_ge(c, u, v):
    """overlap(c,u) >= overlap(c,v):  min(ce,ue)-max(cs,us) >= min(ce,ve)-max(cs,vs)
    for every lhs lower bound there is an rhs upper bound... written out:
    all combinations of the lhs terms dominate one combination of the rhs terms"""
    lhs = [e - s for e in (c[1], u[1]) for s in (c[0], u[0])]      # overlap(c,u) is the least of these
    rhs = [e - s for e in (c[1], v[1]) for s in (c[0], v[0])]
    return conj(*[disj(*[l >= r for r in rhs]) for l in lhs])

def check_parents(sx, U, L, us, ls, created_ok=False):
    """us/ls: the original triples of the objects U/L"""
    orig = {id(u) for u in U}
    for c, ct in zip(L, ls):
        p = c.super_instance
        if p is not None and id(p) in orig:
            k = [i for i, u in enumerate(U) if u is p][0]
            sx.check(overlap_pos(ct, us[k]), "a parent overlaps with its child")
            for j in range(len(U)):
                if j != k:
                    sx.check(overlap_ge(ct, us[k], us[j]), "no other interval overlaps more with the child than its parent")
            sx.check(len(ident_index(p.subset_list, c)) == 1, "the parent lists the child")
        else:
            none = conj(*[disj(ct[1] <= u[0], u[1] <= ct[0]) for u in us])
            sx.check(none, "only an interval that overlaps with no upper interval has no parent among them")
            if p is not None:
                sx.check(created_ok, "a parent is on the upper tier")

def build(sx, n, m, how):
    us = disjoint(sx, "u", n)
    ls = disjoint(sx, "l", m)
    W, P = custom_classes(["V", "W", "P"])[1:] if how == "lower" else custom_classes(["W", "P"])
    if how in ("group", "lower", "swapped", "again", "delayed"):
        U, L = [W(t) for t in us], [P(t) for t in ls]
        tiers = [SequenceTier(U), SequenceTier(L)]
        if how == "swapped":
            tiers = tiers[::-1]
        tg = quiet(TierGroup, tiers, **(dict(delay_cleanup=True) if how == "delayed" else {}))
        if how == "again":
            quiet(tg.re_relate)
        return us, ls, U, L, tg
    if how == "append":
        U, L = [W(t) for t in us], [P(t) for t in ls]
        tg = quiet(TierGroup, [SequenceTier(U)])
        quiet(tg.append, SequenceTier(L))
        return us, ls, U, L, tg
    if how == "atg":
        U, L = [W(t) for t in us], [P(t) for t in ls]
        tg = quiet(TierGroup, [SequenceTier(U), SequenceTier(L)])
        atg = quiet(AlignedTextGrid, [tg])
        return us, ls, U, L, atg[0]
    raise AssertionError(how)

def h_relate(sx, n, m, how):
    us, ls, U, L, tg = build(sx, n, m, how)
    sx.check(len(tg) == 2, "both tiers are kept")
    sx.check(tg[0].entry_class.__name__ == "W" and tg[1].entry_class.__name__ == "P", "the upper class is the upper tier")
    check_parents(sx, U, L, us, ls)
    for x, t in zip(U + L, us + ls):
        sx.check(eq(x.label, t[2]), "labels are kept")
    for x in U:
        sx.check(len(ident_index(tg[0], x)) == 1, "upper intervals stay on their tier")
    for x in L:
        sx.check(len(ident_index(tg[1], x)) == 1, "lower intervals stay on their tier")
    sx.check(len(tg[0]) == len(U), "relating adds no upper interval")

def h_aligned(sx, shape, how, gaps):
    levels = aligned_specs(sx, "t", listify(shape), gaps=gaps)
    cls = classes(len(levels), "lower" if how == "lower" else "custom")
    objs = [[c(t) for t in lv] for c, lv in zip(cls, levels)]
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        tiers = [SequenceTier(o) for o in objs]
        if how == "reverse":
            tiers = tiers[::-1]
        elif how == "rotate":
            tiers = tiers[1:] + tiers[:1]
        tg = TierGroup(tiers)
        if how == "again":
            tg.re_relate()
        if how == "atg":
            tg = AlignedTextGrid([tg])[0]
        if how == "atgclean":
            a = AlignedTextGrid([tg])
            if not gaps:
                a.cleanup()
            tg = a[0]
    sx.check(not [w for w in ws if "match" in str(w.message)], "aligned tiers raise no warning about boundaries")
    for tier, o, lv in zip(tg, objs, levels):
        same_objects(sx, tier, o, "the tier has its intervals, in order, and no others")
        for x, t in zip(o, lv):
            sx.check(same_entry(x, t), "times and labels are untouched")
    # children by construction: the leaves below each word
    def assign(shape, level, pos):
        """walk the shape and check the children"""
        for s in shape:
            u = objs[level][pos[level]]
            pos[level] += 1
            if level + 1 < len(objs):
                kids = s if isinstance(s, (list, tuple)) else [1] * s
                first = pos[level + 1]
                if level + 2 < len(objs):
                    assign(kids, level + 1, pos)
                else:
                    pos[level + 1] += len(kids)
                same_objects(sx, u.subset_list, objs[level + 1][first:pos[level + 1]], "the children are the intervals inside")
    assign(shape, 0, [0] * len(objs))

def instances(tier):
    th = tier == "thorough"
    out = []
    for how in ("group", "swapped", "again", "append", "atg", "delayed", "lower"):
        for n, m in ((1, 1), (1, 2), (2, 1), (2, 2)) + (((2, 3), (3, 2)) if th or how == "group" else ()) + (((3, 3),) if th and how == "group" else ()):
            out.append(Instance(f"relate-{how}-{n}x{m}", h_relate, dict(n=n, m=m, how=how)))
    for nm, shape in (("small", (2, 1)), ("wide", (1, 2, 1, 3, 1, 2, 2)), ("deep", ((2, 1), (1,), (1, 2))), ("single", (1,)),
                      ("long", (4,)), ("deep4", (((1, 2), (1,)), ((2,),))),
                      ("many", MANY), ("manydeep", MANYDEEP)):
        for how in ("group", "reverse", "rotate", "again", "atg", "atgclean", "lower"):
            for gaps in (False, True):
                out.append(Instance(f"aligned-{nm}-{how}{'-gaps' if gaps else ''}", h_aligned, dict(shape=shape, how=how, gaps=gaps)))
    return out
