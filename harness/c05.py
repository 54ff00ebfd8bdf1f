"""C05: reconciling tiers whose boundaries do not match."""
from harness.worlds import *

BOUNDS = ("an upper and a lower tier with arbitrary independent times, non-overlapping on each tier: up to 2 upper and 3 lower (or 3 "
          "and 2) intervals; aligned groups of up to 4 words in which one to three lower boundaries are moved anywhere between "
          "their neighbours; built as a group, through a textgrid, by appending a tier, and related again")
ASSUMES = ["any two boundaries are equal or differ by more than the closeness tolerance (3e-5 of the last time plus 1e-6)"]


def separated(sx, ts, ends):
    """any two times are equal or farther apart than the closeness tolerance at any of `ends`"""
    for i in range(len(ts)):
        for j in range(i):
            a, b = ts[j], ts[i]
            far = lambda x, y: conj(*[y - x >= e * (1 / 32768) + 1 / 1048576 for e in ends])
            sx.assume(disj(eq(a, b), far(a, b), far(b, a)))

def inside(c, u):
    return conj(u[0] <= c[0], c[1] <= u[1])

def check_result(sx, tg, U, L, us, ls, warned=None):
    up, low = tg[0], tg[1]
    mism = disj(*[conj(*[(~inside(c, u) if hasattr(inside(c, u), "f") else not inside(c, u)) for u in us]) for c in ls])
    if warned is not None:
        sx.check(mism if warned else (~mism if hasattr(mism, "f") else not mism),
                 "boundaries are warned about exactly when a lower interval is not inside an upper one")
    origU, origL = {id(x) for x in U}, {id(x) for x in L}
    sx.check(all(id(x) in origU for x in up) and len(up) == len(U), "the upper tier has its intervals and no others")
    for x in L:
        sx.check(len(ident_index(low, x)) == 1, "no lower interval is lost")
    for x, t in zip(U + L, us + ls):
        sx.check(eq(x.label, t[2]), "labels are kept")
        sx.check(conj(t[0] <= x.start, x.end <= t[1]), "an interval is at most trimmed")
        sx.check(x.start < x.end, "an interval keeps a positive duration")
    for x, t in zip(U, us):
        if warned is False:
            sx.check(conj(eq(x.start, t[0]), eq(x.end, t[1])), "without a mismatch the upper intervals keep their times")
    for x, t in zip(L, ls):
        if warned is False or x.super_instance is None:
            sx.check(conj(eq(x.start, t[0]), eq(x.end, t[1])), "lower intervals inside an upper one keep their times")
        else:
            # trimmed to its parent's original extent at most
            k = [i for i, u in enumerate(U) if u is x.super_instance][0]
            sx.check(disj(eq(x.start, t[0]), eq(x.start, us[k][0])), "a start moves to the parent's start only")
            sx.check(disj(eq(x.end, t[1]), eq(x.end, us[k][1])), "an end moves to the parent's end only")
    for x in low:
        if id(x) not in origL:
            sx.check(x.label == "", "intervals made to fill gaps have a blank label")
            sx.check(x.super_instance is not None, "intervals made to fill gaps have a parent")
            sx.check(x.start < x.end, "intervals made to fill gaps have a positive duration")
    for u in up:
        sx.check(len(u) > 0, "every upper interval has a child")
        check_snug(sx, u)
        for c in u.subset_list:
            sx.check(len(ident_index(low, c)) == 1, "children are on the lower tier")
    for t in (up, low):
        check_sorted(sx, t)
        check_no_overlap(sx, t)
    check_intier(sx, low)

def snapshot(tg):
    return [[(x, x.start, x.end, x.label, x.super_instance) for x in t] for t in tg]

def check_same(sx, tg, snap):
    for t, s in zip(tg, snap):
        same_objects(sx, t, [e[0] for e in s], "relating again keeps the intervals")
        for x, (_, a, b, l, p) in zip(t, s):
            sx.check(conj(eq(x.start, a), eq(x.end, b), eq(x.label, l)), "relating again keeps times and labels")
            sx.check(x.super_instance is p, "relating again keeps the parents")

def relate(sx, us, ls, how):
    W, P = custom_classes(["V", "W", "P"])[1:] if how == "lower" else custom_classes(["W", "P"])
    U, L = [W(t) for t in us], [P(t) for t in ls]
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        if how == "append":
            tg = TierGroup([SequenceTier(U)])
            tg.append(SequenceTier(L))
        else:
            tg = TierGroup([SequenceTier(U), SequenceTier(L)])
    warned = any("didn't exactly match" in str(w.message) for w in ws)
    check_result(sx, tg, U, L, us, ls, warned)
    snap = snapshot(tg)
    if how == "again":
        quiet(tg.re_relate)
        check_same(sx, tg, snap)
    elif how == "atg":
        atg = quiet(AlignedTextGrid, [tg])
        check_same(sx, atg[0], snap)

def h_free(sx, n, m, how):
    us = disjoint(sx, "u", n)
    ls = disjoint(sx, "l", m)
    separated(sx, [t for x in us + ls for t in x[:2]], [us[-1][1], ls[-1][1]])
    relate(sx, us, ls, how)

def h_contig(sx, n, m, how):
    """both tiers without gaps"""
    us = contiguous(sx, "u", n)
    ls = contiguous(sx, "l", m)
    ts = [us[0][0]] + [u[1] for u in us] + [ls[0][0]] + [l[1] for l in ls]
    separated(sx, ts, [us[-1][1], ls[-1][1]])
    relate(sx, us, ls, how)

def h_jitter(sx, shape, move, how):
    """an aligned group with the lower boundaries `move` displaced between their neighbours"""
    levels = aligned_specs(sx, "t", listify(shape))
    us, ls = levels
    bs = [ls[0][0]] + [l[1] for l in ls]
    for k in move:
        j = sx.real(f"j{k}")
        sx.assume(sep(bs[k - 1], j) if k > 0 else j >= 0)
        if k + 1 < len(bs):
            sx.assume(sep(j, bs[k + 1]))
        sx.assume(disj(eq(j, bs[k]), sep(bs[k], j), sep(j, bs[k])))
        bs[k] = j
    ls = [(bs[i], bs[i + 1], l[2]) for i, l in enumerate(ls)]
    separated(sx, [u[0] for u in us] + [us[-1][1]] + [b for b in bs if b is not None], [us[-1][1], bs[-1]])
    relate(sx, us, ls, how)

def h_three(sx, shape, level, move, how):
    """three levels, one boundary of one of the lower tiers displaced"""
    levels = aligned_specs(sx, "t", listify(shape), lo=0)
    ls = levels[level]
    bs = [ls[0][0]] + [l[1] for l in ls]
    last = levels[0][-1][1]
    old = bs[move]
    j = sx.real("j")
    far = lambda a, b: conj(b - a >= last * (1 / 32768) + 1 / 1048576, b - a >= j * (1 / 32768) + 1 / 1048576)
    sx.assume(far(bs[move - 1], j) if move > 0 else j >= 0)
    if move + 1 < len(bs):
        sx.assume(far(j, bs[move + 1]))
    ts = sorted({id(t): t for lv in levels for x in lv for t in x[:2]}.values(), key=lambda t: 0)
    for t in ts:
        sx.assume(disj(eq(t, j), far(t, j), far(j, t)))
    for a in ts:
        for b in ts:
            if a is not b:
                sx.assume(disj(far(a, b), far(b, a)))
    bs[move] = j
    levels[level] = [(bs[i], bs[i + 1], l[2]) for i, l in enumerate(ls)]
    cls = custom_classes(["A", "B", "C"])
    objs = [[c(t) for t in lv] for c, lv in zip(cls, levels)]
    tg = quiet(TierGroup, [SequenceTier(o) for o in objs])
    if how == "again":
        quiet(tg.re_relate)
    elif how == "cleanup":
        quiet(tg.cleanup)
    elif how == "atg":
        atg = quiet(AlignedTextGrid, [tg])
        quiet(atg.cleanup)
        tg = atg[0]
    for t, o, lv in zip(tg, objs, levels):
        ids = {id(x) for x in o}
        for x, raw in zip(o, lv):
            sx.check(len(ident_index(t, x)) == 1, "no interval is lost")
            sx.check(conj(eq(x.label, raw[2]), raw[0] <= x.start, x.end <= raw[1], x.start < x.end), "an interval is at most trimmed")
        for x in t:
            if id(x) not in ids:
                sx.check(x.label == "", "intervals made to fill gaps have a blank label")
        check_sorted(sx, t)
        check_no_overlap(sx, t)
    for t in list(tg)[:-1]:
        for u in t:
            sx.check(len(u) > 0, "every interval has a child")
            check_snug(sx, u)
    snap = snapshot(tg)
    quiet(tg.re_relate)
    check_same(sx, tg, snap)

def instances(tier):
    th = tier == "thorough"
    out = []
    for how in ("group", "again", "append", "atg", "lower"):
        for n, m in ((1, 1), (1, 2), (2, 1)) + (((2, 2),) if th or how in ("group", "again") else ()):
            out.append(Instance(f"free-{how}-{n}x{m}", h_free, dict(n=n, m=m, how=how)))
        for n, m in ((1, 2), (2, 2)) + (((2, 3), (3, 2)) if th or how == "group" else ()):
            out.append(Instance(f"contig-{how}-{n}x{m}", h_contig, dict(n=n, m=m, how=how)))
    if th:
        out.append(Instance("free-group-2x3", h_free, dict(n=2, m=3, how="group")))
        out.append(Instance("free-group-3x2", h_free, dict(n=3, m=2, how="group")))
    for nm, shape, moves in (("a", (2, 1), ((2,), (0, 2), (1, 3), (2, 3))), ("b", (1, 2, 1, 2), ((1,), (3,), (4,), (1, 3), (0, 6)))):
        for mv in moves:
            for how in ("group", "again", "atg"):
                out.append(Instance(f"jitter-{nm}-{'_'.join(map(str, mv))}-{how}", h_jitter, dict(shape=shape, move=mv, how=how)))
    for k in (3, 4) + ((12, 20) if th else ()):
        for how in ("group", "again", "atg"):
            out.append(Instance(f"jitter-many-{k}-{how}", h_jitter, dict(shape=MANY, move=(k,), how=how)))
    for level, move in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3)) + (((1, 0), (2, 0), (1, 3), (2, 4)) if th else ()):
        for how in ("group", "again", "atg", "cleanup"):
            out.append(Instance(f"three-{level}-{move}-{how}", h_three, dict(shape=((1, 1), (1, 1)) if level == 1 else ((1, 1), (2,)), level=level, move=move, how=how)))
    return out
