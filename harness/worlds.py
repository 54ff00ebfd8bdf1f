"""Worlds: symbolic tiers, groups and textgrids, and the operations on them.

A world is built through the public API from symbolic times and labels; an operation is
one public mutator with symbolic arguments.  The per-property modules run every world
and every operation and assert their own invariants on the result."""
import warnings

from harness.common import *
from symx.concrete import Instance
from praatio.data_classes.textgrid import Textgrid
from praatio.data_classes.interval_tier import IntervalTier
from praatio.data_classes.point_tier import PointTier


class World:
    def __init__(self):
        self.groups = []          # TierGroup
        self.pgroups = []         # PointsGroup
        self.loose = []           # tiers outside any group
        self.floats = []          # intervals outside any tier (roots of hierarchies)
        self.atg = None
        self.complete = True      # every lower interval has a parent and vice versa
        self.snug = True          # children exactly cover their parents
        self.gappy = False        # words need not touch
        self.odd = False          # hierarchy edited against the times


# ------------------------------------------------------------------ separation

def sep(a, b):
    """b is after a by more than the closeness tolerance at b"""
    return b - a >= b * (1 / 32768) + 1 / 1048576

def sep_times(sx, name, n, lo=0, touch=False):
    ts = []
    for i in range(n + 1):
        t = sx.real(f"{name}{i}")
        if i == 0:
            if lo is not None:
                sx.assume(t >= lo)
        else:
            sx.assume(sep(ts[-1], t))
        ts.append(t)
    return ts


# ------------------------------------------------------------------ class sets

def classes(n, kind="custom"):
    if kind == "wp" and n == 2:
        return [Word, Phone]
    if kind == "lower":         # a group without the top class of its hierarchy
        return custom_classes(["Utt", "Word", "Syl", "Part", "Phone"][:n + 1])[1:]
    return custom_classes(["Word", "Syl", "Part", "Phone"][:n] if n != 2 else ["Word", "Phone"])


# ------------------------------------------------------------------ aligned groups

def listify(s):
    return [listify(x) for x in s] if isinstance(s, (tuple, list)) else s

BIG_FROM = 14

def aligned_specs(sx, name, shape, lo=0, gaps=False, first=None, blank=True):
    """entries of an aligned hierarchy.  shape = [2, 1, 3]: three words with 2, 1 and 3
    phones; nested lists give deeper hierarchies.  Returns one list of triples per level."""
    if isinstance(shape, str):              # "empty" and the number of levels
        return [[] for _ in range(int(shape[5:]))]
    depth = 1
    s = shape
    while isinstance(s, list):
        depth += 1
        s = s[0]
    def leaves(s):
        return s if isinstance(s, int) else sum(leaves(x) for x in s)
    state = {"prev": first, "k": 0}
    big = leaves(shape) if isinstance(shape, int) else sum(leaves(x) for x in shape)
    if big > BIG_FROM:
        # many entries: a start and three durations, used in turn
        ds = [sx.real(f"{name}d{j}") for j in range(4)]
        for d in ds:
            sx.assume(d >= 1 / 16); sx.assume(d <= 8)
    def nxt(after_gap):
        i = state["k"]
        state["k"] += 1
        if big > BIG_FROM and state["prev"] is not None:
            state["prev"] = state["prev"] + ds[3 if after_gap else i % 3]
            return state["prev"]
        t = sx.real(f"{name}{i}")
        if big > BIG_FROM:
            sx.assume(t <= 1000)
        if state["prev"] is None:
            if lo is not None:
                sx.assume(t >= lo)
        elif after_gap:
            sx.assume(disj(eq(t, state["prev"]), sep(state["prev"], t)))
        else:
            sx.assume(sep(state["prev"], t))
        state["prev"] = t
        return t
    levels = [[] for _ in range(depth)]
    cnt = [0]
    def lab(level):
        cnt[0] += 1
        return sx.label(f"{name}L{level}_{cnt[0]}", blank=blank)
    if first is None:
        nxt(False)
    def build(level, n):
        """an interval at `level` with n leaves below (n nested)"""
        start = state["prev"]
        if level == depth - 1:
            end = nxt(False)
        else:
            kids = n if isinstance(n, list) else [1] * n
            for k in kids:
                build(level + 1, k)
            end = state["prev"]
        levels[level].append((start, end, lab(level)))
    for i, n in enumerate(shape):
        if gaps and i > 0:
            nxt(True)
        build(0, n)
    for l in levels:
        l.sort(key=lambda x: 0)      # already in order
    return levels

def aligned_group(sx, name, shape, kind="custom", cls=None, gaps=False, lo=0, first=None, blank=True):
    levels = aligned_specs(sx, name, shape, lo=lo, gaps=gaps, first=first, blank=blank)
    cls = cls or classes(len(levels), kind)
    tiers = [SequenceTier([c(t) for t in lv], **({} if lv else {"entry_class": c})) for c, lv in zip(cls, levels)]
    tg = quiet(TierGroup, tiers)
    tg._sx_levels = levels
    return tg

def world(sx, shape=(2, 1), kind="custom", atg=False, gaps=False, blank=True, lo=0):
    w = World()
    tg = aligned_group(sx, "t", listify(shape),
                       kind=kind, gaps=gaps, blank=blank, lo=lo)
    w.groups = [tg]
    w.gappy = gaps
    w.cls = tg.entry_classes
    if atg:
        w.atg = quiet(AlignedTextGrid, [tg])
        w.groups = list(w.atg)
        w.cls = w.groups[0].entry_classes
    return w


# ------------------------------------------------------------------ operations
# each: op(sx, w) -> None, mutating w

def _pick(sx, name, seq):
    return seq[sx.choose(name, len(seq))]

def end_of(w):
    return w.groups[0][0][-1].end

def op_none(sx, w):
    pass

def op_rerelate(sx, w):
    quiet(w.groups[0].re_relate)

def op_fuse_right_top(sx, w):
    t = w.groups[0][0]
    if len(t) < 2: return
    quiet(t[sx.choose("i", len(t) - 1)].fuse_rightwards)
    w.snug = w.snug and not w.gappy

def op_fuse_left_top(sx, w):
    t = w.groups[0][0]
    if len(t) < 2: return
    quiet(t[1 + sx.choose("i", len(t) - 1)].fuse_leftwards)
    w.snug = w.snug and not w.gappy

def _multi(w):
    if len(w.groups[0]) < 2: return []
    return [u for u in w.groups[0][-2] if len(u) > 1]

def op_fuse_right_low(sx, w):
    ms = _multi(w)
    if not ms: return
    u = _pick(sx, "u", ms)
    quiet(u[sx.choose("i", len(u) - 1)].fuse_rightwards)

def op_fuse_left_low(sx, w):
    ms = _multi(w)
    if not ms: return
    u = _pick(sx, "u", ms)
    quiet(u[1 + sx.choose("i", len(u) - 1)].fuse_leftwards)

def _new_word(sx, w, after, nph, nm="n"):
    """a new word with nph phones, after `after`"""
    W, P = w.cls[0], w.cls[1]
    ts = [after if after is not None else sx.real(nm + "s")]
    if after is None:
        sx.assume(ts[0] >= 0)
    for i in range(max(nph, 1)):
        t = sx.real(f"{nm}{i}")
        sx.assume(sep(ts[-1], t))
        ts.append(t)
    word = W((ts[0], ts[-1], sx.label(nm + "W")))
    for i in range(nph):
        word.append(P((ts[i], ts[i + 1], sx.label(f"{nm}P{i}"))))
    return word

def op_append_word(sx, w):
    if len(w.cls) != 2: return
    """append a word with two phones at the end of the word tier"""
    quiet(w.groups[0][0].append, _new_word(sx, w, end_of(w), 2))

def op_append_word_far(sx, w):
    if len(w.cls) != 2: return
    """append a word with phones after a gap"""
    s = sx.real("g")
    sx.assume(sep(end_of(w), s))
    quiet(w.groups[0][0].append, _new_word(sx, w, s, 2))
    w.gappy = True

def op_append_bare_word(sx, w):
    if len(w.cls) != 2: return
    quiet(w.groups[0][0].append, _new_word(sx, w, end_of(w), 0))

def op_append_front(sx, w):
    if len(w.cls) != 2: return
    """append a word with a phone before the first"""
    first = w.groups[0][0][0].start
    s, m, e = sx.real("fs"), sx.real("fm"), first
    sx.assume(s >= 0); sx.assume(sep(s, m)); sx.assume(sep(m, e))
    W, P = w.cls[0], w.cls[1]
    word = W((s, e, sx.label("fW")))
    word.append(P((m, e, sx.label("fP1"))))
    word.append(P((s, m, sx.label("fP0"))))
    quiet(w.groups[0][0].append, word)

def op_append_phone_tier(sx, w):
    if len(w.groups[0]) < 2: return
    w.odd = True
    """append a lone phone after the end to the lower tier: it has no word"""
    P = w.cls[-1]
    e = sx.real("pe")
    sx.assume(sep(end_of(w), e))
    quiet(w.groups[0][-1].append, P((end_of(w), e, sx.label("pL"))))
    w.complete = w.snug = False

def op_pop_top(sx, w):
    t = w.groups[0][0]
    quiet(t.pop, t[sx.choose("i", len(t))])
    w.complete = False

def op_pop_low(sx, w):
    t = w.groups[0][-1]
    quiet(t.pop, t[sx.choose("i", len(t))])
    w.complete = w.snug = False

def op_sub_pop(sx, w):
    if len(w.groups[0]) < 2: return
    w.odd = True
    us = [u for u in w.groups[0][-2] if len(u)]
    if not us: return
    u = _pick(sx, "u", us)
    quiet(u.pop, u[sx.choose("i", len(u))])
    w.complete = w.snug = False

def op_sub_remove(sx, w):
    if len(w.groups[0]) < 2: return
    w.odd = True
    us = [u for u in w.groups[0][-2] if len(u)]
    if not us: return
    u = _pick(sx, "u", us)
    quiet(u.remove_from_subset_list, u[sx.choose("i", len(u))])
    w.complete = w.snug = False

def op_remove_superset(sx, w):
    if len(w.groups[0]) < 2: return
    w.odd = True
    t = w.groups[0][-1]
    quiet(t[sx.choose("i", len(t))].remove_superset)
    w.complete = w.snug = False

def op_move(sx, w):
    if len(w.groups[0]) < 2: return
    w.odd = True
    """give a phone to another word"""
    t, up = w.groups[0][-1], w.groups[0][-2]
    x = t[sx.choose("i", len(t))]
    others = [u for u in up if u is not x.super_instance]
    if not others: return
    quiet(x.set_super_instance, _pick(sx, "u", others))
    w.complete = w.snug = False

def op_move_append(sx, w):
    if len(w.groups[0]) < 2: return
    w.odd = True
    t, up = w.groups[0][-1], w.groups[0][-2]
    x = t[sx.choose("i", len(t))]
    others = [u for u in up if u is not x.super_instance]
    if not others: return
    quiet(_pick(sx, "u", others).append_subset_list, x)
    w.complete = w.snug = False

def op_assign_subset(sx, w):
    if len(w.groups[0]) < 2: return
    w.odd = True
    """replace a subset list by part of it plus a phone of another word"""
    up = list(w.groups[0][-2])
    u = _pick(sx, "u", up)
    keep = list(u.subset_list)
    if sx.choose("drop", 2):
        keep = keep[1:]
    others = [v for v in up if v is not u and len(v)]
    if others:
        keep = [_pick(sx, "v", others)[0]] + keep
    if sx.choose("how", 2):
        u.subset_list = keep
    else:
        quiet(u.set_subset_list, keep)
    w.complete = w.snug = False

def op_replace_alike(sx, w):
    if len(w.groups[0]) < 2: return
    w.odd = True
    """replace a subset list by new intervals with the same times and labels"""
    us = [u for u in w.groups[0][-2] if len(u)]
    if not us: return
    u = _pick(sx, "u", us)
    new = [type(x)((x.start, x.end, x.label)) for x in u.subset_list]
    if sx.choose("how", 2):
        u.subset_list = new
    else:
        quiet(u.set_subset_list, new)
    w.complete = w.snug = False
    w.alike = True

def op_word_append(sx, w):
    if len(w.groups[0]) < 2: return
    w.odd = True
    """append a phone to a word of the last tier but one, after its last phone"""
    u = w.groups[0][-2][-1]
    if not len(u): return
    e = sx.real("pe")
    sx.assume(sep(u.last.end, e))
    quiet(u.append, w.cls[-1]((u.last.end, e, sx.label("pL"))))
    w.snug = False

def op_shift(sx, w):
    by = sx.real("by")
    sx.assume(by + w.groups[0][0][0].start >= 0)
    quiet(w.groups[0].shift, by)

def op_cleanup(sx, w):
    quiet((w.atg or w.groups[0]).cleanup)

def op_concat(sx, w):
    if len(w.cls) != 2: return
    other = aligned_group(sx, "o", [1, 1], cls=w.cls)
    quiet(w.groups[0].concat, other)
    w.gappy = True

def op_tier_concat(sx, w):
    """entries of another top tier, with all they contain"""
    if len(w.cls) not in (2, 3): return
    other = aligned_group(sx, "o", [1, 2] if len(w.cls) == 2 else [[1, 2]], cls=w.cls)
    quiet(w.groups[0][0].concat, SequenceTier(list(other[0])))
    w.gappy = True

def op_add(sx, w):
    if len(w.cls) != 2: return
    other = aligned_group(sx, "o", [2], cls=w.cls)
    w.gappy = True
    for t, o in zip(w.groups[0], other):
        sx.assume(o[0].start >= t[-1].end)
    tg = quiet(lambda: w.groups[0] + other)
    w.groups = [tg]
    w.atg = None

def op_pop_class(sx, w):
    if w.atg is None or len(w.groups[0]) < 2: return
    quiet(w.atg.pop_class, w.groups[0].entry_classes[sx.choose("c", len(w.groups[0]))].__name__)
    w.groups = list(w.atg)
    w.cls = w.groups[0].entry_classes

def op_interleave(sx, w):
    if w.atg is None: return
    names = [c.__name__ for c in w.cls]
    k = sx.choose("c", len(names))
    how = sx.choose("how", 2)         # 0 above, 1 below
    frm = ["below", "above"][sx.choose("frm", 2)]
    if how == 0 and k == 0 and frm == "above": return
    if how == 1 and k == len(names) - 1 and frm == "below": return
    kw = {"above": names[k]} if how == 0 else {"below": names[k]}
    quiet(w.atg.interleave_class, "Extra", timing_from=frm, copy_labels=bool(sx.choose("cl", 2)), **kw)
    w.groups = list(w.atg)
    w.cls = w.groups[0].entry_classes

def op_atg_append(sx, w):
    if w.atg is None: return
    shape = {1: None, 2: [1, 1], 3: [[1], [1]], 4: [[[1]], [[1]]]}[len(w.cls)]
    if shape is None:
        shape, cls = [1, 1], None
    else:
        cls = custom_classes([c.__name__ for c in w.cls])
    other = aligned_group(sx, "o", shape, cls=cls)
    quiet(w.atg.append, other)
    w.groups = list(w.atg)

def _low_shape(n):
    return {2: [2, 1], 3: [[1, 1], [1]], 4: [[[1, 1]], [[1]]]}[n]

def op_tier_append(sx, w):
    """a second group that gets its lowest tier, or the tiers below the top, only afterwards"""
    n = len(w.cls)
    if n < 2: return
    cls = custom_classes([c.__name__ for c in w.cls])
    lv = aligned_specs(sx, "o", _low_shape(n))
    tiers = [SequenceTier([c(t) for t in l]) for c, l in zip(cls, lv)]
    k = 1 + sx.choose("k", n - 1)
    g = quiet(TierGroup, tiers[:k])
    if w.atg is not None:
        quiet(w.atg.append, g)
        g = w.atg[len(w.atg) - 1]
    for t in tiers[k:]:
        quiet(g.append, t)
    w.groups = (list(w.atg) if w.atg is not None else w.groups + [g])

def op_remake(sx, w):
    """a textgrid made of the groups of this one"""
    if w.atg is None: return
    w.atg = quiet(AlignedTextGrid, list(w.atg))
    w.groups = list(w.atg)
    w.cls = w.groups[0].entry_classes

def op_regroup(sx, w):
    """a group made of the tiers of this one, in another order"""
    if w.atg is not None: return
    w.groups = [quiet(TierGroup, list(w.groups[0])[::-1])]

OPS = {f.__name__[3:]: f for f in [
    op_none, op_rerelate, op_fuse_right_top, op_fuse_left_top, op_fuse_right_low, op_fuse_left_low,
    op_append_word, op_append_word_far, op_append_bare_word, op_append_front, op_append_phone_tier,
    op_pop_top, op_pop_low, op_sub_pop, op_sub_remove, op_remove_superset, op_move, op_move_append,
    op_assign_subset, op_replace_alike, op_word_append, op_shift, op_cleanup, op_concat, op_tier_concat, op_add, op_pop_class,
    op_interleave, op_atg_append, op_tier_append, op_remake, op_regroup]}


class Scoped:
    """sx with a name prefix, so that a history can run several operations"""
    def __init__(self, sx, pre):
        self._sx, self._pre = sx, pre
        self.symbolic = sx.symbolic
    def real(self, n): return self._sx.real(self._pre + n)
    def label(self, n, **kw): return self._sx.label(self._pre + n, **kw)
    def choose(self, n, k):
        if k > 10:
            return (0, 1, k // 2, k - 2, k - 1)[self._sx.choose(self._pre + n, 5)]
        return self._sx.choose(self._pre + n, k)
    def assume(self, c): self._sx.assume(c)
    def check(self, *a, **k): self._sx.check(*a, **k)


# ------------------------------------------------------------------ invariants on worlds

def all_tiers(w):
    return [t for g in w.groups for t in g] + [t for g in w.pgroups for t in g] + w.loose

def all_objects(w):
    seen, out = set(), []
    def visit(x):
        if x is None or id(x) in seen or str.__eq__(x.label, "#"):
            return
        seen.add(id(x))
        out.append(x)
        for c in getattr(x, "subset_list", []):
            visit(c)
        visit(getattr(x, "super_instance", None))
    for t in all_tiers(w):
        for x in t:
            visit(x)
    for x in w.floats:
        visit(x)
    return out

def inv_order(sx, w):
    for t in all_tiers(w):
        check_sorted(sx, t)
        xs = list(t)
        sx.check(len({id(x) for x in xs}) == len(xs), "no entry appears twice on a tier")
    for x in all_objects(w):
        if hasattr(x, "subset_list"):
            check_sorted(sx, x.subset_list, "subset list in time order")

def inv_views(sx, w):
    """the array views of a tier report its entries in order"""
    for t in all_tiers(w):
        xs = list(t)
        sx.check(len(t) == len(xs) == len(t.sequence_list) == len(t.labels), "sizes agree")
        for i, x in enumerate(xs):
            sx.check(t[i] is x and t.sequence_list[i] is x, "indexing agrees with iteration")
            sx.check(eq(t.labels[i], x.label), "labels view")
            if hasattr(t, "starts"):
                sx.check(conj(eq(t.starts[i], x.start), eq(t.ends[i], x.end)), "starts/ends views")
            else:
                sx.check(eq(t.times[i], x.time), "times view")
    for x in all_objects(w):
        if hasattr(x, "subset_list"):
            check_interval_views(sx, x)

def check_interval_views(sx, x):
    """an interval's own views of its children"""
    kids = list(x.subset_list)
    same_objects(sx, [y for y in x], kids, "iterating an interval gives its children")
    same_objects(sx, [b for a in x for b in x], kids * len(kids), "iterations of an interval are independent")
    sx.check(len(x) == len(kids) == len(x.sub_labels) == len(x.sub_starts) == len(x.sub_ends), "sizes agree")
    for i, y in enumerate(kids):
        sx.check(x[i] is y and x.index(y) == i and (y in x), "indexing an interval gives its children")
        sx.check(conj(eq(x.sub_starts[i], y.start), eq(x.sub_ends[i], y.end), eq(x.sub_labels[i], y.label)), "views of the children")
    if kids:
        sx.check(x.first is kids[0] and x.last is kids[-1], "first and last children")

def inv_chain(sx, w):
    for g in w.groups:
        check_chain(sx, g[0], "top tier precedence")
    for g in w.pgroups:
        for t in g:
            check_chain(sx, t, "point tier precedence")
    for t in w.loose:
        check_chain(sx, t, "tier precedence")
    for x in all_objects(w):
        if hasattr(x, "subset_list"):
            check_chain(sx, x.subset_list, "subset precedence")

def inv_types(sx, w):
    for t in all_tiers(w):
        for x in t:
            sx.check(isinstance(x, t.entry_class), "entry is of the tier's class")
            sx.check(type(x.fol) is type(x) and type(x.prev) is type(x), "neighbours have the same class")

def inv_intier(sx, w):
    for t in all_tiers(w):
        check_intier(sx, t)

def inv_inverse(sx, w):
    for x in all_objects(w):
        if not hasattr(x, "subset_list"):
            continue
        subs = list(x.subset_list)
        sx.check(len({id(c) for c in subs}) == len(subs), "no interval appears twice in a subset list")
        for c in subs:
            sx.check(c.super_instance is x, "subset member points back to its superset")
            sx.check(c.within is x, "subset member is within its superset")
        if x.super_instance is not None:
            sx.check(len(ident_index(x.super_instance.subset_list, x)) == 1, "superset lists the interval once")
    # no other interval of the world lists it
    objs = [o for o in all_objects(w) if hasattr(o, "subset_list")]
    owner = {}
    for o in objs:
        for c in o.subset_list:
            sx.check(id(c) not in owner, "an interval is in one subset list only")
            owner[id(c)] = o

def inv_complete(sx, w):
    if not w.complete:
        return
    for g in w.groups:
        check_strict(sx, g)

def inv_snug(sx, w):
    if not w.snug:
        return
    for g in w.groups:
        for up in list(g)[:-1]:
            for u in up:
                if len(u):
                    check_snug(sx, u)

def check_snug(sx, u):
    xs = list(u.subset_list)
    sx.check(eq(u.start, xs[0].start), "first child starts with its parent")
    sx.check(eq(u.end, xs[-1].end), "last child ends with its parent")
    for a, b in zip(xs, xs[1:]):
        sx.check(eq(a.end, b.start), "children follow one another without gap")

def inv_positive(sx, w):
    for t in all_tiers(w):
        for x in t:
            if hasattr(x, "end"):
                sx.check(x.start < x.end, "an interval has positive duration")
        if hasattr(t, "ends"):
            check_no_overlap(sx, t)

def inv_within(sx, w):
    root = w.atg
    if root is not None:
        sx.check(list(root.within_path) == [], "the root has an empty path")
        check_within(sx, root)
        same_objects(sx, root.contains, list(root), "the textgrid contains its groups")
        for g in root:
            sx.check(g.within is root, "a group is within the textgrid")
    for g in w.groups + w.pgroups:
        same_objects(sx, g.contains, list(g), "a group contains its tiers")
        for i, t in enumerate(g):
            sx.check(t.within is g and t.within_index == i, "a tier is within its group")
        if root is None:
            check_within(sx, g)
    ids = {}
    for g in w.groups:
        same_objects(sx, g[0].contains, list(g[0]), "the top tier contains its entries")
        for x in g[0]:
            sx.check(x.within is g[0], "a top entry is within its tier")


# ------------------------------------------------------------------ standard histories

SANE = ["rerelate", "fuse_right_top", "fuse_left_top", "fuse_right_low", "fuse_left_low", "append_word", "append_word_far",
        "append_bare_word", "append_front", "shift", "cleanup", "concat", "tier_concat", "add", "interleave", "pop_class", "atg_append"]
MADE = ["tier_append", "remake"]        # first of a pair with these seconds
THEN = ["none", "fuse_right_top", "fuse_left_low", "append_word", "pop_top", "cleanup", "interleave", "pop_class", "atg_append", "rerelate", "tier_append", "remake"]
LOCAL = ["pop_top", "pop_low", "sub_pop", "sub_remove", "remove_superset", "move", "move_append", "assign_subset",
         "word_append", "append_phone_tier"]
WIDE = (1, 2, 1, 3, 1, 2)
DEEP = ((2, 1), (1,), (1, 2))
MANY = (1, 2, 1, 3) * 3                 # 12 words, 21 phones: times from a start and three durations
MANYDEEP = ((1, 1), (2,), (1,)) * 4

def run_ops(sx, ops, shape, invs, atg=False, gaps=False, kind="custom"):
    """build a world, run the operations, assert the invariants after the last"""
    w = world(sx, shape, kind=kind, atg=atg, gaps=gaps)
    for i, op in enumerate(ops):
        if any(len(t) == 0 for g in w.groups for t in g):
            break
        OPS[op](Scoped(sx, f"o{i}"), w)
    for inv in invs:
        inv(sx, w)
    return w

def op_instances(fn, tier, pairs=True, local=False, skip=(), wide=True, only=None, lower=True, **kw):
    """every operation on small, gappy, wide and deep textgrids, and pairs of operations"""
    th = tier == "thorough"
    out = []
    ops = [o for o in OPS if o not in skip and (only is None or o in only)]
    for op in ops:
        if op == "regroup":
            out.append(Instance(f"op-{op}-group", fn, dict(ops=[op], shape=(2, 1, 2), atg=False, **kw)))
            out.append(Instance(f"op-{op}-deep", fn, dict(ops=[op], shape=DEEP, atg=False, **kw)))
            out.append(Instance(f"op-rerelate-{op}", fn, dict(ops=["rerelate", op], shape=DEEP, atg=False, **kw)))
            continue
        out.append(Instance(f"op-{op}", fn, dict(ops=[op], shape=(2, 1, 2), atg=True, **kw)))
        if th or op in ("append_front", "pop_top", "append_phone_tier", "cleanup", "concat", "add", "rerelate"):
            out.append(Instance(f"op-{op}-group", fn, dict(ops=[op], shape=(2, 1, 2), atg=False, **kw)))
        if lower and op not in ("interleave", "pop_class", "atg_append", "tier_append", "remake"):
            out.append(Instance(f"op-{op}-lower", fn, dict(ops=[op], shape=(2, 1, 2), atg=False, kind="lower", **kw)))
        if wide:
            out.append(Instance(f"op-{op}-wide", fn, dict(ops=[op], shape=WIDE, atg=True, **kw), witness=1))
            out.append(Instance(f"op-{op}-deep", fn, dict(ops=[op], shape=DEEP, atg=True, **kw)))
        out.append(Instance(f"op-{op}-many", fn, dict(ops=[op], shape=MANY, atg=True, **kw), witness=1))
        if th:
            out.append(Instance(f"op-{op}-manydeep", fn, dict(ops=[op], shape=MANYDEEP, atg=True, **kw), witness=1))
        if th or op in ("none", "rerelate", "cleanup", "fuse_right_top", "concat", "append_word", "pop_top", "shift"):
            out.append(Instance(f"op-{op}-gaps", fn, dict(ops=[op], shape=(1, 2, 1), atg=True, gaps=True, **kw)))
        if th:
            out.append(Instance(f"op-{op}-wordphone", fn, dict(ops=[op], shape=(2, 1, 2), atg=True, kind="wp", **kw)))
    if pairs:
        for a in SANE:
            for b in ops:
                if a in skip or b == "regroup":
                    continue
                if not th and b in ("none", "replace_alike"):
                    continue
                out.append(Instance(f"op-{a}-{b}", fn, dict(ops=[a, b], shape=(2, 1), atg=True, **kw)))
        for a in MADE:
            for b in THEN:
                if a in ops and b in ops and b != "none":
                    out.append(Instance(f"op-{a}-{b}", fn, dict(ops=[a, b], shape=(2, 1), atg=True, **kw)))
    if local:
        for a in LOCAL:
            for b in LOCAL + ["replace_alike"]:
                out.append(Instance(f"local-{a}-{b}", fn, dict(ops=[a, b], shape=(2, 1), atg=True, **kw)))
    if th:
        for a in ("fuse_right_top", "append_word", "concat", "shift", "cleanup"):
            for b in SANE:
                for c in ("rerelate", "fuse_left_top", "append_front", "cleanup", "pop_top", "add"):
                    out.append(Instance(f"op3-{a}-{b}-{c}", fn, dict(ops=[a, b, c], shape=(2, 1), atg=True, **kw)))
    return out
