"""C21: what cannot be done is refused and changes nothing."""
from harness.worlds import *
from harness.c13 import Before
from harness.c14 import Classes
from aligned_textgrid.custom_classes import clone_class

BOUNDS = ("121 calls that cannot be carried out and 14 with nothing to do, each on any entry of textgrids of up to 5 words, 3 levels and a points group, and after every edit of a choice of 10")
ASSUMES = ["boundaries are aligned and differ by more than the closeness tolerance"]

class Setting:
    """a textgrid, some loose things, and a snapshot of all of it"""
    def __init__(self, sx, shape, pre=None):
        w = world(sx, shape, atg=False)
        g = w.groups[0]
        Tone, Mark = custom_classes(["Tone", "Mark"], points=[0, 1])
        ts = sep_times(sx, "p", 2)
        self.pg = PointsGroup([SequencePointTier([Tone((t, sx.label(f"pL{i}"))) for i, t in enumerate(ts)]),
                               SequencePointTier([Mark((ts[0], sx.label("mL")))])])
        self.atg = w.atg = quiet(AlignedTextGrid, [g, self.pg])
        w.groups = [self.atg[0]]
        w.cls = w.groups[0].entry_classes
        if pre:
            OPS[pre](Scoped(sx, "pre"), w)
        self.w = w
        self.g, self.pg = self.atg[0], self.atg[1]
        self.W, self.P = self.g.entry_classes[0], self.g.entry_classes[-1]
        self.top, self.low = self.g[0], self.g[-1]
        self.deep = len(self.g) > 2
        s, e = sx.real("fs"), sx.real("fe")
        sx.assume(sep(self.top[-1].end, s)); sx.assume(sep(s, e))
        # loose entries
        self.word, self.phone = self.W((s, e, sx.label("fw"))), self.P((s, e, sx.label("fp")))
        self.point = SequencePoint((s, sx.label("fpt")))
        Other, Below = custom_classes(["Other", "Below"])
        self.Other, self.Below = Other, Below
        self.other = Other((s, e, sx.label("fo")))
        self.below = Below((s, e, sx.label("fb")))
        self.otier = SequenceTier([Other((s, e, sx.label("ot")))])
        self.ptier = SequencePointTier([custom_classes(["Odd"], points=[0])[0]((s, sx.label("od")))])
        self.lonetier = SequenceTier([self.W((s, e, sx.label("lw")))])
        self.lst = SequenceList(*[self.W((s, e, sx.label("sl")))])
        cs = custom_classes([c.__name__ for c in self.g.entry_classes])
        self.twintier = SequenceTier([cs[0]((s, e, sx.label("tw")))])
        self.twinpoints = SequencePointTier([custom_classes(["Tone"], points=[0])[0]((s, sx.label("tp")))])
        self.tiers = [t for x in self.atg for t in x] + [self.otier, self.ptier, self.lonetier, self.twintier, self.twinpoints]
        self.floats = [self.word, self.phone, self.other, self.below, self.point]
        self.small = TierGroup([SequenceTier([self.W((s, e, sx.label("sw")))])])
        self.tiers += list(self.small)
        # no two entries of different classes look alike
        labs = [x.label for t in self.tiers for x in t if isinstance(x, SequenceInterval)] + [x.label for x in self.floats] + [x.label for x in self.lst]
        for i, a in enumerate(labs):
            for b in labs[:i]:
                sx.assume(a != b if not sx.symbolic or not hasattr(a, "sym_eq") else ~a.sym_eq(b))
        self.sx = sx

    def any(self, name, seq):
        return seq[self.sx.choose(name, len(seq))]

    def snap(self):
        self.s = Snap(self.tiers, self.floats)
        self.b = Before(self.atg)
        self.c = Classes([c for g in self.atg for c in g.entry_classes] + [self.Other, self.Below])
        self.lsts = list(self.lst)
        self.kinds = [(t, t.entry_class, getattr(t, "superset_class", None), getattr(t, "subset_class", None), t.name, [(x, type(x)) for x in t]) for t in self.tiers]
        self.kinds.append((self.lst, self.lst.entry_class, None, None, None, [(x, type(x)) for x in self.lst]))
        self.loose = [(x, type(x)) for x in self.floats]
        self.paths = [(x, x.within, [y for y in x.contains] if x.contains is not None else None) for x in [self.atg, *self.atg, *self.tiers, *[e for t in self.tiers for e in t], *self.floats] if hasattr(x, "contains")]

    def check(self, what):
        sx = self.sx
        self.s.check(sx, what)
        self.c.check(sx, what)
        sx.check(len(self.atg) == len(self.b.groups) and all(a is b for a, b in zip(self.atg, self.b.groups)), f"{what}: the groups are kept")
        for g, ts, n in zip(self.atg, self.b.tiers, self.b.names):
            sx.check(len(g) == len(ts) and all(a is b for a, b in zip(g, ts)), f"{what}: the tiers are kept")
            sx.check(g.name == n, f"{what}: group names are kept")
        same_objects(sx, self.lst, self.lsts, f"{what}: lists are kept")
        for t, c, sup, sub, n, xs in self.kinds:
            sx.check(t.entry_class is c and (n is None or (t.name == n and getattr(t, "superset_class", None) is sup and getattr(t, "subset_class", None) is sub)), f"{what}: tiers and lists keep their class and name", detail=repr(t))
            sx.check(all(type(x) is k for x, k in xs), f"{what}: entries keep their class")
        sx.check(all(type(x) is k for x, k in self.loose), f"{what}: entries keep their class")
        for x, w, cs in self.paths:
            sx.check(x.within is w, f"{what}: everything is within what it was within", detail=repr(x))
            now = [y for y in x.contains] if x.contains is not None else None
            sx.check((now is None) == (cs is None) and (cs is None or (len(now) == len(cs) and all(a is b for a, b in zip(now, cs)))), f"{what}: contents are kept")

def CALLS():
    C = {}
    def call(f):
        C[f.__name__[2:]] = f
        return f
    # tiers
    @call
    def c_tier_append_class(s): s.top.append(s.other)
    @call
    def c_tier_append_level(s): s.top.append(s.phone)
    @call
    def c_low_append_level(s): s.low.append(s.word)
    @call
    def c_tier_append_point(s): s.top.append(s.point)
    @call
    def c_tier_append_tier(s): s.top.append(s.otier)
    @call
    def c_tier_append_tuple(s): s.top.append((0, 1, "x"))
    @call
    def c_ptier_append_interval(s): s.pg[0].append(s.word)
    @call
    def c_ptier_append_tuple(s): s.pg[0].append((0, "x"))
    @call
    def c_ptier_append_class(s): s.pg[0].append(s.ptier[0])
    @call
    def c_tier_pop_loose(s): s.top.pop(s.word)
    @call
    def c_tier_pop_other_tier(s): s.top.pop(s.any("x", list(s.low)))
    @call
    def c_tier_concat_class(s): s.top.concat(s.otier)
    @call
    def c_tier_concat_level(s): s.top.concat(s.low)
    @call
    def c_tier_add_class(s): s.lonetier + s.otier
    @call
    def c_tier_add_points(s): s.lonetier + s.ptier
    @call
    def c_tier_add_entry(s): s.lonetier + s.word
    @call
    def c_starts_few(s): s.top.starts = [0] * (len(s.top) - 1)
    @call
    def c_ends_many(s): s.low.ends = [0] * (len(s.low) + 1)
    @call
    def c_times_many(s): s.pg[0].times = [0] * (len(s.pg[0]) + 1)
    @call
    def c_assign_mixed(s): s.lonetier.sequence_list = [s.word, s.phone]
    # intervals
    @call
    def c_append_class(s): s.any("x", list(s.top)).append(s.other)
    @call
    def c_append_self_level(s): s.any("x", list(s.top)).append(s.word)
    @call
    def c_low_append(s): s.any("x", list(s.low)).append(s.phone)
    @call
    def c_set_subset_class(s): s.any("x", list(s.top)).set_subset_list([s.other])
    @call
    def c_set_subset_mixed(s): s.any("x", list(s.top)).set_subset_list([s.top[0][0], s.word])
    @call
    def c_append_subset_class(s): s.any("x", list(s.top)).append_subset_list(s.other)
    @call
    def c_append_subset_up(s): s.any("x", list(s.low)).append_subset_list(s.word)
    @call
    def c_assign_subset(s): s.any("x", list(s.top)).subset_list = [s.other]
    @call
    def c_assign_subset_mixed(s): s.any("x", list(s.top)).subset_list = [s.top[0][0], s.word]
    @call
    def c_loose_append(s): s.word.append(s.other)
    @call
    def c_loose_append_up(s): s.phone.append(s.word)
    @call
    def c_loose_append_point(s): s.word.append(s.point)
    @call
    def c_loose_append_subset(s): s.word.append_subset_list(s.other)
    @call
    def c_loose_append_subset_up(s): s.phone.append_subset_list(s.word)
    @call
    def c_loose_append_subset_point(s): s.word.append_subset_list(s.point)
    @call
    def c_loose_set_subset(s): s.word.set_subset_list([s.other])
    @call
    def c_loose_set_subset_same(s): s.word.set_subset_list([s.word])
    @call
    def c_loose_assign_subset(s): s.word.subset_list = [s.other]
    @call
    def c_loose_assign_points(s): s.word.subset_list = [s.point]
    @call
    def c_loose_super(s): s.phone.set_super_instance(s.other)
    @call
    def c_loose_super_up(s): s.word.set_super_instance(s.phone)
    @call
    def c_loose_super_point(s): s.phone.set_super_instance(s.point)
    @call
    def c_loose_fol(s): s.word.set_fol(s.other)
    @call
    def c_loose_prev(s): s.word.set_prev(s.phone)
    @call
    def c_loose_fol_point(s): s.word.set_fol(s.point)
    @call
    def c_loose_prev_self(s): s.word.set_prev(s.word)
    @call
    def c_loose_point_fol(s): s.point.set_fol(s.word)
    @call
    def c_loose_point_prev_class(s): s.point.set_prev(s.ptier[0])
    @call
    def c_loose_fuse(s): s.word.fuse_rightwards()
    @call
    def c_loose_fuse_left(s): s.word.fuse_leftwards()
    @call
    def c_loose_add(s): s.word + s.other
    @call
    def c_loose_add_same(s): s.word + s.word
    @call
    def c_loose_add_point(s): s.word + s.point
    @call
    def c_free_append(s): s.other.append(s.word)
    @call
    def c_free_append_subset(s): s.other.append_subset_list(s.word)
    @call
    def c_free_append_subset_same(s): s.other.append_subset_list(s.other)
    @call
    def c_free_set_subset(s): s.other.set_subset_list([s.phone])
    @call
    def c_free_assign_subset(s): s.other.subset_list = [s.phone]
    @call
    def c_free_super(s): s.below.set_super_instance(s.word)
    @call
    def c_free_super_point(s): s.below.set_super_instance(s.point)
    @call
    def c_free_fol(s): s.other.set_fol(s.below)
    @call
    def c_super_class(s): s.any("x", list(s.low)).set_super_instance(s.other)
    @call
    def c_super_level(s): s.any("x", list(s.low)).set_super_instance(s.phone)
    @call
    def c_super_top(s): s.any("x", list(s.top)).set_super_instance(s.word)
    @call
    def c_fol_self(s): x = s.any("x", list(s.top)); x.set_fol(x)
    @call
    def c_prev_self(s): x = s.any("x", list(s.low)); x.set_prev(x)
    @call
    def c_fol_class(s): s.any("x", list(s.top)).set_fol(s.phone)
    @call
    def c_prev_class(s): s.any("x", list(s.low)).set_prev(s.other)
    @call
    def c_fuse_right_edge(s): s.top[-1].fuse_rightwards()
    @call
    def c_fuse_left_edge(s): s.top[0].fuse_leftwards()
    @call
    def c_fuse_right_last_child(s): s.any("x", list(s.g[-2])).last.fuse_rightwards()
    @call
    def c_fuse_left_first_child(s): s.any("x", list(s.g[-2])).first.fuse_leftwards()
    # lists
    @call
    def c_list_append_class(s): s.lst.append(s.phone)
    @call
    def c_list_add_mixed(s): s.lst + [s.word, s.phone]
    @call
    def c_list_add_class(s): s.lst + [s.other]
    @call
    def c_list_mixed(s): SequenceList(s.word, s.phone)
    @call
    def c_list_concat_class(s): s.lst.concat([s.other])
    # groups and textgrids
    @call
    def c_group_concat_size(s): s.g.concat(s.small)
    @call
    def c_group_concat_points(s): s.g.concat(s.pg)
    @call
    def c_group_append_points(s): s.g.append(s.ptier)
    @call
    def c_group_append_again(s): s.g.append(s.lonetier)
    @call
    def c_group_append_twin(s): s.g.append(s.twintier)
    @call
    def c_group_append_twin_points(s): s.g.append(s.twinpoints)
    @call
    def c_pgroup_append_twin(s): s.pg.append(s.twintier)
    @call
    def c_pgroup_append_twin_points(s): s.pg.append(s.twinpoints)
    @call
    def c_group_append_other(s): s.g.append(s.otier)
    @call
    def c_pgroup_append_intervals(s): s.pg.append(s.otier)
    @call
    def c_group_add_size(s): s.g + s.small
    @call
    def c_atg_append_tier(s): s.atg.append(s.otier)
    @call
    def c_atg_append_entry(s): s.atg.append(s.word)
    @call
    def c_atg_groups(s): s.atg.tier_groups = [s.top]
    @call
    def c_interleave_both(s): s.atg.interleave_class("New", above="Word", below="Phone")
    @call
    def c_interleave_neither(s): s.atg.interleave_class("New")
    @call
    def c_interleave_timing(s): s.atg.interleave_class("New", above=s.P.__name__, timing_from="nowhere")
    @call
    def c_interleave_unknown(s): s.atg.interleave_class("New", above="Nothing")
    @call
    def c_interleave_noname(s): s.atg.interleave_class("", above="Phone")
    @call
    def c_interleave_top(s): s.atg.interleave_class("New", above="Word", timing_from="above")
    # making
    @call
    def c_make_tier_points(s): SequenceTier(list(s.pg[0]), entry_class=s.W)
    @call
    def c_make_tier_pointtier(s): SequenceTier(s.pg[0])
    @call
    def c_make_tier_mixed_points(s): SequenceTier([s.word, s.point])
    @call
    def c_make_ptier_intervals(s): SequencePointTier(list(s.top), entry_class=SequencePoint)
    @call
    def c_make_ptier_tier(s): SequencePointTier(s.top)
    @call
    def c_make_ptier_class(s): SequencePointTier([(s.point.time, s.point.label)], entry_class=s.W)
    @call
    def c_make_tier_class(s): SequenceTier([(s.word.start, s.word.end, s.word.label)], entry_class=SequencePoint)
    @call
    def c_make_group_pointtier(s): TierGroup([s.ptier])
    @call
    def c_make_atg_tiers(s): AlignedTextGrid([s.lonetier])
    @call
    def c_make_atg_entries(s): AlignedTextGrid([s.word])
    @call
    def c_make_list_points(s): SequenceList(s.word, s.point)
    @call
    def c_make_interval_point(s): s.W(s.point)
    # classes
    # classes
    @call
    def c_class_self_super(s): s.W.set_superset_class(s.W)
    @call
    def c_class_self_sub(s): s.W.set_subset_class(s.W)
    @call
    def c_class_foreign_super(s): s.W.set_superset_class(SequencePoint)
    @call
    def c_class_foreign_sub(s): s.W.set_subset_class(int)
    @call
    def c_clone_low(s): clone_class(s.P)
    # making things
    @call
    def c_new_interval(s): s.W((0, 1, "x", "y"))
    @call
    def c_new_point(s): SequencePoint((0, 1, "x"))
    @call
    def c_index_list(s): s.g[[0] * (len(s.g) + 1)]
    @call
    def c_atg_index_list(s): s.atg[[0] * (len(s.atg) + 1)]
    @call
    def c_atg_index_empty(s): s.atg[[]]
    @call
    def c_tierwise(s): x = s.any("x", list(s.low)); x.get_tierwise(len(s.low))
    @call
    def c_tierwise_back(s): x = s.any("x", list(s.top)); x.get_tierwise(-len(s.top))
    return C

BAD = CALLS()

def h_call(sx, name, shape, pre=None):
    s = Setting(sx, listify_t(shape), pre)
    s.snap()
    try:
        quiet(BAD[name], s)
    except Exception as e:
        if type(e).__module__.startswith("symx"):
            raise
    else:
        sx.check(False, f"{name} is refused")
    s.check(name)

# allowed, but there is nothing to do
IDLE = dict(pop_unknown=lambda s: s.atg.pop_class("Nothing"), class_unknown=lambda s: s.atg.get_class_by_name("Nothing"), list_add_nothing=lambda s: s.lst + [],
            shift_none=lambda s: s.atg.shift(0), append_there=lambda s: s.top.append(s.any("x", list(s.top))), list_there=lambda s: s.lst.append(s.lst[0]),
            super_none=lambda s: s.any("x", list(s.low)).set_super_instance(), sub_there=lambda s: s.top[0].append_subset_list(s.top[0].last), fol_there=lambda s: s.top[0].set_fol(s.top[0].fol),
            remove_loose=lambda s: s.any("x", list(s.top)).remove_from_subset_list(s.below), validate=lambda s: s.any("x", list(s.top)).validate(), repr=lambda s: [repr(x) for t in s.tiers for x in t] + [repr(s.atg), repr(s.g), repr(s.pg)],
            structure=lambda s: s.g.show_structure(), written=lambda s: s.atg.return_textgrid())

def h_idle(sx, name, shape, pre=None):
    s = Setting(sx, shape, pre)
    s.snap()
    quiet(IDLE[name], s)
    s.check(name)

def listify_t(s):
    return s

def instances(tier):
    th = tier == "thorough"
    out = []
    add = lambda nm, fn, **kw: out.append(Instance(nm, fn, kw))
    for name in IDLE:
        for shape in ((2, 1), ((1, 2), (1,))):
            add(f"idle-{name}-{shape}", h_idle, name=name, shape=shape)
    for name in BAD:
        for shape in ((2, 1), ((1, 2), (1,))) + (((2, 1, 2, 1, 1),) if th else ()):
            add(f"{name}-{shape}", h_call, name=name, shape=shape)
        for pre in ("fuse_right_top", "append_word", "shift") + (("fuse_left_low", "pop_top", "cleanup", "concat", "move", "append_front", "rerelate") if th else ()):
            add(f"{name}-after-{pre}", h_call, name=name, shape=(2, 1), pre=pre)
    return out
