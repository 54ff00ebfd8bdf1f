"""C20: pickling."""
import cloudpickle
from harness.worlds import *
from harness.c13 import check_names, check_classes
from aligned_textgrid.custom_classes import get_class_hierarchy

BOUNDS = ("textgrids of up to 3 groups (intervals up to 3 levels with up to 5 words, points, empty tiers), and their groups, tiers, entries and lists, pickled fresh and after every "
          "operation; every operation of a choice of 8 on the copy and on the original")
ASSUMES = ["boundaries are aligned and differ by more than the closeness tolerance"]

def roundtrip(x):
    return cloudpickle.loads(cloudpickle.dumps(x))

class Pair:
    """walks an object and its copy in step"""
    def __init__(self, sx, what):
        self.sx, self.what, self.to, self.todo, self.back = sx, what, {}, [], {}

    def link(self, a, b, why):
        sx = self.sx
        if a is None or b is None:
            sx.check(a is None and b is None, f"{self.what}: {why} is missing in both or in neither")
            return
        if id(a) in self.to:
            sx.check(self.to[id(a)][1] is b, f"{self.what}: {why} is the copy of the original's")
            return
        sx.check(id(b) not in self.back, f"{self.what}: copies of different things are different ({why})")
        sx.check(a is not b, f"{self.what}: {why} is copied")
        self.to[id(a)] = (a, b)
        self.back[id(b)] = a
        self.todo.append((a, b, why))

    def run(self):
        while self.todo:
            self.same(*self.todo.pop())

    def each(self, xs, ys, why):
        xs, ys = list(xs), list(ys)
        self.sx.check(len(xs) == len(ys), f"{self.what}: as many {why}")
        for x, y in zip(xs, ys):
            self.link(x, y, why)

    def same(self, a, b, why):
        sx, what = self.sx, self.what
        sx.check(type(a).__name__ == type(b).__name__, f"{what}: {why} is of the same class")
        if isinstance(a, AlignedTextGrid):
            self.each(a, b, "groups")
            sx.check(a.tier_names == b.tier_names if len(a) else len(b) == 0, f"{what}: tier names")
        elif isinstance(a, (TierGroup, PointsGroup)):
            self.each(a, b, "tiers")
            self.link(a.within, b.within, "textgrid of a group")
            sx.check(a.name == b.name, f"{what}: group names")
            sx.check([c.__name__ for c in a.entry_classes] == [c.__name__ for c in b.entry_classes], f"{what}: classes of a group")
        elif isinstance(a, (SequenceTier, SequencePointTier)):
            self.each(a, b, "entries")
            self.link(a.within, b.within, "group of a tier")
            sx.check(a.name == b.name and a.entry_class.__name__ == b.entry_class.__name__, f"{what}: name and class of a tier")
            sx.check(all(type(y) is b.entry_class for y in b), f"{what}: entries are of their tier's class")
        elif isinstance(a, SequenceList):
            self.each(a, b, "entries")
        elif is_boundary(a):
            sx.check(is_boundary(b), f"{what}: boundaries")
        else:
            sx.check(conj(eq(a.start, b.start), eq(getattr(a, "end", None), getattr(b, "end", None)), eq(a.label, b.label)), f"{what}: times and labels")
            for k in ("intier", "within", "super_instance"):
                if hasattr(a, k):
                    self.link(getattr(a, k), getattr(b, k), k)
            if hasattr(a, "subset_list"):
                self.each(a.subset_list, b.subset_list, "children")
            for k in ("fol", "prev"):
                x, y = getattr(a, k), getattr(b, k)
                if is_boundary(x) or x is None:
                    sx.check((x is None and y is None) or is_boundary(y), f"{what}: no neighbour")
                else:
                    self.link(x, y, k)
            if a.within is not None:
                sx.check(a.id == b.id, f"{what}: ids")

def compare(sx, a, b, what):
    p = Pair(sx, what)
    p.link(a, b, "the object")
    p.run()
    return p

def atg_of(sx, shape, points=0, empty=False, gaps=False, kind="custom"):
    gs = [aligned_group(sx, "g", listify(shape), gaps=gaps, kind=kind)]
    if points:
        c = custom_classes(["Tone"], points=[0])[0]
        ts = sep_times(sx, "p", points - 1)
        gs.append(PointsGroup([SequencePointTier([c((t, sx.label(f"pL{i}"))) for i, t in enumerate(ts)])]))
    if empty:
        gs.append(TierGroup([SequenceTier([], custom_classes(["Note"])[0])]))
    return quiet(AlignedTextGrid, gs)

def h_atg(sx, shape, points=0, empty=False, gaps=False, kind="custom", twice=False):
    atg = atg_of(sx, shape, points, empty, gaps, kind)
    b = roundtrip(atg)
    if twice:
        b = roundtrip(b)
    compare(sx, atg, b, "copy")
    check_names(sx, b, "copy")
    for g in b:
        check_classes(sx, g, "copy")
    sx.check(b.xmin is not None and conj(eq(b.xmin, atg.xmin), eq(b.xmax, atg.xmax)), "the copy's extent")

def h_part(sx, what):
    atg = atg_of(sx, (2, 1), 2)
    obj = {"group": atg[0], "points": atg[1], "tier": atg[0][1], "ptier": atg[1][0], "word": atg[0][0][0], "phone": atg[0][1][1], "point": atg[1][0][0],
           "list": atg[0][0].sequence_list, "kids": atg[0][0][0].subset_list}[what]
    compare(sx, obj, roundtrip(obj), what)

def h_lone(sx):
    """things that are nowhere"""
    w = Word((sx.real("s"), sx.real("e"), sx.label("l")))
    w.set_feature("lemma", sx.label("f"))
    b = roundtrip(w)
    compare(sx, w, b, "lone word")
    sx.check(eq(b.lemma, w.lemma), "features are kept")
    p = SequencePoint((sx.real("p"), sx.label("pl")))
    compare(sx, p, roundtrip(p), "lone point")
    t = SequenceTier([], Word)
    compare(sx, t, roundtrip(t), "empty tier")
    e = AlignedTextGrid()
    sx.check(len(roundtrip(e)) == 0, "empty textgrid")

def h_ops(sx, ops, shape, atg, gaps=False, kind="custom"):
    w = run_ops(sx, ops, shape, [], atg=atg, gaps=gaps, kind=kind)
    obj = w.atg if w.atg is not None else w.groups[0]
    compare(sx, obj, roundtrip(obj), "copy")

AFTER = ("shift", "fuse_right_top", "fuse_left_low", "append_word", "pop_top", "cleanup", "concat", "move", "append_front", "sub_pop")

def h_edit(sx, op, which):
    """an edit of one leaves the other as it was, and an edit of the copy is as good as one of the original"""
    a = world(sx, (2, 1, 2), atg=True)
    atg = a.atg
    b = roundtrip(atg)
    wb = World()
    wb.atg, wb.groups = b, list(b)
    wb.cls = wb.groups[0].entry_classes
    edited, other, obj = (wb, atg, b) if which == "copy" else (a, b, atg)
    snap = Snap([t for g in other for t in g])
    OPS[op](Scoped(sx, "o"), edited)
    snap.check(sx, f"the other after {op}")
    for inv in (inv_order, inv_chain, inv_inverse, inv_intier, inv_within):
        inv(sx, edited)

def h_read(sx):
    """the copy is written like the original"""
    atg = atg_of(sx, (2, 1), 2)
    b = roundtrip(atg)
    x, y = quiet(atg.return_textgrid), quiet(b.return_textgrid)
    sx.check(list(x.tierNames) == list(y.tierNames), "tier names when written")
    for n in x.tierNames:
        p, q = x.getTier(n).entries, y.getTier(n).entries
        sx.check(len(p) == len(q), "entries when written")
        for i, j in zip(p, q):
            sx.check(conj(*[eq(u, v) for u, v in zip(i, j)]), "times and labels when written")

def instances(tier):
    th = tier == "thorough"
    out = []
    add = lambda nm, fn, **kw: out.append(Instance(nm, fn, kw))
    for shape in ((1,), (2, 1), ((1, 2), (1,)), (1, 2, 1, 3)) + (((2, 2, 2, 2, 1), ((2, 1), (1, 2), (1,))) if th else ()):
        for p in (0, 2):
            add(f"atg-{shape}-{p}", h_atg, shape=shape, points=p)
    add("atg-gaps", h_atg, shape=(1, 2), points=1, gaps=True)
    add("atg-empty", h_atg, shape=(1, 2), points=1, empty=True)
    add("atg-wp", h_atg, shape=(2, 1), kind="wp")
    add("atg-twice", h_atg, shape=(2, 1), points=2, twice=True)
    for what in ("group", "points", "tier", "ptier", "word", "phone", "point", "list", "kids"):
        add(f"part-{what}", h_part, what=what)
    add("lone", h_lone)
    add("written", h_read)
    for op in AFTER:
        for which in ("copy", "original"):
            add(f"edit-{which}-{op}", h_edit, op=op, which=which)
    out += op_instances(h_ops, tier, pairs=th, wide=th)
    return out
