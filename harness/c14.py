"""C14: classes are isolated."""
from harness.worlds import *
from harness.c13 import Before, do_interleave, do_pop, class_names, moves
from aligned_textgrid.custom_classes import clone_class, get_class_hierarchy

BOUNDS = ("two textgrids of up to 3 groups each made from the same classes (built in, custom, up to 3 levels, point classes), by groups, from praatio or "
          "read twice; every one or two of 12 operations on one of them; also with "
          "different classes of the same names")
ASSUMES = ["boundaries of the groups are aligned and differ by more than the closeness tolerance"]

ROOTS = [SequenceInterval, SequencePoint, Word, Phone, Top, Bottom]

def chain(c):
    """what a class says about its place"""
    return (c, c.__name__, getattr(c, "superset_class", None), getattr(c, "subset_class", None), getattr(c, "_seq_type", None))

class Classes:
    def __init__(self, cls):
        self.cls = list(cls)
        around = []
        for c in self.cls:
            for k in ("superset_class", "subset_class"):
                o = getattr(c, k, None)
                if o is not None and o not in around:
                    around.append(o)
        self.all = [c for c in dict.fromkeys(self.cls + around + ROOTS)]
        self.snap = [chain(c) for c in self.all]
    def check(self, sx, what):
        for c, s in zip(self.all, self.snap):
            sx.check(chain(c) == s, f"{what}: the given classes are as they were", detail=f"{chain(c)} {s}")

def own_classes(sx, atg, cls, what, extra=()):
    """the classes of a textgrid: the given ones' names and hierarchy, but not the given ones"""
    seen = {}
    for g in atg:
        for t in g:
            c = t.entry_class
            sx.check(c not in cls and c not in ROOTS, f"{what}: the textgrid has classes of its own", detail=str(c))
            if c.__name__ in seen:
                sx.check(seen[c.__name__] is c, f"{what}: one class per name")
            seen[c.__name__] = c
            base = [u for u in cls if u.__name__ == c.__name__]
            if base:
                sx.check(issubclass(c, base[0]), f"{what}: the class is a kind of the given one")
            for x in t:
                sx.check(type(x) is c, f"{what}: entries are of their tier's class")
            for o in (getattr(c, "superset_class", None), getattr(c, "subset_class", None)):
                sx.check(o not in cls and o not in ROOTS, f"{what}: the hierarchy is the textgrid's own", detail=str(o))
    return seen

def disjoint_classes(sx, a, b, what):
    def family(atg):
        out = set()
        for g in atg:
            for c in g.entry_classes:
                out |= {c, getattr(c, "superset_class", None), getattr(c, "subset_class", None)}
        return out - {None}
    sx.check(not (family(a) & family(b)), f"{what}: textgrids share no classes")

def check_same(sx, b, sup, what):
    atg = b.atg
    same_objects(sx, atg, b.groups, f"{what}: groups")
    for g, ts, es, cl, sp in zip(atg, b.tiers, b.entries, b.classes, sup):
        same_objects(sx, g, ts, f"{what}: tiers")
        sx.check([chain(c) for c in g.entry_classes] == sp, f"{what}: classes")
        for t, e in zip(g, es):
            sx.check(t.entry_class is (g.entry_classes[list(g).index(t)]), f"{what}: tier classes")
            sx.check(len(t) == len(e), f"{what}: entries")
            for x, (y, s, en, l) in zip(t, e):
                sx.check(x is y and type(x) is t.entry_class, f"{what}: entries")
                sx.check(conj(eq(x.start, s), eq(x.label, l)), f"{what}: times and labels")
                if en is not None:
                    sx.check(eq(x.end, en), f"{what}: times and labels")
                if id(x) in b.parent:
                    sx.check(x.super_instance is b.parent[id(x)], f"{what}: parents")
                    same_objects(sx, x.subset_list, b.kids[id(x)], f"{what}: children")


# ------------------------------------------------------------------ making textgrids

def make(sx, nm, spec, cls, how):
    """spec: shapes, all of the same interval classes; int = a points group of n tiers (classes after the interval ones)"""
    ivs = [c for c in cls if issubclass(c, SequenceInterval)]
    pts = [c for c in cls if issubclass(c, SequencePoint)]
    tiers, last = [], None
    for k, s in enumerate(spec):
        if isinstance(s, int):
            tiers.append([(c, [(sx.real(f"{nm}p{k}_{i}"), sx.label(f"{nm}pL{k}_{i}"))]) for i, c in enumerate(pts[:s])])
            for c, e in tiers[-1]:          # one after the other: the order of the groups in time is not at stake
                sx.assume(e[0][0] >= 0 if last is None else sep(last, e[0][0]))
                last = e[0][0]
        else:
            tiers.append(list(zip(ivs, aligned_specs(sx, f"{nm}{k}_", listify(s), first=last))))
            last = tiers[-1][0][1][-1][1]
    if how == "groups":
        groups = []
        for g in tiers:
            if issubclass(g[0][0], SequencePoint):
                groups.append(PointsGroup([SequencePointTier([c(e) for e in es]) for c, es in g]))
            else:
                groups.append(quiet(TierGroup, [SequenceTier([c(e) for e in es]) for c, es in g]))
        if sx.choose(nm + "inc", 2):
            atg = quiet(AlignedTextGrid)
            for g in groups:
                quiet(atg.append, g)
            return atg
        return quiet(AlignedTextGrid, groups)
    tg = Textgrid()
    n = 0
    for g in tiers:
        for c, es in g:
            if issubclass(c, SequencePoint):
                quiet(tg.addTier, PointTier(f"t{n}", es))
            else:
                quiet(tg.addTier, IntervalTier(f"t{n}", es))
            n += 1
    ecs = [[c for c, _ in g] for g in tiers]
    if how == "flat":
        ecs = ivs
    return quiet(AlignedTextGrid, tg, ecs)

def act(sx, tag, atg, what, cls):
    if what == "interleave":
        do_interleave(sx, atg, tag + "Extra", tag)
    elif what == "pop":
        ns = class_names(atg)
        if ns:
            do_pop(sx, atg, ns[sx.choose(tag + "n", len(ns))])
    elif what == "append":
        ivs = [c for c in cls if issubclass(c, SequenceInterval)]
        shape = {1: None, 2: [1, 1], 3: [[1], [1]]}[len(ivs)]
        lv = aligned_specs(sx, tag + "g", shape, first=atg.xmax)
        quiet(atg.append, quiet(TierGroup, [SequenceTier([c(t) for t in l]) for c, l in zip(ivs, lv)]))
    elif what == "append-other":
        lv = aligned_specs(sx, tag + "g", [1, 1], first=atg.xmax)
        quiet(atg.append, quiet(TierGroup, [SequenceTier([c(t) for t in l]) for c, l in zip(custom_classes(["Phrase", "Tone"]), lv)]))
    elif what == "append-entry":
        g = [g for g in atg if isinstance(g, TierGroup)][0]
        ivs = [c for c in cls if issubclass(c, SequenceInterval)]
        e = sx.real(tag + "e")
        sx.assume(sep(g[0][-1].end, e))
        quiet(g[0].append, ivs[0]((g[0][-1].end, e, sx.label(tag + "L"))))
    elif what == "fuse":
        t = [g for g in atg if isinstance(g, TierGroup)][0][0]
        if len(t) > 1:
            quiet(t[0].fuse_rightwards)
    elif what == "shift":
        quiet(atg.shift, sx.real(tag + "by"))
    elif what == "cleanup":
        quiet(atg.cleanup)
    elif what == "rerelate":
        for g in atg:
            if isinstance(g, TierGroup):
                quiet(g.re_relate)
    elif what == "reclass":
        # the textgrid's own classes are changed directly
        ns = class_names(atg)
        c = atg.get_class_by_name(ns[sx.choose(tag + "n", len(ns))])
        c.colour = "red"
        N, = custom_classes([tag + "New"])
        if sx.choose(tag + "side", 2):
            c.set_superset_class(N)
        else:
            c.set_subset_class(N)
    elif what == "feature":
        for g in atg:
            for x in g[0]:
                x.set_feature("colour", "red") if hasattr(x, "set_feature") else None
    elif what == "copy":
        quiet(AlignedTextGrid, quiet(atg.return_textgrid), [list(g.entry_classes) for g in atg])

ACTS = ["interleave", "pop", "append", "append-other", "append-entry", "fuse", "shift", "cleanup", "rerelate", "reclass", "feature", "copy"]

def given(kind):
    if kind == "wp":
        return [Word, Phone]
    if kind == "deep":
        return custom_classes(["Word", "Syl", "Phone"])
    if kind == "points":
        return custom_classes(["Word", "Phone", "Peak", "Low"], points=[2, 3])
    if kind == "base":
        return [SequenceInterval]
    if kind == "clone":
        return get_class_hierarchy(clone_class(Word), [])
    return custom_classes(["Word", "Phone"])

def h_two(sx, kind, spec, how, acts):
    cls = given(kind)
    snap = Classes(cls)
    a = make(sx, "a", spec, cls, how)
    snap.check(sx, "making a textgrid")
    own_classes(sx, a, cls, "making a textgrid")
    b = make(sx, "b", spec, cls, how)
    snap.check(sx, "making a second textgrid")
    own_classes(sx, b, cls, "making a second textgrid")
    disjoint_classes(sx, a, b, "two textgrids")
    other = Before(b)
    sup = [[chain(c) for c in g.entry_classes] for g in b]
    for i, what in enumerate(acts):
        act(sx, f"o{i}", a, what, cls)
        snap.check(sx, what)
        check_same(sx, other, sup, f"{what} on one textgrid leaves the other")
        if "reclass" not in acts:
            own_classes(sx, a, cls, what)
            disjoint_classes(sx, a, b, what)
    for c in [c for g in b for c in g.entry_classes] + cls:
        sx.check(not hasattr(c, "colour"), "features of one class are not another's")

def h_default(sx, n):
    """no entry classes given"""
    snap = Classes([SequenceInterval])
    tgs = []
    for k in range(2):
        tg = Textgrid()
        for i in range(n):
            ts = sep_times(sx, f"t{k}{i}_", 2)
            if i:
                sx.assume(sep(last, ts[0]))
            last = ts[2]
            quiet(tg.addTier, IntervalTier(f"t{i}", [(ts[0], ts[1], sx.label(f"L{k}{i}a")), (ts[1], ts[2], sx.label(f"L{k}{i}b"))]))
        tgs.append(quiet(AlignedTextGrid, tg))
    snap.check(sx, "making a textgrid")
    for a in tgs:
        own_classes(sx, a, [SequenceInterval], "making a textgrid")
    disjoint_classes(sx, tgs[0], tgs[1], "two textgrids")
    other = Before(tgs[1])
    sup = [[chain(c) for c in g.entry_classes] for g in tgs[1]]
    do_interleave(sx, tgs[0], "Extra")
    snap.check(sx, "interleave")
    check_same(sx, other, sup, "interleave on one textgrid leaves the other")

def h_homonyms(sx, hows, made):
    """groups whose classes have the same names but other places in other hierarchies"""
    A, B = custom_classes(["A", "B"])
    fam = {"ab": [A, B], "b": custom_classes(["B"]), "ba": custom_classes(["B", "A"]), "abc": custom_classes(["A", "B", "C"]), "a": custom_classes(["A"])}
    given = [c for h in hows for c in fam[h]]
    snap = Classes(given)
    groups, last = [], None
    for k, h in enumerate(hows):
        lv = aligned_specs(sx, f"h{k}_", {1: None, 2: [1, 1], 3: [[1], [1]]}[len(fam[h])], first=last) if len(fam[h]) > 1 else None
        if lv is None:
            ts = sep_times(sx, f"h{k}_", 1)
            if last is not None:
                sx.assume(sep(last, ts[0]))
            lv = [[(ts[0], ts[1], sx.label(f"h{k}_L"))]]
        last = lv[0][-1][1]
        groups.append(quiet(TierGroup, [SequenceTier([c(t) for t in l]) for c, l in zip(fam[h], lv)]))
    if made == "list":
        atg = quiet(AlignedTextGrid, groups)
    else:
        atg = quiet(AlignedTextGrid, groups[:1])
        for g in groups[1:]:
            quiet(atg.append, g)
    snap.check(sx, "groups of namesakes")
    sx.check(len(atg) == len(hows), "groups of namesakes: every group is there")
    own = {}
    for g, h in zip(atg, hows):
        sx.check(len(g) == len(fam[h]), "groups of namesakes: every tier is there")
        cl = [t.entry_class for t in g]
        for c, u, t in zip(cl, fam[h], g):
            sx.check(c is not u and issubclass(c, u) and c.__name__ == u.__name__, "groups of namesakes: the class is a kind of the given one", detail=f"{c.__mro__} {u}")
            sx.check(own.setdefault(u, c) is c, "groups of namesakes: one class for each one given")
            for x in t:
                sx.check(type(x) is c, "groups of namesakes: entries are of their tier's class")
        for a, b in zip(cl, cl[1:]):
            sx.check(a.subset_class is b and b.superset_class is a, "groups of namesakes: the hierarchy is the given one")
        sx.check(issubclass(cl[0].superset_class, Top) and issubclass(cl[-1].subset_class, Bottom), "groups of namesakes: the hierarchy is the given one")

def h_custom(sx):
    """making classes changes no others"""
    a = custom_classes(["Word", "Phone"])
    snap = Classes(a)
    b = custom_classes(["Word", "Syl", "Phone", "Peak"], points=[3])
    snap.check(sx, "making classes")
    snap2 = Classes(b)
    c = clone_class(b[0])
    d = clone_class(b[3])
    e = clone_class(Word)
    snap.check(sx, "cloning classes")
    snap2.check(sx, "cloning classes")
    sx.check(not (set(a) & set(b)), "new classes are new")
    c.set_subset_class(a[1])        # takes a[1] away from a[0] on purpose
    snap2.check(sx, "changing a clone")
    sx.check(Word.subset_class is Phone and Phone.superset_class is Word, "changing a clone leaves Word and Phone")

def instances(tier):
    th = tier == "thorough"
    out = []
    add = lambda nm, fn, **kw: out.append(Instance(nm, fn, kw))
    base = {"wp": [(2, 1)], "custom": [(2, 1)], "deep": [((2, 1), (1,))], "points": [(1, 1), 2], "clone": [(1, 2)]}
    skip = lambda kind, acts: (acts[-1] == "append" and any(x in ("interleave", "pop", "reclass") for x in acts[:-1])) or "reclass" in acts[:-1] or \
        (acts[-1] == "append-other" and "append-other" in acts[:-1]) or ("pop" in acts[:-1] and acts[-1] in ("append-entry",)) or \
        ("interleave" in acts[:-1] and acts[-1] == "append-entry")
    for kind, spec in base.items():
        for how in ("groups", "nested") + (("flat",) if kind != "points" else ()):
            for w in ACTS:
                add(f"{kind}-{how}-{w}", h_two, kind=kind, spec=spec, how=how, acts=[w])
    two = {"wp": [(2, 1), (1, 1)], "custom": [(1, 2), (2,), (1,)], "points": [1, (2,), (1, 1)]}
    for kind, spec in two.items():
        for w in ACTS:
            add(f"{kind}-multi-{w}", h_two, kind=kind, spec=spec, how="groups", acts=[w])
    for kind in ("wp", "points") if not th else ("wp", "points", "deep", "custom", "clone"):
        for v in ACTS:
            for w in ACTS:
                if not skip(kind, [v, w]) and (th or kind == "wp" or v in ("interleave", "pop", "append")):
                    add(f"{kind}-{v}-{w}", h_two, kind=kind, spec=base[kind], how="groups", acts=[v, w])
    if th:
        for v in ("interleave", "append", "append-other", "pop"):
            for w in ACTS:
                for x in ("interleave", "pop", "copy", "reclass"):
                    if not skip("wp", [v, w]) and not skip("wp", [v, w, x]) and w != "reclass":
                        add(f"wp-{v}-{w}-{x}", h_two, kind="wp", spec=base["wp"], how="groups", acts=[v, w, x])
    for n in (1, 2):
        add(f"default-{n}", h_default, n=n)
    add("custom", h_custom)
    for made in ("list", "append"):
        for hows in (["ab", "b"], ["b", "ab"], ["ab", "ba"], ["ab", "abc"], ["abc", "ab"], ["ab", "a"], ["a", "ab", "b"], ["ab", "b", "ab"]):
            add(f"homonyms-{'-'.join(hows)}-{made}", h_homonyms, hows=hows, made=made)
    return out
