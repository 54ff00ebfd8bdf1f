"""C13: interleaving and popping classes."""
from harness.worlds import *

BOUNDS = ("textgrids of up to 3 interval groups and a points group, up to 6 words / 10 phones / 3 levels, gaps between words; every class, side, "
          "timing and label choice; one or two classes interleaved, and popped in either order; after one other operation")
ASSUMES = ["boundaries of the groups are aligned and differ by more than the closeness tolerance"]


class Before:
    """a textgrid before an operation"""
    def __init__(self, atg):
        self.atg = atg
        self.groups = list(atg)
        self.names = [g.name for g in atg]
        self.tiers = [list(g) for g in atg]
        self.classes = [[c.__name__ for c in g.entry_classes] for g in atg]
        self.entries = [[[(x, x.start, getattr(x, "end", None), x.label) for x in t] for t in g] for g in atg]
        self.parent = {}
        self.kids = {}
        for g in atg:
            for t in g:
                for x in t:
                    if hasattr(x, "subset_list"):
                        self.parent[id(x)] = x.super_instance
                        self.kids[id(x)] = list(x.subset_list)


def same_tier(sx, t, entries, what):
    sx.check(len(t) == len(entries), f"{what}: the tier has its entries")
    for x, (y, s, e, l) in zip(t, entries):
        sx.check(x is y, f"{what}: the same entries in the same order")
        sx.check(conj(eq(x.start, s), eq(x.label, l)), f"{what}: times and labels are kept")
        if e is not None:
            sx.check(eq(x.end, e), f"{what}: times and labels are kept")

def check_names(sx, atg, what):
    names = [g.name for g in atg]
    for g in atg:
        sx.check(g.within is atg, f"{what}: groups are within the textgrid")
        for i, t in enumerate(g):
            sx.check(t.within is g, f"{what}: tiers are within their group")
            sx.check(getattr(g, t.entry_class.__name__) is t, f"{what}: tiers are found by name")
        if len(set(names)) == len(names):
            sx.check(getattr(atg, g.name) is g, f"{what}: groups are found by name")

def check_classes(sx, g, what):
    cl = g.entry_classes
    for t in g:
        sx.check(all(type(x) is t.entry_class for x in t), f"{what}: entries are of their tier's class")
    if not issubclass(cl[0], SequenceInterval):
        return
    for t, c in zip(g, cl):
        sx.check(t.superset_class is c.superset_class and t.subset_class is c.subset_class, f"{what}: tier and class agree on the hierarchy")
    for a, b in zip(cl, cl[1:]):
        sx.check(a.subset_class is b and b.superset_class is a, f"{what}: the classes are in the order of the tiers")
    sx.check(issubclass(cl[0].superset_class, Top), f"{what}: nothing is above the top class")
    sx.check(issubclass(cl[-1].subset_class, Bottom), f"{what}: nothing is below the bottom class")

def links(sx, x, parent, kids, what):
    sx.check(x.super_instance is parent, f"{what}: the parent is as it should be")
    same_objects(sx, x.subset_list, kids, f"{what}: the children are as they should be")

def check_interleaved(sx, b, name, spec, above, frm, copy):
    """b.atg after interleaving `name` above/below class `spec` with timing from `frm`"""
    atg, what = b.atg, "interleaving"
    sx.check(len(atg) == len(b.groups), f"{what}: groups stay")
    for gi, g in enumerate(atg):
        sx.check(g.name == b.names[gi], f"{what}: groups keep their names", detail=f"{g.name} {b.names[gi]}")
        if spec not in b.classes[gi]:
            sx.check(g is b.groups[gi] and [c.__name__ for c in g.entry_classes] == b.classes[gi], f"{what}: other groups are untouched")
            for t, es in zip(g, b.entries[gi]):
                same_tier(sx, t, es, what)
                for x in t:
                    if id(x) in b.parent:
                        links(sx, x, b.parent[id(x)], b.kids[id(x)], what)
            continue
        k = b.classes[gi].index(spec) + (0 if above else 1)      # index of the new tier
        want = b.classes[gi][:k] + [name] + b.classes[gi][k:]
        sx.check([c.__name__ for c in g.entry_classes] == want, f"{what}: the new tier is where it was asked for", detail=f"{g.entry_classes}")
        if [c.__name__ for c in g.entry_classes] != want:
            continue
        check_classes(sx, g, what)
        old = [t for i, t in enumerate(g) if i != k]
        for t, es in zip(old, b.entries[gi]):
            same_tier(sx, t, es, what)
        src = b.entries[gi][k if frm == "below" else k - 1]
        new = list(g[k])
        sx.check(len(new) == len(src), f"{what}: one new interval per interval of the timing tier")
        for x, (y, s, e, l) in zip(new, src):
            sx.check(conj(eq(x.start, s), eq(x.end, e)), f"{what}: timing is that of the timing tier")
            sx.check(eq(x.label, l if copy else ""), f"{what}: labels are copied or blank")
            if frm == "below":
                links(sx, x, b.parent[id(y)], [y], what)
                sx.check(y.super_instance is x, f"{what}: the new interval is the parent")
            else:
                links(sx, x, y, b.kids[id(y)], what)
                same_objects(sx, y.subset_list, [x], f"{what}: the new interval is the child")
        # everything away from the new tier keeps parents and children
        n = len(old)
        for i, t in enumerate(old):
            for x in t:
                if i != k:
                    sx.check(x.super_instance is b.parent[id(x)], f"{what}: other parents are kept")
                if i != k - 1:
                    same_objects(sx, x.subset_list, b.kids[id(x)], f"{what}: other children are kept")
        for x in g[k]:
            sx.check(x.intier is g[k], f"{what}: new intervals are on their tier")
    check_names(sx, atg, what)

def check_popped(sx, b, name):
    atg, what = b.atg, "popping"
    keep = [i for i, c in enumerate(b.classes) if c != [name]]
    sx.check(len(atg) == len(keep), f"{what}: only groups with nothing else are removed", detail=f"{len(atg)} {len(keep)}")
    if len(atg) != len(keep):
        return
    for g, gi in zip(atg, keep):
        sx.check(g.name == b.names[gi], f"{what}: groups keep their names")
        if name not in b.classes[gi]:
            sx.check(g is b.groups[gi] and [c.__name__ for c in g.entry_classes] == b.classes[gi], f"{what}: other groups are untouched")
            for t, es in zip(g, b.entries[gi]):
                same_tier(sx, t, es, what)
                for x in t:
                    if id(x) in b.parent:
                        links(sx, x, b.parent[id(x)], b.kids[id(x)], what)
            continue
        k = b.classes[gi].index(name)
        want = [c for c in b.classes[gi] if c != name]
        sx.check([c.__name__ for c in g.entry_classes] == want, f"{what}: the other tiers stay, in order")
        if [c.__name__ for c in g.entry_classes] != want:
            continue
        check_classes(sx, g, what)
        left = [es for i, es in enumerate(b.entries[gi]) if i != k]
        for i, (t, es) in enumerate(zip(g, left)):
            same_tier(sx, t, es, what)
            for x in t:
                p, c = b.parent[id(x)], b.kids[id(x)]
                if i == k and p is not None:               # its parent was popped
                    p = b.parent[id(p)]
                if i == k - 1:
                    c = [z for y in c for z in b.kids[id(y)]]
                links(sx, x, p, c, what)
                if i == len(want) - 1:
                    sx.check(list(x.contains) == [], f"{what}: the lowest intervals contain nothing")
    for gi, cl in enumerate(b.classes):
        if gi not in keep:
            sx.check(not hasattr(atg, b.names[gi]) or b.names.count(b.names[gi]) > 1, f"{what}: a removed group is not found by name")
    check_names(sx, atg, what)


# ------------------------------------------------------------------ harnesses

def textgrid(sx, spec, gaps=False):
    """spec: list of (shape, class names) or ("points", n)"""
    groups, made = [], {}
    for k, (shape, names, *named) in enumerate(spec):
        if shape == "points":
            cl = custom_classes(list(names), points=list(range(len(names))))
            groups.append(PointsGroup([SequencePointTier([c((sx.real(f"p{k}{i}"), sx.label(f"pL{k}{i}")))]) for i, c in enumerate(cl)]))
            continue
        cls = made.setdefault(names, custom_classes(list(names)))
        if shape == "empty":
            groups.append(quiet(TierGroup, [SequenceTier([], entry_class=c) for c in cls]))
            groups[-1].name = named[0] if named else f"speaker{k}"
            continue
        if isinstance(shape, int):
            ts = sep_times(sx, f"g{k}_", shape)
            levels = [[(ts[i], ts[i + 1], sx.label(f"g{k}_L{i}")) for i in range(shape)]]
        else:
            levels = aligned_specs(sx, f"g{k}_", listify(shape), gaps=gaps)
        tiers = [SequenceTier([c(t) for t in lv]) for c, lv in zip(cls, levels)]
        g = quiet(TierGroup, tiers)
        g.name = named[0] if named else f"speaker{k}"
        groups.append(g)
    return quiet(AlignedTextGrid, groups)

def moves(atg):
    """every legal (class, above?, timing)"""
    names = []
    for g in atg:
        if isinstance(g, TierGroup):
            names += [c.__name__ for c in g.entry_classes if c.__name__ not in names]
    out = []
    for n in names:
        for above in (True, False):
            for frm in ("above", "below"):
                ok = True
                for g in atg:
                    cl = [c.__name__ for c in g.entry_classes]
                    if n in cl:
                        i = cl.index(n) + (0 if above else 1)
                        ok = ok and (i > 0 if frm == "above" else i < len(cl))
                if ok:
                    out.append((n, above, frm))
    return out

def do_interleave(sx, atg, name, tag="", as_class=False):
    ms = moves(atg)
    n, above, frm = ms[sx.choose(tag + "m", len(ms))]
    copy = bool(sx.choose(tag + "copy", 2))
    b = Before(atg)
    ref = n
    if as_class:
        ref = [c for g in atg for c in g.entry_classes if c.__name__ == n][0]
    kw = {"above" if above else "below": ref}
    if frm != "below":
        kw["timing_from"] = frm
    if not copy:
        kw["copy_labels"] = False
    quiet(atg.interleave_class, name, **kw)
    check_interleaved(sx, b, name, n, above, frm, copy)

def do_pop(sx, atg, name, as_class=False):
    b = Before(atg)
    ref = name if not as_class else [c for g in atg for c in g.entry_classes if c.__name__ == name][0]
    quiet(atg.pop_class, ref)
    check_popped(sx, b, name)

def class_names(atg):
    out = []
    for g in atg:
        if isinstance(g, TierGroup):
            out += [c.__name__ for c in g.entry_classes if c.__name__ not in out]
    return out

def h_interleave(sx, spec, gaps=False, as_class=False, name="Extra"):
    do_interleave(sx, textgrid(sx, spec, gaps), name, as_class=as_class)

def h_pop(sx, spec, gaps=False, as_class=False):
    atg = textgrid(sx, spec, gaps)
    ns = class_names(atg)
    do_pop(sx, atg, ns[sx.choose("n", len(ns))], as_class=as_class)

def h_there_and_back(sx, spec, gaps=False, name="Extra"):
    """popping the interleaved class restores the textgrid"""
    atg = textgrid(sx, spec, gaps)
    b = Before(atg)
    do_interleave(sx, atg, name)
    do_pop(sx, atg, name)
    sx.check([[c.__name__ for c in g.entry_classes] for g in atg] == b.classes, "there and back: the same classes")
    for g, es in zip(atg, b.entries):
        for t, e in zip(g, es):
            same_tier(sx, t, e, "there and back")
            for x in t:
                if id(x) in b.parent:
                    links(sx, x, b.parent[id(x)], b.kids[id(x)], "there and back")

def h_two(sx, spec, order):
    atg = textgrid(sx, spec)
    b = Before(atg)
    do_interleave(sx, atg, "Extra", "a")
    do_interleave(sx, atg, "More", "b")
    for n in order:
        do_pop(sx, atg, n)
    if len(order) == 2:
        for g, es in zip(atg, b.entries):
            for t, e in zip(g, es):
                same_tier(sx, t, e, "there and back")
                for x in t:
                    links(sx, x, b.parent[id(x)], b.kids[id(x)], "there and back")

def h_pop_all(sx, spec):
    atg = textgrid(sx, spec)
    while class_names(atg):
        ns = class_names(atg)
        do_pop(sx, atg, ns[sx.choose(f"n{len(ns)}", len(ns))])

def h_refused(sx, spec, k):
    """calls that cannot be carried out change nothing"""
    atg = textgrid(sx, spec)
    b = Before(atg)
    sup = [[(getattr(c, "superset_class", None), getattr(c, "subset_class", None)) for c in g.entry_classes] for g in atg]
    top, low = b.classes[0][0], b.classes[0][-1]
    calls = [dict(name="X"), dict(name="X", above=low, below=top), dict(name="", above=low), dict(name="X", above=low, timing_from="both"),
             dict(name="X", above=top, timing_from="above"), dict(name="X", below=low, timing_from="below"), dict(name="X", above="Nothing"),
             dict(name="X", below="Nothing")]
    try:
        quiet(atg.interleave_class, **calls[k])
    except Exception:
        pass
    else:
        sx.check(False, "a call that cannot be carried out is refused")
    check_nothing(sx, b, sup)

def check_nothing(sx, b, sup):
    atg = b.atg
    same_objects(sx, atg, b.groups, "nothing changed: groups")
    for g, ts, es, cl, sp in zip(atg, b.tiers, b.entries, b.classes, sup):
        same_objects(sx, g, ts, "nothing changed: tiers")
        sx.check([c.__name__ for c in g.entry_classes] == cl, "nothing changed: classes")
        sx.check([(getattr(c, "superset_class", None), getattr(c, "subset_class", None)) for c in g.entry_classes] == sp, "nothing changed: class hierarchy")
        for t, e in zip(g, es):
            same_tier(sx, t, e, "nothing changed")
            for x in t:
                if id(x) in b.parent:
                    links(sx, x, b.parent[id(x)], b.kids[id(x)], "nothing changed")

def h_mixed_refused(sx):
    """a group without the timing tier: refused as a whole"""
    W, P = custom_classes(["Word", "Phone"])
    mk = lambda c, n: SequenceTier([c((sx.real(n + "a"), sx.real(n + "b"), sx.label(n)))])
    w, p, v = mk(W, "w"), mk(P, "p"), mk(W, "v")
    for t in (w, p, v):
        sx.assume(t[0].start < t[0].end)
    sx.assume(conj(eq(w[0].start, p[0].start), eq(w[0].end, p[0].end)))
    atg = quiet(AlignedTextGrid, [quiet(TierGroup, [w, p]), quiet(TierGroup, [v])])
    b = Before(atg)
    sup = [[(c.superset_class, c.subset_class) for c in g.entry_classes] for g in atg]
    try:
        quiet(atg.interleave_class, "X", below="Word")
    except Exception:
        pass
    else:
        sx.check(False, "a call that cannot be carried out is refused")
    check_nothing(sx, b, sup)

def h_absent(sx, spec):
    """popping a class that is not there changes nothing"""
    atg = textgrid(sx, spec)
    b = Before(atg)
    sup = [[(getattr(c, "superset_class", None), getattr(c, "subset_class", None)) for c in g.entry_classes] for g in atg]
    quiet(atg.pop_class, "Nothing")
    check_nothing(sx, b, sup)

def h_ops(sx, ops, shape, then, **kw):
    w = run_ops(sx, ops, shape, (), **kw)
    if w.atg is None or w.odd or not w.complete or not w.snug or any(len(t) == 0 for g in w.groups for t in g):
        return
    if then == "interleave":
        do_interleave(sx, w.atg, "Later", "then")
    else:
        ns = class_names(w.atg)
        do_pop(sx, w.atg, ns[sx.choose("thenn", len(ns))])

WP, WSP, W1 = ("Word", "Phone"), ("Word", "Syl", "Phone"), ("Word",)
OTHER = ("Phrase", "Tone")

def instances(tier):
    th = tier == "thorough"
    out = []
    add = lambda nm, fn, **kw: out.append(Instance(nm, fn, kw))
    specs = {"one": [((2, 1), WP)], "deep": [(DEEP, WSP)], "two": [((2, 1), WP), ((1, 2), WP)], "flat": [((2,), WP)], "single": [(2, W1)],
             "other": [((2, 1), WP), ((1, 1), OTHER)], "points": [((1, 2), WP), ("points", ("Peak", "Low"))],
             "points-first": [("points", ("Peak",)), ((2, 1), WP)], "three": [((1,), WP), ((1, 1), OTHER), ((2,), WP)],
             "wide": [(WIDE, WP)], "namesakes": [((1,), WP, "A"), ((2, 1), WP, "A"), ((1,), WP, "B")],
             "namesakes-apart": [((1,), WP, "A"), ((1,), OTHER, "B"), ((1, 1), WP, "A")],
             "namesakes-other": [((1, 1), WP, "A"), ((1,), OTHER, "A")],
             "empty": [((1, 2), WP), ("empty", WP)], "empty-first": [("empty", WSP), (((1, 1), (1,)), WSP)],
             "empty-other": [((2, 1), WP), ("empty", OTHER), ((1,), WP)], "empty-only": [("empty", WP)],
             "levels": [(((1, 1), (1,)), WSP), ((1, 1), OTHER), (((1,), (1, 1)), WSP)]}
    add("interleave-many", h_interleave, spec=[(MANY, WP)])
    add("pop-many", h_pop, spec=[(MANYDEEP, WSP)])
    add("back-many", h_there_and_back, spec=[(MANYDEEP, WSP)])
    if th:
        specs["four"] = [((1,), WP), ((1, 1), WP), ((1,), OTHER), ((2,), WP)]
        specs["points-between"] = [((1, 2), WP), ("points", ("Peak", "Low")), ((1,), WP), ("points", ("Peak",))]
        specs["deep4"] = [((((1, 1),), ((1,), (2,))), ("Word", "Foot", "Syl", "Phone"))]
    for n, s in specs.items():
        add(f"interleave-{n}", h_interleave, spec=s)
        add(f"pop-{n}", h_pop, spec=s)
        add(f"back-{n}", h_there_and_back, spec=s)
        if n != "wide":
            add(f"popall-{n}", h_pop_all, spec=s)
        if th or n in ("one", "two", "deep"):
            add(f"interleave-{n}-gaps", h_interleave, spec=s, gaps=True)
            add(f"pop-{n}-gaps", h_pop, spec=s, gaps=True)
            add(f"back-{n}-gaps", h_there_and_back, spec=s, gaps=True)
    # classes (and so tiers) whose names begin alike
    alike = {"alike": [((2, 1), ("PrWord", "PrPhone"), "speaker"), ((1,), ("PrWord", "PrPhone"), "other")],
             "alike-deep": [(DEEP, ("PrWord", "PrSyl", "PrPhone"), "speaker")], "alike-some": [(((1, 1), (1,)), ("Word", "PrSyl", "PrPhone"), "speaker")]}
    for n, s in alike.items():
        add(f"interleave-{n}", h_interleave, spec=s, name="PrExtra")
        add(f"interleave-top-{n}", h_interleave, spec=s, name="Topic")
        add(f"back-bottom-{n}", h_there_and_back, spec=s, name="BottomLine")
        add(f"pop-{n}", h_pop, spec=s)
        add(f"back-{n}", h_there_and_back, spec=s, name="PrExtra")
    add("interleave-class", h_interleave, spec=specs["one"], as_class=True)
    add("interleave-class-other", h_interleave, spec=specs["other"], as_class=True)
    add("pop-class", h_pop, spec=specs["deep"], as_class=True)
    for order in (["Extra"], ["More"], ["Extra", "More"], ["More", "Extra"]):
        add(f"two-{'-'.join(order)}", h_two, spec=[((2, 1), WP)], order=order)
        if th:
            add(f"two-deep-{'-'.join(order)}", h_two, spec=[(((1, 2), (1,)), WSP)], order=order)
            add(f"two-two-{'-'.join(order)}", h_two, spec=specs["two"], order=order)
    for k in range(8):
        add(f"refused-{k}", h_refused, spec=specs["other"], k=k)
    add("refused-mixed", h_mixed_refused)
    add("absent", h_absent, spec=specs["points"])
    skip = ("none", "append_phone_tier", "pop_top", "pop_low", "sub_pop", "sub_remove", "remove_superset", "move", "move_append", "assign_subset",
            "replace_alike", "word_append", "add", "append_bare_word")
    for op in OPS:
        if op in skip:
            continue
        for then in ("interleave", "pop"):
            for shape in ((2, 1), DEEP) if th and op not in ("append_word", "append_word_far", "append_front", "concat") else ((2, 1),):
                add(f"op-{op}-{then}-{len(shape)}", h_ops, ops=[op], shape=shape, atg=True, then=then)
    return out
