"""C23: custom and cloned classes."""
import itertools
from harness.worlds import *
from aligned_textgrid.custom_classes import clone_class, get_class_hierarchy

BOUNDS = ("up to 5 classes with ordinary names and names like those of other classes, any of them points, returned in any order by name or number, single names; their clones and hierarchies; and entries of these classes at any times, related "
          "and grouped; up to 3 relations between up to 4 classes set by hand")
ASSUMES = ["names are distinct"]
SETS = [["Line", "Word", "Syl", "Part", "Phone"], ["Topic", "BottomLine", "Point", "Interval", "StopPart"], ["w", "W", "Ww", "Top", "Bottom"], ["Bottom_1", "Top_1", "A B", "Ende", "ə"]]

def pick_names(sx, n):
    """ordinary names, and names like those of other classes"""
    return SETS[sx.choose("names", len(SETS))][:n]

def check_chain_of(sx, ints, what):
    for a, b in zip(ints, ints[1:]):
        sx.check(a.subset_class is b and b.superset_class is a, f"{what}: each class is above the next")
    if ints:
        sx.check(issubclass(ints[0].superset_class, Top) and ints[0].superset_class is not Top, f"{what}: nothing is above the first")
        sx.check(issubclass(ints[-1].subset_class, Bottom) and ints[-1].subset_class is not Bottom, f"{what}: nothing is below the last")
        sx.check(ints[0].superset_class.subset_class is ints[0] and ints[-1].subset_class.superset_class is ints[-1], f"{what}: the ends know the classes")

def pick_points(sx, n):
    return [i for i in range(n) if sx.choose(f"pt{i}", 2)]

def make(sx, n, order, pts):
    names = pick_names(sx, n)
    points = pick_points(sx, n) if pts else []
    if order is None:
        got = custom_classes(names, points=points) if points else custom_classes(names)
        p = tuple(range(n))
    else:
        ps = list(itertools.permutations(range(n)))
        p = ps[sx.choose("perm", len(ps))]
        ro = [names[i] for i in p] if order == "names" else list(p)
        got = custom_classes(names, return_order=ro, points=points)
    return names, points, p, got

def h_make(sx, n, order, pts):
    before = [(c, c.superset_class, c.subset_class) for c in (SequenceInterval, Word, Phone)]
    names, points, p, got = make(sx, n, order, pts)
    sx.check(isinstance(got, list) and len(got) == n, "as many classes as names")
    sx.check([c.__name__ for c in got] == [names[i] for i in p], "classes come in the order asked for", detail=str(got))
    by = {i: c for i, c in zip(p, got)}
    for i in range(n):
        c = by[i]
        if i in points:
            sx.check(issubclass(c, SequencePoint) and not issubclass(c, SequenceInterval), "point classes are points")
        else:
            sx.check(issubclass(c, SequenceInterval) and not issubclass(c, SequencePoint), "interval classes are intervals")
    ints = [by[i] for i in range(n) if i not in points]
    check_chain_of(sx, ints, "custom classes")
    for c in ints:
        h = get_class_hierarchy(c)
        sx.check(len(h) == len(ints) and all(a is b for a, b in zip(h, ints)), "the hierarchy of a class, from the top", detail=str(h))
    for c, a, b in before:
        sx.check(c.superset_class is a and c.subset_class is b, "no other class is changed")
    again = custom_classes(names, points=points)
    sx.check(not (set(again) & set(got)), "classes are new each time")
    check_chain_of(sx, ints, "after making others")

def h_single(sx, point):
    c = custom_classes("Word", points=[0]) if point else custom_classes("Word")
    sx.check(isinstance(c, type) and c.__name__ == "Word", "one name gives one class")
    if point:
        sx.check(issubclass(c, SequencePoint), "a point class")
        x = c((sx.real("t"), sx.label("l")))
        sx.check(type(x) is c, "with entries of its own")
    else:
        check_chain_of(sx, [c], "single")
    sx.check(custom_classes() == [] and custom_classes([]) == [], "no names give no classes")

def h_clone(sx, n, twice):
    names = pick_names(sx, n)
    cl = custom_classes(names)
    top = clone_class(cl[0])
    if twice:
        top = clone_class(top)
    h = get_class_hierarchy(top)
    sx.check([c.__name__ for c in h] == names, "a clone has the names of the original")
    sx.check(not (set(h) & set(cl)), "and is not the original")
    for a, b in zip(h, cl):
        sx.check(issubclass(a, b) and not issubclass(b, a), "but a kind of it")
    check_chain_of(sx, h, "clone")
    check_chain_of(sx, cl, "original")
    ends = [h[0].superset_class, h[-1].subset_class, cl[0].superset_class, cl[-1].subset_class]
    sx.check(len(set(ends)) == 4, "clone and original have ends of their own")
    # changing the clone leaves the original
    new, = custom_classes(["New"])
    new.set_subset_class(h[0])
    check_chain_of(sx, cl, "original after a change of the clone")
    sx.check(get_class_hierarchy(cl[0]) == cl, "original after a change of the clone")
    sx.check(get_class_hierarchy(h[-1]) == [new] + h, "the clone is changed")
    for c in cl[1:]:
        try:
            clone_class(c)
        except Exception:
            pass
        else:
            sx.check(False, "only from the top")

def h_clone_point(sx):
    c, = custom_classes(["Tone"], points=[0])
    d = clone_class(c)
    sx.check(d is not c and issubclass(d, c) and d.__name__ == "Tone" and issubclass(d, SequencePoint), "a cloned point class")
    x = d((sx.real("t"), sx.label("l")))
    sx.check(isinstance(x, c) and not isinstance(c((sx.real("t"), sx.label("l"))), d), "its entries are points of the original class, not the other way round")

def h_builtin(sx):
    a, = custom_classes(["A"])
    for c in (Word, SequenceInterval):
        d = clone_class(c)
        h, g = get_class_hierarchy(d), get_class_hierarchy(c)
        sx.check([x.__name__ for x in h] == [x.__name__ for x in g] and not (set(h) & set(g)), "clones of built in classes")
        check_chain_of(sx, h, "clone")
    sx.check(Word.subset_class is Phone and Phone.superset_class is Word, "the built in classes are as they were")
    sx.check(issubclass(Word.superset_class, Top) and issubclass(Phone.subset_class, Bottom), "the built in classes are as they were")

def h_relate(sx, shape, order, how):
    """entries of the classes are related as the classes are"""
    lv = aligned_specs(sx, "g", listify(shape))
    n = len(lv)
    names = pick_names(sx, n)
    ps = list(itertools.permutations(range(n)))
    p = ps[sx.choose("perm", len(ps))]
    got = custom_classes(names, return_order=[names[i] for i in p] if order == "names" else list(p))
    by = dict(zip(p, got))
    if how == "read":
        tg = Textgrid()
        for i in p:
            quiet(tg.addTier, IntervalTier(names[i], lv[i]))
        g, = quiet(AlignedTextGrid, tg, got)
    else:
        ents = {i: [by[i](e) for e in lv[i]] for i in range(n)}
        g = quiet(TierGroup, [SequenceTier(ents[i]) for i in p])
    sx.check([c.__name__ for c in g.entry_classes] == names, "tiers from the top down", detail=str(g.entry_classes))
    for t, es in zip(g, lv):
        sx.check(len(t) == len(es), "all entries")
        for x, e in zip(t, es):
            sx.check(same_entry(x, e), "on their tier")
    for up, lo in zip(g, list(g)[1:]):
        for x in lo:
            q = x.super_instance
            sx.check(q is not None and type(q) is up.entry_class, "parents are of the class above")
            sx.check(conj(q.start <= x.start, x.end <= q.end), "and contain their children")

def h_mismatch(sx, n):
    """entries can only be related one level up or down"""
    cl = custom_classes(pick_names(sx, n))
    i, j = sx.choose("i", n), sx.choose("j", n)
    s, e = sx.real("s"), sx.real("e")
    sx.assume(sep(s, e)); sx.assume(s >= 0)
    x, y = cl[i]((s, e, sx.label("x"))), cl[j]((s, e, sx.label("y")))
    try:
        quiet(x.set_super_instance, y)
        ok = True
    except Exception:
        ok = False
    sx.check(ok == (j + 1 == i), "a parent is of the class above")
    sx.check(x.super_instance is (y if ok else None) and list(y.subset_list) == ([x] if ok else []), "and is the parent only then")

def h_wire(sx, n, steps):
    """classes related by hand"""
    cl = [custom_classes([nm])[0] for nm in pick_names(sx, n)]
    up, down = [c.superset_class for c in cl], [c.subset_class for c in cl]
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    for k in range(steps):
        if sx.choose(f"none{k}", 2):
            i = sx.choose(f"i{k}", n)
            if sx.choose(f"up{k}", 2):
                cl[i].set_superset_class(*[None] * sx.choose(f"arg{k}", 2)); up[i] = None
            else:
                cl[i].set_subset_class(*[None] * sx.choose(f"arg{k}", 2)); down[i] = None
        else:
            i, j = pairs[sx.choose(f"p{k}", len(pairs))]
            if sx.choose(f"up{k}", 2):
                cl[i].set_superset_class(cl[j])
            else:
                cl[j].set_subset_class(cl[i])
            up[i], down[j] = cl[j], cl[i]
        for c, a, b in zip(cl, up, down):
            sx.check(c.superset_class is a, "the class above is the one set, and no other is changed", detail=f"{c} {c.superset_class} {a}")
            sx.check(c.subset_class is b, "the class below is the one set, and no other is changed", detail=f"{c} {c.subset_class} {b}")

def instances(tier):
    th = tier == "thorough"
    out = []
    add = lambda nm, fn, **kw: out.append(Instance(nm, fn, kw))
    for n in range(1, 6 if th else 5):
        for order in (None, "names", "numbers"):
            for pts in (False, True):
                if order and pts and n > (4 if th else 3):
                    continue
                add(f"make-{n}-{order}-{pts}", h_make, n=n, order=order, pts=pts)
        for twice in (False, True):
            add(f"clone-{n}-{twice}", h_clone, n=n, twice=twice)
        add(f"mismatch-{n}", h_mismatch, n=n)
    for n, steps in ((2, 2), (3, 2)) + (((3, 3), (4, 2)) if th else ()):
        add(f"wire-{n}-{steps}", h_wire, n=n, steps=steps)
    for p in (False, True):
        add(f"single-{p}", h_single, point=p)
    add("clone-point", h_clone_point)
    add("builtin", h_builtin)
    for how in ("group", "read"):
        for order in ("names", "numbers"):
            for shape in ((2, 1), ((1, 2), (1,))) + ((((1, 1), (1,)), (((1,), (1, 1)), ((1,),))) if th else ()):
                add(f"relate-{how}-{order}-{shape}", h_relate, shape=shape, order=order, how=how)
    return out
