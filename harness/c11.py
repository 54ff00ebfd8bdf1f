"""C11: writing and reading back."""
import os, shutil, tempfile

from harness.worlds import *
from praatio.textgrid import openTextgrid

BOUNDS = ("textgrids of up to 2 interval groups (2-3 levels, up to 6 words / 10 phones) and 1 points group of 2 tiers, one of which may be empty; four file formats, "
          "praatio objects and single tiers; six ways of naming tiers; after every operation; read once and twice")
ASSUMES = ["times are 0 or at least 1/1024 (praatio's reader does not accept the spelling 1e-05), and boundaries are further apart than the closeness tolerance",
           "labels have no surrounding white space, point labels no quotes (praatio's reader does not unescape them)",
           "praatio's number spelling (repr, rounding within 1e-14 of an integer) is exercised by the concrete witness runs only"]
FORMATS = ["short_textgrid", "long_textgrid", "json", "textgrid_json"]


def scratch(f):
    d = tempfile.mkdtemp(prefix="symx_")
    try:
        return f(os.path.join(d, "a.TextGrid"))
    finally:
        shutil.rmtree(d)

def writable(sx, tiers):
    for t in tiers:
        for x in t:
            for v in ((x.start, x.end) if hasattr(x, "end") else (x.time,)):
                sx.assume(disj(eq(v, 0), v >= 1 / 1024))

def apart(sx, atg):
    """times that differ do so by more than the closeness tolerance"""
    ts = []
    for t in all_of(atg):
        for x in t:
            for v in ((x.start, x.end) if hasattr(x, "end") else (x.time,)):
                if not any(v is u for u in ts):
                    ts.append(v)
    ends = [t[-1].end for t in all_of(atg) if len(t) and hasattr(t[-1], "end")]
    far = lambda x, y: conj(*[y - x >= e * (1 / 32768) + 1 / 1048576 for e in ends])
    for i, a in enumerate(ts):
        for b in ts[:i]:
            sx.assume(disj(eq(a, b), far(a, b), far(b, a)))

def all_of(atg):
    return [t for g in atg for t in g]

def points_of(sx, name, ns, cls, strict=True):
    out = []
    for k, n in enumerate(ns):
        prev, xs = None, []
        for i in range(n):
            t = sx.real(f"{name}{k}_{i}")
            sx.assume(t >= 0 if prev is None else t > prev)
            prev = t
            xs.append((t, sx.label(f"{name}L{k}_{i}", plain=True)))
        out.append(xs)
    return out

def entry(x):
    return (x.start, x.end, x.label) if hasattr(x, "end") else (x.time, x.label)

def same(sx, a, b):
    return conj(*[eq(p, q) for p, q in zip(entry(a), entry(b))])

def compare(sx, a, b, what="reading back", names=True, gnames=True):
    """b is a again"""
    sx.check(len(a) == len(b), f"{what}: as many groups")
    for g, h in zip(a, b):
        sx.check(type(g) is type(h) and len(g) == len(h), f"{what}: the same tiers in each group")
        sx.check([c.__name__ for c in g.entry_classes] == [c.__name__ for c in h.entry_classes], f"{what}: the same classes")
        if gnames:
            sx.check(g.name == h.name, f"{what}: the same group names", detail=f"{g.name} {h.name}")
        for t, u in zip(g, h):
            if names:
                sx.check(t.name == u.name, f"{what}: the same tier names", detail=f"{t.name} {u.name}")
            sx.check(len(t) == len(u), f"{what}: as many entries", detail=f"{t.name} {t.labels} {u.labels}")
            for x, y in zip(t, u):
                sx.check(same(sx, x, y), f"{what}: the same times and labels")
                sup, sup2 = getattr(x, "super_instance", None), getattr(y, "super_instance", None)
                sx.check((sup is None) == (sup2 is None), f"{what}: the same hierarchy")
                if sup is not None:
                    sx.check(sup.tier_index == sup2.tier_index, f"{what}: the same parents")
                    sx.check(sup.subset_list.index(x) == sup2.subset_list.index(y), f"{what}: the same place among the children")

def trip(atg, how, classes, seen=None):
    if how == "praatio":
        return quiet(lambda: AlignedTextGrid(atg.return_textgrid(), entry_classes=classes))
    def f(path):
        if how == "default":
            atg.save_textgrid(path)
        else:
            atg.save_textgrid(path, how)
        if seen is not None:
            seen.extend(openTextgrid(path, includeEmptyIntervals=True).tiers)
        return quiet(AlignedTextGrid, **{("textgrid", "textgrid_path")[how == "json"]: path}, entry_classes=classes)
    return quiet(scratch, f)

def class_lists(atg):
    return [list(g.entry_classes) for g in atg]

NAMES = [None,
         lambda g, t: f"spk{g} - t{t}",
         lambda g, t: f"Sprecher „{g}“ \"ü\" {t}",
         lambda g, t: f"t{t}",                                # the same in every group
         lambda g, t: "same",                                 # all alike
         lambda g, t: ["Word", "Word_0", "Word", "Word_1", "Word_0", "x"][(2 * g + t) % 6]]

def set_names(atg, k, points=True):
    f = NAMES[k]
    if f is None:
        return
    for i, g in enumerate(atg):
        for j, t in enumerate(g):
            t.name = f(i, j)
        g._name = None if not hasattr(type(g), "name") else g._name
        g.name = g.make_name()

def unique_names(atg):
    ns = [t.name for t in all_of(atg)]
    return len(set(ns)) == len(ns)

def check_textgrid(sx, atg, tg):
    """the praatio textgrid holds every tier in order under its own name"""
    tiers = all_of(atg)
    sx.check(len(tg.tiers) == len(tiers), "one written tier per tier")
    names = [t.name for t in tg.tiers]
    sx.check(len(set(names)) == len(names), "written tier names are unique")
    seen = set()
    for t, u in zip(tiers, tg.tiers):
        if t.name not in seen and not any(o.name == t.name for o in tiers if o is not t):
            sx.check(u.name == t.name or t.name in names, "a tier with a name of its own keeps it", detail=f"{t.name} {u.name}")
        seen.add(u.name)
        es = list(u.entries)
        sx.check(isinstance(u, IntervalTier) == isinstance(t, SequenceTier), "interval tiers are written as such")
        sx.check(len(es) == len(t), "one written entry per entry")
        for e, x in zip(es, t):
            sx.check(conj(*[eq(p, q) for p, q in zip(e, entry(x))]), "the written entry is the entry")

def build(sx, shapes, points=(), pfirst=False, gaps=False, deep=None, mixed=False):
    """groups over one extent, each [words x phones]; mixed: point tiers given in the same group list as the intervals"""
    cl = custom_classes(["Word", "Phone"] if not deep else ["Word", "Syl", "Phone"])
    pcl = custom_classes(["Peak", "Valley"], points=[0, 1])
    groups = []
    for k, s in enumerate(shapes):
        g = aligned_group(sx, f"g{k}_", listify(s), cls=cl, gaps=gaps)
        if k > 0 and not gaps:
            sx.assume(conj(eq(g[0][0].start, groups[0][0][0].start), eq(g[0][-1].end, groups[0][0][-1].end)))
        groups.append(g)
    if points:
        raw = points_of(sx, "p", points, pcl)
        if shapes and not gaps:          # points outside the intervals make the file longer: see h_gaps
            for r in sum(raw, []):
                sx.assume(conj(groups[0][0][0].start <= r[0], r[0] <= groups[0][0][-1].end))
        pg = PointsGroup([SequencePointTier([c(r) for r in rs], entry_class=c) for c, rs in zip(pcl, raw)])
        groups.insert(0 if pfirst else len(groups), pg)
    atg = quiet(AlignedTextGrid, groups)
    writable(sx, all_of(atg))
    return atg

# ---------------------------------------------------------------- harnesses

def h_trip(sx, shapes, how, points=(), pfirst=False, deep=None, name=0):
    atg = build(sx, shapes, points, pfirst, deep=deep)
    set_names(atg, name)
    snap = Snap(all_of(atg))
    names = [t.name for t in all_of(atg)]
    tg = quiet(atg.return_textgrid)
    check_textgrid(sx, atg, tg)
    classes = class_lists(atg)
    back = trip(atg, how, classes)
    snap.check(sx, "writing changes nothing")
    sx.check([t.name for t in all_of(atg)] == names, "writing keeps the names")
    u = unique_names(atg)
    compare(sx, atg, back, names=u, gnames=u)
    sx.check([t.name for t in all_of(back)] == [t.name for t in tg.tiers], "read tiers have the written names")
    for g in back:
        if isinstance(g, TierGroup):
            w = World(); w.groups = [g]
            for inv in (inv_order, inv_inverse, inv_chain, inv_intier, inv_complete):
                inv(sx, w)

def h_gaps(sx, shapes, how, twice, extents):
    """gaps are filled with blanks in the file, nothing else changes"""
    atg = build(sx, shapes, points=(1, 1) if extents else (), gaps=True)
    apart(sx, atg)
    before = [[[entry(x) for x in t] for t in g] for g in atg]
    raw = []
    back = trip(atg, how, class_lists(atg), seen=raw)
    for t in raw:
        if isinstance(t, IntervalTier):
            for a, b in zip(t.entries, t.entries[1:]):
                sx.check(eq(a.end, b.start), "no gaps in the file")
    for g, h in zip(before, back):
        for es, t in zip(g, h):
            xs = list(t)
            if isinstance(t, SequencePointTier):
                sx.check(len(xs) == len(es), "points are neither lost nor added")
                for x, e in zip(xs, es):
                    sx.check(conj(*[eq(p, q) for p, q in zip(entry(x), e)]), "points keep times and labels")
                continue
            sx.check(len(xs) >= len(es), "no entry is lost")
            # the originals appear in order; the rest is blank
            used = []
            for x in xs:
                hit = disj(*[conj(*[eq(p, q) for p, q in zip(entry(x), e)]) for e in es])
                blank = eq(x.label, "")
                sx.check(disj(hit, blank), "only blank intervals are added")
            for e in es:
                sx.check(disj(*[conj(*[eq(p, q) for p, q in zip(entry(x), e)]) for x in xs]), "every entry is there with its times and label")
            for a, b in zip(xs, xs[1:]):
                sx.check(eq(a.end, b.start), "no gaps after reading")
    if twice:
        again = trip(back, how, class_lists(back))
        compare(sx, back, again, "reading back twice")

def h_empty(sx, shapes, how, where):
    """a group with an interval tier without entries: a gap all along"""
    atg = build(sx, shapes, (1, 1) if where == "points" else ())
    e, = custom_classes(["Event"])
    gs = list(atg)
    gs.insert(0 if where == "first" else 1, quiet(TierGroup, [SequenceTier([], entry_class=e)]))
    gs[0 if where == "first" else 1][0].name = "events"
    atg = quiet(AlignedTextGrid, gs)
    snap = Snap(all_of(atg))
    tg = quiet(atg.return_textgrid)
    check_textgrid(sx, atg, tg)
    lo, hi = atg.xmin, atg.xmax
    for u in tg.tiers:
        if len(u.entries) == 0:
            sx.check(conj(eq(u.minTimestamp, lo), eq(u.maxTimestamp, hi)), "an empty tier is written as long as the textgrid")
    back = trip(atg, how, class_lists(atg))
    snap.check(sx, "writing changes nothing")
    sx.check(len(back) == len(atg), "as many groups")
    for g, h in zip(atg, back):
        for t, u in zip(g, h):
            sx.check(t.name == u.name and t.entry_class.__name__ == u.entry_class.__name__, "the same tiers", detail=f"{t.name} {u.name}")
            if len(t):
                sx.check(len(t) == len(u), "as many entries")
                for x, y in zip(t, u):
                    sx.check(same(sx, x, y), "the same times and labels")
            else:
                for y in u:
                    sx.check(conj(eq(y.label, ""), *[eq(p, q) for p, q in zip(entry(y), (lo, hi))]), "nothing but a blank on the empty tier")

def h_after(sx, op, how, shape=(2, 1)):
    """after an operation, a textgrid that is clean is read back as it is"""
    w = world(sx, shape, atg=True)
    OPS[op](Scoped(sx, "o"), w)
    if w.atg is None or w.odd or any(len(t) == 0 for g in w.groups for t in g):
        return
    apart(sx, w.atg)
    quiet(w.atg.cleanup)
    writable(sx, all_of(w.atg))
    back = trip(w.atg, how, class_lists(w.atg))
    u = unique_names(w.atg)
    compare(sx, w.atg, back, names=u, gnames=False)

def h_tier(sx, n, pt, how, named):
    """a single tier"""
    if pt:
        c, = custom_classes(["Peak"], points=[0])
        raw = points_of(sx, "p", [n], None)[0]
        t = SequencePointTier([c(r) for r in raw])
    else:
        c, = custom_classes(["Word"])
        raw = contiguous(sx, "x", n) if how != "praatio" else disjoint(sx, "x", n)
        for s, e, _ in raw:
            sx.assume(sep(s, e))
        t = SequenceTier([c(r) for r in raw])
    writable(sx, [t])
    if named:
        t.name = "my tier"
    snap = Snap([t])
    if how == "praatio":
        p = t.return_tier()
        if named:
            q = t.return_tier("other")
            sx.check(q.name == "other" and t.name == "my tier", "a given name is used for the copy only")
    else:
        def f(path):
            t.save_as_tg(path)
            tg = openTextgrid(path, includeEmptyIntervals=True)
            sx.check(len(tg.tiers) == 1, "one tier in the file")
            return tg.tiers[0]
        p = quiet(scratch, f)
    snap.check(sx, "writing a tier changes nothing")
    sx.check(p.name == t.name, "the tier's name is written")
    sx.check(len(p.entries) == n, "one written entry per entry")
    for e, r in zip(p.entries, raw):
        sx.check(conj(*[eq(a, b) for a, b in zip(e, r)]), "the written entry is the entry")
    u = (SequencePointTier if pt else SequenceTier)(p, c)
    sx.check(u.name == t.name and u.entry_class is c, "name and class are read back")
    sx.check(len(u) == n, "one read entry per entry")
    for x, r in zip(u, raw):
        sx.check(type(x) is c and x.intier is u, "read entries have the class and the tier")
        sx.check(conj(*[eq(a, b) for a, b in zip(entry(x), r)]), "the read entry is the entry")
    check_chain(sx, u)

def h_entry(sx, pt):
    if pt:
        x = SequencePoint((sx.real("t"), sx.label("L")))
        p, q = x.return_point(), x.return_praatio()
    else:
        x = SequenceInterval((sx.real("s"), sx.real("e"), sx.label("L")))
        p, q = x.return_interval(), x.return_praatio()
    for r in (p, q):
        sx.check(len(r) == len(entry(x)) and conj(*[eq(a, b) for a, b in zip(r, entry(x))]), "the praatio entry is the entry")
    y = type(x)(p)
    sx.check(same(sx, x, y), "and makes the entry again")
    z = type(x)(x)
    sx.check(z is not x, "a copy is another object")
    sx.check(same(sx, x, z), "with the same times and label")

def instances(tier):
    th = tier == "thorough"
    out = []
    add = lambda nm, fn, **kw: out.append(Instance(nm, fn, kw))
    hows = ["praatio", "default"] + FORMATS
    for how in hows:
        add(f"one-{how}", h_trip, shapes=[(2, 1)], how=how)
        add(f"two-{how}", h_trip, shapes=[(2, 1), (1, 2)], how=how)
        add(f"deep-{how}", h_trip, shapes=[DEEP], how=how, deep=True)
        add(f"points-{how}", h_trip, shapes=[(1, 2)], how=how, points=(2, 1))
        add(f"points-first-{how}", h_trip, shapes=[(2,)], how=how, points=(1, 3), pfirst=True)
        add(f"points-empty-{how}", h_trip, shapes=[(1, 1)], how=how, points=(0, 1))
        add(f"points-empty-first-{how}", h_trip, shapes=[(2,)], how=how, points=(2, 0), pfirst=True)
        add(f"points-only-{how}", h_trip, shapes=[], how=how, points=(2, 2))
        add(f"wide-{how}", h_trip, shapes=[WIDE], how=how)
        for nm in range(1, len(NAMES)):
            add(f"names{nm}-{how}", h_trip, shapes=[(2,), (1,)], how=how, points=(1, 1), name=nm)
        add(f"gaps-{how}", h_gaps, shapes=[(1, 1)], how=how, twice=True, extents=False)
        for where in ("first", "last", "points"):
            add(f"empty-{where}-{how}", h_empty, shapes=[(1, 2)], how=how, where=where)
        add(f"gaps3-{how}", h_gaps, shapes=[(1, 2, 1)], how=how, twice=False, extents=False)
        if th:
            add(f"three-{how}", h_trip, shapes=[(2, 1), (1,), (1, 1, 1)], how=how, points=(2, 2))
            add(f"gaps-two-{how}", h_gaps, shapes=[(1, 1), (1, 1)], how=how, twice=False, extents=True)
    add("gaps-two", h_gaps, shapes=[(1,), (1,)], how="praatio", twice=False, extents=True)
    for op in SANE[:-1] + ["atg_append", "pop_top", "pop_low"]:
        if op == "add":
            continue                 # gives a group, not a textgrid
        for how in (hows if th else ["praatio", "long_textgrid"]):
            add(f"after-{op}-{how}", h_after, op=op, how=how)
    for pt in (False, True):
        for n in (1, 2, 3) + ((5,) if th else ()):
            for how in ("praatio", "file"):
                for named in (False, True):
                    add(f"tier-{'points' if pt else 'intervals'}-{n}-{how}{'-named' if named else ''}", h_tier, n=n, pt=pt, how=how, named=named)
        add(f"entry-{'point' if pt else 'interval'}", h_entry, pt=pt)
    return out
