"""C22: reading assigns tiers to classes and groups as asked."""
import itertools
from harness.worlds import *

BOUNDS = ("praatio textgrids of up to 6 tiers (up to 3 speakers, up to 3 levels, up to 3 words with up to 3 children each, points) read with nested, flat, repeated, reordered, "
          "incomplete and default entry classes; groups made and appended one by one, whole or tier by tier, also after interleaving and popping; tiers trimmed of empty labels by praatio included")
ASSUMES = ["boundaries of the tiers of a group match and differ by more than the closeness tolerance; words of a speaker follow one another without gap"]

NAMES = ["Word", "Syl", "Phone"]

def level_names(depth):
    return {1: ["Word"], 2: ["Word", "Phone"], 3: NAMES}[depth]

def speakers(sx, shapes):
    """one aligned hierarchy per speaker, all over the same time"""
    out = []
    for k, sh in enumerate(shapes):
        if k == 0:
            lv = aligned_specs(sx, f"s{k}_", listify(sh))
            first, last = lv[0][0][0], lv[0][-1][1]
        else:
            lv = aligned_specs(sx, f"s{k}_", listify(sh), first=first)
            sx.assume(eq(lv[0][-1][1], last))
        out.append(lv)
    return out

def ptier(sx, nm, n, lo, hi):
    ts = []
    for i in range(n):
        t = sx.real(f"{nm}{i}")
        sx.assume(t >= lo); sx.assume(t <= hi)
        if i:
            sx.assume(sep(ts[-1], t))
        ts.append(t)
    return [(t, sx.label(f"{nm}L{i}")) for i, t in enumerate(ts)]

def textgrid(tiers):
    tg = Textgrid()
    for nm, es, pt in tiers:
        quiet(tg.addTier, (PointTier if pt else IntervalTier)(nm, es))
    return tg

def expect(sx, atg, want, what):
    """want: per group, a list of (class name, tier name or None, entries)"""
    sx.check(len(atg) == len(want), f"{what}: as many groups as asked for", detail=f"{len(atg)} {len(want)}")
    for g, ws in zip(atg, want):
        sx.check(len(g) == len(ws), f"{what}: as many tiers as asked for")
        for t, (cn, tn, es) in zip(g, ws):
            pts = len(es) > 0 and len(es[0]) == 2
            sx.check(isinstance(g, PointsGroup) == pts and isinstance(t, SequencePointTier) == pts, f"{what}: points with points and intervals with intervals")
            sx.check(t.entry_class.__name__ == cn, f"{what}: tiers have the class asked for", detail=f"{t.entry_class} {cn}")
            if tn is not None:
                sx.check(t.name == tn, f"{what}: tiers keep their names", detail=f"{t.name} {tn}")
            sx.check(len(t) == len(es), f"{what}: as many entries as in the textgrid", detail=f"{len(t)} {len(es)}")
            for x, e in zip(t, es):
                sx.check(type(x) is t.entry_class, f"{what}: entries are of the class of their tier")
                if pts:
                    sx.check(conj(eq(x.time, e[0]), eq(x.label, e[1])), f"{what}: points are as in the textgrid")
                else:
                    sx.check(conj(eq(x.start, e[0]), eq(x.end, e[1]), eq(x.label, e[2])), f"{what}: intervals are as in the textgrid")
        if isinstance(g, TierGroup):
            cl = g.entry_classes
            for up, lo, ups, los in zip(cl, cl[1:], g, list(g)[1:]):
                sx.check(up.subset_class is lo and lo.superset_class is up, f"{what}: the classes of a group are a hierarchy")
                for x in los:
                    p = x.super_instance
                    sx.check(p is not None and p.intier is ups, f"{what}: lower entries have a parent on the tier above")
                    sx.check(conj(p.start <= x.start, x.end <= p.end), f"{what}: which contains them")
            for x in g[0]:
                sx.check(x.super_instance is None, f"{what}: top entries have no parent")

def perm(sx, name, n):
    """a permutation chosen by the solver"""
    ps = list(itertools.permutations(range(n)))
    return ps[sx.choose(name, len(ps))]

def h_nested(sx, shapes, tup, order, as_groups=None):
    """[[...], [...]] with the tiers of each speaker in any order"""
    sp = speakers(sx, shapes)
    tiers, ecs, want = [], [], []
    for k, lv in enumerate(sp):
        nm = level_names(len(lv))
        cl = custom_classes(nm) if k == 0 or len(lv) != len(sp[0]) else cls0
        if k == 0:
            cls0 = cl
        p = perm(sx, f"perm{k}", len(lv)) if order else tuple(range(len(lv)))
        for i in p:
            tiers.append((f"spk{k} - {nm[i]}", lv[i], False))
        ecs.append([cl[i] for i in p])
        want.append([(nm[i], f"spk{k} - {nm[i]}", lv[i]) for i in range(len(lv))])
    atg = quiet(AlignedTextGrid, textgrid(tiers), tuple(tuple(e) for e in ecs) if tup else ecs)
    expect(sx, atg, want, "nested")
    for k, g in enumerate(atg):
        if len(sp[k]) > 1:
            sx.check(getattr(atg, f"spk{k}", None) is g and g.name == f"spk{k}", "groups are named for what their tiers' names begin with", detail=str(g.name))

PREFIXES = [("KY25A", " - "), ("Ann Lee", " - "), ("Dr. O'Neil", ": "), ("_spk", "_"), ("été", " - "), ("a-b", "-")]

def h_names(sx, shapes):
    """speakers' names with spaces and punctuation"""
    sp = speakers(sx, shapes)
    tiers, ecs, want, names = [], [], [], []
    for k, lv in enumerate(sp):
        nm = level_names(len(lv))
        pre, mid = PREFIXES[sx.choose(f"prefix{k}", len(PREFIXES))]
        pre = f"{pre}{k}"
        tiers += [(f"{pre}{mid}{n}", es, False) for n, es in zip(nm, lv)]
        want.append([(n, f"{pre}{mid}{n}", es) for n, es in zip(nm, lv)])
        ecs.append(custom_classes(nm))
        names.append("".join(c if c.isalnum() or c == "_" else "_" for c in (pre + mid).strip(" _-")))
    atg = quiet(AlignedTextGrid, textgrid(tiers), ecs)
    expect(sx, atg, want, "names")
    for g, n in zip(atg, names):
        sx.check(g.name == n, "groups are named for what their tiers' names begin with", detail=f"{g.name} {n}")
        sx.check(getattr(atg, n, None) is g, "and found by that name")

def h_flat(sx, shapes, order, extra, tup=False):
    """[Word, Phone] for any number of speakers, the tiers in the order of the classes"""
    sp = speakers(sx, shapes)
    depth = len(sp[0])
    nm = level_names(depth)
    cls = custom_classes(nm)
    p = perm(sx, "perm", depth) if order else tuple(range(depth))
    tiers = [(f"{k}{nm[i]}", lv[i], False) for k, lv in enumerate(sp) for i in p]
    for j in range(extra):
        tiers.append((f"rest{j}", sp[0][0], False))
    want = [[(nm[i], f"{k}{nm[i]}", lv[i]) for i in range(depth)] for k, lv in enumerate(sp)]
    atg = quiet(AlignedTextGrid, textgrid(tiers), (tuple if tup else list)(cls[i] for i in p))
    expect(sx, atg, want, "flat")

def h_flat_points(sx, n, npts, tup):
    """a flat list of classes, points among them, for n speakers"""
    sp = speakers(sx, [(1, 1)] + [(2,)] * (n - 1)) if n else []
    lo, hi = (sp[0][0][0][0], sp[0][0][-1][1]) if n else (0, 1000)
    pn = [f"Tone{j}" for j in range(npts)]
    cls = custom_classes(["Word", "Phone"] + pn, points=list(range(2, 2 + npts)))
    if not n:
        cls = cls[2:]
    tiers, want = [], []
    for k in range(max(n, 2)):
        if n:
            tiers += [(f"{k}{nm}", es, False) for nm, es in zip(("Word", "Phone"), sp[k])]
            want.append([(nm, f"{k}{nm}", es) for nm, es in zip(("Word", "Phone"), sp[k])])
        ps = [ptier(sx, f"p{k}{j}_", 1 + (j + k) % 2, lo, hi) for j in range(npts)]
        tiers += [(f"{k}{nm}", es, True) for nm, es in zip(pn, ps)]
        want.append([(nm, f"{k}{nm}", es) for nm, es in zip(pn, ps)])
        if n == 1:
            break
    atg = quiet(AlignedTextGrid, textgrid(tiers), (tuple if tup else list)(cls))
    if n == 0 and npts == 1:
        want = [[w[0]] for w in want]
    expect(sx, atg, want, "flat with points")

def h_hier(sx, shapes, order, shared=False, drop=0):
    """flat classes of several hierarchies, in any order: a group for each hierarchy; lower classes may share names,
    and of the first hierarchy the lowest may be left out"""
    sp = speakers(sx, shapes)
    allc, want = [], {}
    for k, lv in enumerate(sp):
        nm = [n if shared and i == len(lv) - 1 else f"{n}{k}" for i, n in enumerate(level_names(len(lv)))]
        keep = len(lv) - (drop if k == 0 else 0)
        for c, n, es in list(zip(custom_classes(nm), nm, lv))[:keep]:
            allc.append((c, f"{n}-{k}", es, k))
        want[k] = [(n, f"{n}-{k}", es) for n, es in zip(nm, lv)][:keep]
    p = perm(sx, "perm", len(allc)) if order else tuple(range(len(allc)))
    seq = [allc[i] for i in p]
    atg = quiet(AlignedTextGrid, textgrid([(n, es, False) for c, n, es, k in seq]), [c for c, *_ in seq])
    tops = [k for c, n, es, k in seq if issubclass(c.superset_class, Top)]
    expect(sx, atg, [want[k] for k in tops], "hierarchies")

def h_points(sx, shapes, npts, where):
    """points in a group of their own, or along with intervals"""
    sp = speakers(sx, shapes)
    lo, hi = sp[0][0][0][0], sp[0][0][-1][1]
    pcl = custom_classes([f"Tone{j}" for j in range(len(npts))], points=list(range(len(npts))))
    ps = [ptier(sx, f"p{j}", n, lo, hi) for j, n in enumerate(npts)]
    pw = [(f"Tone{j}", f"tones{j}", es) for j, es in enumerate(ps)]
    cls = custom_classes(level_names(len(sp[0])))
    iw = [[(c.__name__, f"{k}{c.__name__}", es) for c, es in zip(cls, lv)] for k, lv in enumerate(sp)]
    it = [[(n, es, False) for _, n, es in w] for w in iw]
    pt = [(n, es, True) for _, n, es in pw]
    if where == "last":
        tiers, ecs, want = sum(it, []) + pt, [list(cls)] * len(sp) + [pcl], iw + [pw]
    elif where == "first":
        tiers, ecs, want = pt + sum(it, []), [pcl] + [list(cls)] * len(sp), [pw] + iw
    elif where == "between":
        tiers, ecs, want = it[0] + pt + sum(it[1:], []), [list(cls), pcl] + [list(cls)] * (len(sp) - 1), [iw[0], pw] + iw[1:]
    else:       # in one group with the intervals: intervals first, then points
        tiers, ecs, want = [it[0][0]] + pt + it[0][1:] + sum(it[1:], []), [[cls[0]] + pcl + cls[1:]] + [list(cls)] * (len(sp) - 1), [iw[0], pw] + iw[1:]
    atg = quiet(AlignedTextGrid, textgrid(tiers), ecs)
    expect(sx, atg, want, "points")

def h_default(sx, n):
    """no classes given: one group per tier"""
    sp = speakers(sx, [[1, 1][:1 + (k % 2)] for k in range(n)])
    tiers = [(f"t{k}", lv[0], False) for k, lv in enumerate(sp)]
    atg = quiet(AlignedTextGrid, textgrid(tiers))
    expect(sx, atg, [[("SequenceInterval", f"t{k}", lv[0])] for k, lv in enumerate(sp)], "default")

def h_one(sx, n, nested):
    """one class for all tiers"""
    sp = speakers(sx, [[1, 1][:1 + (k % 2)] for k in range(n)])
    c = Word if n % 2 else custom_classes(["Line"])[0]
    tiers = [(f"t{k}", lv[0], False) for k, lv in enumerate(sp)]
    atg = quiet(AlignedTextGrid, textgrid(tiers), [[c]] * n if nested else [c])
    expect(sx, atg, [[(c.__name__, f"t{k}", lv[0])] for k, lv in enumerate(sp)], "one class")

def h_fewer(sx, shapes, m):
    """fewer classes than tiers: the tiers the classes are for"""
    sp = speakers(sx, shapes)
    tiers = [(f"{k}{i}", lv[i], False) for k, lv in enumerate(sp) for i in range(2)]
    atg = quiet(AlignedTextGrid, textgrid(tiers), [[Word, Phone]] * m)
    expect(sx, atg, [[(c, f"{k}{i}", sp[k][i]) for i, c in enumerate(("Word", "Phone"))] for k in range(m)], "fewer")

def h_partial(sx, shape, keep):
    """only some levels of a hierarchy are in the textgrid"""
    (lv,) = speakers(sx, [shape])
    cls = custom_classes(level_names(len(lv)))
    idx = list(range(keep))
    atg = quiet(AlignedTextGrid, textgrid([(f"t{i}", lv[i], False) for i in idx]), [[cls[i] for i in idx]])
    expect(sx, atg, [[(cls[i].__name__, f"t{i}", lv[i]) for i in idx]], "partial")

def h_depths(sx, shapes, keep, how):
    """speakers with more and with fewer levels of one hierarchy, in a textgrid that is read, or in groups"""
    sp = speakers(sx, shapes)
    depth = len(sp[0])
    cls = custom_classes(level_names(depth)) if how != "wp" else [Word, Phone]
    want = [[(cls[i].__name__, f"{k}{i}", lv[i]) for i in range(n)] for k, (lv, n) in enumerate(zip(sp, keep))]
    if how == "read":
        atg = quiet(AlignedTextGrid, textgrid([(nm, es, False) for w in want for _, nm, es in w]), [list(cls[:n]) for n in keep])
    else:
        gs = [quiet(TierGroup, [SequenceTier([c(e) for e in es]) for c, es in zip(cls, lv[:n])]) for lv, n in zip(sp, keep)]
        for k, g in enumerate(gs):
            for i, t in enumerate(g):
                t.name = f"{k}{i}"
        if how == "append":
            atg = quiet(AlignedTextGrid)
            for g in gs:
                quiet(atg.append, g)
        else:
            atg = quiet(AlignedTextGrid, gs)
    expect(sx, atg, want, "several depths")
    for i in range(depth):
        mine = {g.entry_classes[i] for g in atg if len(g) > i}
        sx.check(len(mine) == 1 and issubclass(next(iter(mine)), cls[i]), "a class is the same in all groups")

def h_groups(sx, shapes, npts, how):
    """made from groups, at once or one by one"""
    sp = speakers(sx, shapes)
    cls = custom_classes(level_names(len(sp[0]))) if how != "wp" else [Word, Phone]
    gs, want = [], []
    for k, lv in enumerate(sp):
        cl = cls if len(lv) == len(cls) else custom_classes([f"{n}{k}" for n in level_names(len(lv))])
        ts = [SequenceTier([c(e) for e in es]) for c, es in zip(cl, lv)]
        if how == "reversed":
            ts = ts[::-1]
        gs.append(quiet(TierGroup, ts))
        want.append([(c.__name__, None, es) for c, es in zip(cl, lv)])
    if npts:
        es = ptier(sx, "p", npts, sp[0][0][0][0], sp[0][0][-1][1])
        gs.insert(1, PointsGroup([SequencePointTier([SequencePoint(e) for e in es])]))
        want.insert(1, [("SequencePoint", None, es)])
    for k, g in enumerate(gs):
        g.name = f"group {k}"
        for i, t in enumerate(g):
            t.name = f"tier {k} {i}"
            want[k][i] = (want[k][i][0], t.name, want[k][i][2])
    if how == "append":
        atg = quiet(AlignedTextGrid)
        for g in gs:
            quiet(atg.append, g)
    elif how == "mixed":
        atg = quiet(AlignedTextGrid, gs[:1])
        for g in gs[1:]:
            quiet(atg.append, g)
    else:
        atg = quiet(AlignedTextGrid, gs)
    expect(sx, atg, want, how)
    sx.check([g.name for g in atg] == [f"group {k}" for k in range(len(gs))], "groups keep their names", detail=str([g.name for g in atg]))

def h_later(sx, shape, edits, how):
    """a group appended to a textgrid whose classes were interleaved or popped"""
    sp = speakers(sx, (shape,))[0]
    names = level_names(len(sp))
    cls = custom_classes(names)
    tiers = [(n, f"0{n}", lv) for n, lv in zip(names, sp)]
    g = quiet(TierGroup, [SequenceTier([c(e) for e in lv]) for c, (_, _, lv) in zip(cls, tiers)])
    for t, (_, n, _) in zip(g, tiers):
        t.name = n
    g.name = "first"
    atg = quiet(AlignedTextGrid, [g])
    for e in edits:
        if e[0] == "pop":
            quiet(atg.pop_class, e[1])
        else:
            quiet(atg.interleave_class, e[1], **e[2])
    names = [c.__name__ for c in atg[0].entry_classes]
    have = [(c.__name__, t.name, [(x.start, x.end, x.label) for x in t]) for c, t in zip(atg[0].entry_classes, atg[0])]
    n = len(names)
    lv = aligned_specs(sx, "o", {2: [2, 1], 3: [[1, 1], [1]], 4: [[[1, 1]], [[1]]]}[n]) if n > 1 else [[(*sep_times(sx, "o", 1), sx.label("oL"))]]
    new = custom_classes(names)
    ts = [SequenceTier([c(e) for e in es]) for c, es in zip(new, lv)]
    for t, nm in zip(ts, names):
        t.name = f"1{nm}"
    want = [(nm, f"1{nm}", es) for nm, es in zip(names, lv)]
    if how == "whole":
        h = quiet(TierGroup, ts)
        h.name = "second"
        quiet(atg.append, h)
    else:
        k = 1 + sx.choose("k", n - 1) if n > 1 else 1
        h = quiet(TierGroup, ts[:k])
        h.name = "second"
        order = ts[k:]
        if how == "tierwise-first":
            for t in order:
                quiet(h.append, t)
            quiet(atg.append, h)
        else:
            quiet(atg.append, h)
            for t in order:
                quiet(atg[1].append, t)
    expect(sx, atg, [have, want], "appended later")
    sx.check([x.name for x in atg] == ["first", "second"], "appended later: groups keep their names", detail=str([x.name for x in atg]))
    sx.check(all(getattr(atg, x.name, None) is x for x in atg), "appended later: groups are found by name")
    for a, b in zip(*[x.entry_classes for x in atg]):
        sx.check(a is b, "appended later: a class is the same in all groups", detail=f"{a} {b}")

def h_later_points(sx, n, m, how, again):
    """a point tier appended to a points group, of its own or of a textgrid's class"""
    sp = speakers(sx, ((1,),))[0]
    cls = custom_classes(["Word", "Phone"])
    lo, hi = sp[0][0][0], sp[0][-1][1]
    A, B = custom_classes(["A", "B"], points=[0, 1])
    pa, pb = ptier(sx, "a", n, lo, hi), ptier(sx, "b", m, lo, hi)
    pg = PointsGroup([SequencePointTier([A(e) for e in pa])])
    pg.name = "points"
    t = SequencePointTier([B(e) for e in pb])
    t.name = "bees"
    g = quiet(TierGroup, [SequenceTier([c(e) for e in lv]) for c, lv in zip(cls, sp)])
    g.name = "words"
    if how == "before":
        quiet(pg.append, t)
        atg = quiet(AlignedTextGrid, [g, pg])
    else:
        atg = quiet(AlignedTextGrid, [g, pg])
        quiet(atg[1].append, t)
    want = [[(c.__name__, None, lv) for c, lv in zip(cls, sp)], [("A", "A", pa), ("B", "bees", pb)]]
    if again:                                  # a class that another group has already
        pc = ptier(sx, "c", 1, lo, hi)
        quiet(atg.append, PointsGroup([SequencePointTier([B(e) for e in pc])]))
        atg[2].name = "more"
        pd = ptier(sx, "d", 1, lo, hi)
        quiet(atg[2].append, SequencePointTier([custom_classes(["A"], points=[0])[0](e) for e in pd]))
        want.append([("B", None, pc), ("A", None, pd)])
    expect(sx, atg, want, "points appended later")
    sx.check([x.name for x in atg] == ["words", "points", "more"][:len(atg)], "points appended later: groups keep their names", detail=str([x.name for x in atg]))
    sx.check(atg.words is atg[0] and atg.points is atg[1] and atg[1].A is atg[1][0] and atg[1].B is atg[1][1], "points appended later: groups and tiers are found by name")
    if again:
        sx.check(atg[1].entry_classes == atg[2].entry_classes[::-1], "points appended later: a class is the same in all groups")
    for i, x in enumerate(atg):
        for j, t in enumerate(x):
            sx.check(list(t.within_path) == [i, j] and t.within is x, "points appended later: tiers know their place")

def h_same_class(sx, shapes, npts):
    """one class in several groups is one class of the textgrid"""
    sp = speakers(sx, shapes)
    cls = custom_classes(level_names(len(sp[0])))
    tiers = [(f"{k}{i}", lv[i], False) for k, lv in enumerate(sp) for i in range(len(cls))]
    atg = quiet(AlignedTextGrid, textgrid(tiers), [list(cls)] * len(sp))
    for i, c in enumerate(cls):
        mine = {g.entry_classes[i] for g in atg}
        sx.check(len(mine) == 1 and issubclass(next(iter(mine)), c), "a class is the same in all groups")

def instances(tier):
    th = tier == "thorough"
    out = []
    add = lambda nm, fn, **kw: out.append(Instance(nm, fn, kw))
    two = [((2, 1),), ((1, 1), (2,))] + ([((2, 1, 2),), ((2, 1), (1, 2)), ((1,), (1, 1), (2,))] if th else [((1,), (1,), (1,))])
    deep = [(((1, 1), (2,)),), (((1,),), ((1,),))] + ([(((1, 2), (1,), (2, 1)),), (((1, 1),), ((2,), (1,)))] if th else [])
    mixed = [(((1, 1),), (2,)), ((1, 1), (((1,), (1,))))]
    for shapes in two + deep + mixed[:1]:
        for order in (False, True):
            add(f"nested-{shapes}-{order}", h_nested, shapes=shapes, tup=False, order=order)
    for shapes in two + deep:
        for order in (False, True):
            add(f"flat-{shapes}-{order}", h_flat, shapes=shapes, order=order, extra=0)
    for tup in (False, True):
        add(f"tuple-nested-{tup}", h_nested, shapes=((1, 1), (2,)), tup=tup, order=True)
        add(f"tuple-flat-{tup}", h_flat, shapes=((1, 1), (2,)), order=True, extra=0, tup=tup)
        for n in (0, 1, 2):
            for npts in (1, 2):
                add(f"flat-points-{n}-{npts}-{tup}", h_flat_points, n=n, npts=npts, tup=tup)
    add("flat-extra", h_flat, shapes=((1, 1), (2,)), order=False, extra=1)
    for shapes in [((2, 1), (1,)), ((1,), ((1, 1),)), ((1, 1), (1,))] + ([((1,), (1,), (1,)), (((1, 1),), ((1,), (1,)))] if th else []):
        for order in (False, True):
            if order and sum(3 if isinstance(s[0], tuple) else 2 for s in shapes) > (5 if th else 5):
                continue
            add(f"hier-{shapes}-{order}", h_hier, shapes=shapes, order=order)
            add(f"hier-shared-{shapes}-{order}", h_hier, shapes=shapes, order=order, shared=True)
    add("hier-part-2", h_hier, shapes=((1, 1), (1,)), order=True, drop=1)
    add("hier-part-3", h_hier, shapes=(((1,),), (1,)), order=True, drop=1)
    add("hier-part-1", h_hier, shapes=(((1,),), (1,)), order=True, drop=2)
    for how in ("read", "append", "groups", "wp"):
        for keep in ((2, 1), (1, 2), (1, 2, 1), (2, 1, 2)):
            add(f"depths-{how}-{keep}", h_depths, shapes=((1, 1), (2,), (1,))[:len(keep)], keep=keep, how=how)
        if how != "wp":
            for keep in ((3, 1), (2, 3), (1, 3, 2), (3, 2, 1)):
                add(f"depths-{how}-{keep}", h_depths, shapes=(((1, 1),), ((2,),), ((1,),))[:len(keep)], keep=keep, how=how)
    for shapes in (((1,),), ((1,), (1, 1))):
        add(f"names-{len(shapes)}", h_names, shapes=shapes)
    for shapes in [((1,),) * 5, (MANY[:8], MANY[:8]), (DEEP * 2,)] + ([((1, 1),) * 6, (MANYDEEP, MANYDEEP)] if th else []):
        add(f"many-flat-{len(shapes)}-{len(shapes[0])}", h_flat, shapes=shapes, order=True, extra=0)
        add(f"many-nested-{len(shapes)}-{len(shapes[0])}", h_nested, shapes=shapes, tup=False, order=False)
    for shapes in [((2, 1),), ((1,), (1, 1))] + ([(((1, 1),),), ((2,), (1,), (1, 1))] if th else []):
        for npts in ((1,), (2,), (1, 2)) + (((3, 1),) if th else ()):
            for where in ("last", "first", "between", "inside"):
                add(f"points-{shapes}-{npts}-{where}", h_points, shapes=shapes, npts=npts, where=where)
    for n in (1, 2, 3) + ((4, 5) if th else ()):
        add(f"default-{n}", h_default, n=n)
        for nested in (False, True):
            add(f"one-{n}-{nested}", h_one, n=n, nested=nested)
    add("fewer-1", h_fewer, shapes=((1, 1), (2,)), m=1)
    add("fewer-2", h_fewer, shapes=((1,), (2,), (1, 1)), m=2)
    for keep in (1, 2, 3):
        add(f"partial-{keep}", h_partial, shape=((1, 2), (1,)), keep=keep)
    for how in ("groups", "append", "mixed", "reversed", "wp"):
        for shapes in [((2, 1),), ((1, 1), (2,))] + ([((1,), (2, 1), (1, 1))] if th else []):
            for npts in (0, 2):
                add(f"groups-{how}-{shapes}-{npts}", h_groups, shapes=shapes, npts=npts, how=how)
    add("groups-two-kinds", h_groups, shapes=((1, 1), ((1, 1), (1,))), npts=1, how="groups")
    add("append-two-kinds", h_groups, shapes=((1, 1), ((1, 1), (1,))), npts=1, how="append")
    for how in ("before", "after"):
        for n, m in ((1, 1), (2, 1), (1, 2)):
            for again in (False, True):
                add(f"later-points-{how}-{n}-{m}-{again}", h_later_points, n=n, m=m, how=how, again=again)
    up, dn = dict(timing_from="below"), dict(timing_from="above")
    later = {"none": [], "top": [("in", "Extra", dict(above="Word", **up))], "mid": [("in", "Extra", dict(above="Phone", **dn))], "under": [("in", "Extra", dict(below="Word", **up))],
             "low": [("in", "Extra", dict(below="Phone", **dn))], "pop": [("pop", "Phone")], "pop-top": [("pop", "Word")], "top-pop": [("in", "Extra", dict(above="Word", **up)), ("pop", "Word")],
             "top-top": [("in", "Extra", dict(above="Word", **up)), ("in", "More", dict(above="Extra", **up))], "in-out": [("in", "Extra", dict(above="Word", **up)), ("pop", "Extra")]}
    for nm, edits in later.items():
        for how in ("whole", "tierwise", "tierwise-first"):
            for shape in ((2, 1),) + ((((1, 1), (1,)),) if nm not in ("top-top",) else ()):
                add(f"later-{nm}-{how}-{shape}", h_later, shape=shape, edits=edits, how=how)
    add("same-class", h_same_class, shapes=((1,), (1, 1), (2,)), npts=0)
    return out
