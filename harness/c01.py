"""C01: lists and tiers are time-ordered and hold exactly what was put in."""
from harness.worlds import *
from symx.concrete import Instance

BOUNDS = ("lists and tiers of up to 5 entries in any order, up to 7 in order (free starts and ends, overlaps and ties allowed), interval and "
          "point entries; histories of up to 3 edits; groups of up to 3 words / 5 phones after each of 32 operations and pairs, and after entries were moved by assigning times")
ASSUMES = ["no two entries of one list agree in time(s) and label (look-alikes are dropped by design)"]


def entries(sx, n, pt, cls=None, nm="x", lo=None):
    cls = cls or (SequencePoint if pt else SequenceInterval)
    raw = []
    for i in range(n):
        s = sx.real(f"{nm}s{i}")
        if lo is not None:
            sx.assume(s >= lo)
        l = sx.label(f"{nm}L{i}")
        if pt:
            raw.append((s, l))
        else:
            e = sx.real(f"{nm}e{i}")
            sx.assume(s < e)
            raw.append((s, e, l))
    return raw, cls

def alike(a, b):
    return conj(*[eq(x, y) for x, y in zip(a, b)])

def distinct(sx, raw):
    for i in range(len(raw)):
        for j in range(i):
            c = alike(raw[i], raw[j])
            sx.assume(~c if hasattr(c, "f") else not c)

def make(sx, n, pt, **kw):
    raw, cls = entries(sx, n, pt, **kw)
    distinct(sx, raw)
    return raw, [cls(r) for r in raw]

def check_list(sx, lst, want, pt):
    same_set(sx, lst, want, "the list holds exactly the entries put in")
    xs = list(lst)
    sx.check(len(lst) == len(want), "length is the number of entries")
    for a, b in zip(xs, xs[1:]):
        sx.check(a.start <= b.start, "entries are in time order")
    sx.check(len(lst.starts) == len(xs) and len(lst.ends) == len(xs) and len(lst.labels) == len(xs), "views have one value per entry")
    for i, x in enumerate(xs):
        sx.check(lst[i] is x, "indexing agrees with iteration")
        sx.check(eq(lst.starts[i], x.start), "starts view")
        sx.check(eq(lst.ends[i], x.time if pt else x.end), "ends view")
        sx.check(eq(lst.labels[i], x.label), "labels view")

def unchanged(sx, objs, raw):
    for o, r in zip(objs, raw):
        got = (o.time, o.label) if len(r) == 2 else (o.start, o.end, o.label)
        sx.check(alike(got, r), "the entry's own times and label are untouched")

def h_list(sx, n, how, pt):
    raw, xs = make(sx, n, pt)
    if how == "ctor":
        lst = SequenceList(*xs)
    elif how == "append":
        lst = SequenceList()
        for x in xs:
            lst.append(x)
    elif how == "add":
        lst = quiet(lambda: SequenceList(*xs[:n - 2]) + xs[n - 2:])
    elif how == "iadd":
        lst = SequenceList()
        for x in xs:
            lst = quiet(lambda: lst + [x])
    check_list(sx, lst, xs, pt)
    unchanged(sx, xs, raw)
    for x in xs:
        sx.check(x in lst, "an entry is in its list")

def h_addwarn(sx, n):
    raw, xs = make(sx, n, False)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        lst = SequenceList(*xs[:1]) + xs[1:]
    warned = any("overlap" in str(x.message) for x in ws)
    over = disj(*[conj(raw[i][0] < raw[j][1], raw[j][0] < raw[i][1]) for i in range(n) for j in range(i)])
    if warned:
        sx.check(over, "a warning about overlaps means that entries overlap")
    else:
        sx.check(~over if hasattr(over, "f") else not over, "overlapping entries are warned about")
    check_list(sx, lst, xs, False)

def h_drop(sx, n, how, pt):
    raw, xs = make(sx, n, pt)
    lst = SequenceList(*xs)
    order = list(lst)
    i = sx.choose("i", n)
    x = order[i]
    getattr(lst, how)(x)
    same_objects(sx, lst, order[:i] + order[i + 1:], "the other entries stay, in order")
    check_list(sx, lst, order[:i] + order[i + 1:], pt)

def h_history(sx, n, k, pt):
    raw, xs = make(sx, n + k, pt)
    lst = SequenceList(*xs[:n])
    have, new = list(xs[:n]), list(xs[n:])
    for step in range(k):
        op = sx.choose(f"op{step}", 4)
        if op in (0, 3) or not have:
            x = new.pop()
            if op == 3:
                lst = quiet(lambda: lst + [x])
            else:
                lst.append(x)
            have.append(x)
        else:
            x = list(lst)[sx.choose(f"i{step}", len(have))]
            (lst.remove if op == 1 else lst.pop)(x)
            have = [h for h in have if h is not x]
        check_list(sx, lst, have, pt)
    unchanged(sx, xs, raw)

def tier_of(xs, pt, **kw):
    return (SequencePointTier if pt else SequenceTier)(xs, **kw)

def check_tier(sx, t, want, pt):
    check_list(sx, t.sequence_list, want, pt)
    xs = list(t)
    same_set(sx, xs, want, "the tier holds exactly the entries put in")
    for i, x in enumerate(xs):
        sx.check(t[i] is x, "tier indexing")
        sx.check(eq(t.labels[i], x.label), "tier labels view")
        if pt:
            sx.check(eq(t.times[i], x.time), "tier times view")
        else:
            sx.check(conj(eq(t.starts[i], x.start), eq(t.ends[i], x.end)), "tier starts/ends views")
    if xs:
        sx.check(t.first is xs[0] and t.last is xs[-1], "first and last")

def h_tier(sx, n, how, pt, word=False):
    raw, cls = entries(sx, n, pt, cls=(custom_classes(["W", "P"])[1] if word else None))
    distinct(sx, raw)
    xs = [cls(r) for r in raw]
    if how == "tuples":
        from praatio.utilities.constants import Interval, Point
        t = tier_of([(Point if pt else Interval)(*r) for r in raw], pt, entry_class=cls)
        got = list(t)
        sx.check(len(got) == n, "one entry per tuple")
        check_tier(sx, t, got, pt)
        for r in raw:
            f = disj(*[alike((g.time, g.label) if pt else (g.start, g.end, g.label), r) for g in got])
            sx.check(f, "every tuple has its entry")
        return
    if how == "ctor":
        t = tier_of(xs, pt)
    elif how == "copy":
        t = tier_of(tier_of(xs, pt), pt)
    elif how == "append":
        t = tier_of(xs[:1], pt)
        for x in xs[1:]:
            quiet(t.append, x)
    elif how == "empty":
        t = tier_of([], pt, entry_class=cls)
        for x in xs:
            quiet(t.append, x)
    elif how == "add":
        t = quiet(lambda: tier_of(xs[:n - 1], pt) + tier_of(xs[n - 1:], pt))
    check_tier(sx, t, xs, pt)
    unchanged(sx, xs, raw)

def h_tier_copy_after_append(sx, pt):
    raw, xs = make(sx, 3, pt)
    t = tier_of(xs[:2], pt)
    quiet(t.append, xs[2])
    t2 = tier_of(t, pt)
    check_tier(sx, t2, xs, pt)
    quiet(t.__init__, t)
    check_tier(sx, t, xs, pt)

def h_tier_pop(sx, n, sup):
    raw, cls = entries(sx, n, False, cls=custom_classes(["W", "P"])[1 if sup else 0])
    distinct(sx, raw)
    xs = [cls(r) for r in raw]
    t = SequenceTier(xs)
    order = list(t)
    i = sx.choose("i", n)
    t.pop(order[i])
    same_objects(sx, t, order[:i] + order[i + 1:], "the other entries stay, in order")
    check_tier(sx, t, order[:i] + order[i + 1:], False)

def h_tier_history(sx, n, k, pt):
    raw, xs = make(sx, n + k, pt)
    t = tier_of(xs[:n], pt)
    have, new = list(xs[:n]), list(xs[n:])
    for step in range(k):
        if not pt and sx.choose(f"op{step}", 2):
            x = list(t)[sx.choose(f"i{step}", len(have))]
            t.pop(x)
            have = [h for h in have if h is not x]
        else:
            x = new.pop()
            quiet(t.append, x)
            have.append(x)
        check_tier(sx, t, have, pt)

def h_subset(sx, n, how):
    """children given to a parent in any order"""
    W, P = custom_classes(["W", "P"])
    raw, cls = entries(sx, n, False, cls=P)
    distinct(sx, raw)
    xs = [P(r) for r in raw]
    w = W((sx.real("ws"), sx.real("we"), sx.label("wL")))
    if how == "list":
        w.set_subset_list(xs)
    elif how == "assign":
        w.subset_list = xs
    elif how == "one":
        for x in xs:
            w.append_subset_list(x)
    elif how == "super":
        for x in xs:
            x.set_super_instance(w)
    elif how == "append":
        for x in xs:
            quiet(w.append, x)
    check_list(sx, w.subset_list, xs, False)
    sx.check(len(w) == n, "the parent's length is its number of children")
    sx.check(w.first is list(w.subset_list)[0] and w.last is list(w.subset_list)[-1], "first and last child")
    for i, x in enumerate(w.subset_list):
        sx.check(eq(w.sub_starts[i], x.start), "sub_starts view")
        sx.check(eq(w.sub_ends[i], x.end), "sub_ends view")
        sx.check(eq(w.sub_labels[i], x.label), "sub_labels view")
        sx.check(w[i] is x and x in w and w.index(x) == i, "indexing into the parent")
    unchanged(sx, xs, raw)

def h_long(sx, n, what, how):
    """longer lists, tiers and parents, entries in order: dropping any of them drops that one"""
    W, P = custom_classes(["W", "P"])
    raw = disjoint(sx, "x", n)
    xs = [P(r) for r in raw]
    if what == "list":
        lst = box = SequenceList(*reversed(xs))
    elif what == "tier":
        box = SequenceTier(xs)
        lst = box.sequence_list
    else:
        box = W((raw[0][0], raw[-1][1], sx.label("wL")))
        box.set_subset_list(xs)
        lst = box.subset_list
    same_objects(sx, lst, xs, "the entries in order")
    have = list(xs)
    for k in range(2):
        i = sx.choose(f"i{k}", len(have))
        x = have.pop(i)
        if what == "parent" and how == "remove":
            box.remove_from_subset_list(x)
        else:
            getattr(box, how)(x)
        now = {"list": lambda: box, "tier": lambda: box.sequence_list, "parent": lambda: box.subset_list}[what]()
        same_objects(sx, now, have, "the other entries stay, in order")
        check_list(sx, now, have, False)
    unchanged(sx, xs, raw)

def h_moved(sx, n, how, pt, lower=False):
    """entries whose times are set by hand are in order again once the tier is put together anew"""
    raw, cls = entries(sx, n, pt, cls=custom_classes(["W", "P"])[1] if lower else None)
    for a, b in zip(raw, raw[1:]):
        sx.assume(a[0] < b[0] if pt else a[1] <= b[0])
    xs = [cls(r) for r in raw]
    t = tier_of(xs, pt)
    now, _ = entries(sx, n, pt, nm="y")
    now = [y[:-1] + (r[-1],) for y, r in zip(now, raw)]
    have = list(xs)
    if how in ("append", "add", "list-append", "list-add"):
        more, _ = entries(sx, 1, pt, nm="z")
        distinct(sx, now + more)
        new = cls(more[0])
        have.append(new)
    else:
        distinct(sx, now)
    for x, y in zip(xs, now):
        if pt:
            x.time = y[0]
        else:
            x.start, x.end = y[0], y[1]
    if how == "same":
        t.sequence_list = t.sequence_list
    elif how == "list":
        t.sequence_list = list(t)
    elif how == "copy":
        t = tier_of(t, pt)
    elif how == "again":
        quiet(t.__init__, t)
    elif how == "append":
        quiet(t.append, new)
    elif how == "add":
        t = quiet(lambda: t + tier_of([new], pt))
    elif how == "list-append":
        t.sequence_list.append(new)
        check_list(sx, t.sequence_list, have, pt)
        return
    elif how == "list-add":
        check_list(sx, quiet(lambda: t.sequence_list + [new]), have, pt)
        return
    check_tier(sx, t, have, pt)
    unchanged(sx, xs, now)

def h_moved_kids(sx, n, how):
    """the same for children"""
    W, P = custom_classes(["W", "P"])
    raw = disjoint(sx, "x", n)
    xs = [P(r) for r in raw]
    w = W((sx.real("ws"), sx.real("we"), sx.label("wL")))
    w.set_subset_list(xs)
    now, _ = entries(sx, n, False, nm="y")
    now = [y[:-1] + (r[-1],) for y, r in zip(now, raw)]
    have = list(xs)
    if how not in ("same", "set"):
        more, _ = entries(sx, 1, False, nm="z")
        distinct(sx, now + more)
        have.append(P(more[0]))
    else:
        distinct(sx, now)
    for x, y in zip(xs, now):
        x.start, x.end = y[0], y[1]
    if how == "same":
        w.subset_list = w.subset_list
    elif how == "set":
        w.set_subset_list(list(w.subset_list))
    elif how == "one":
        w.append_subset_list(have[-1])
    elif how == "super":
        have[-1].set_super_instance(w)
    elif how == "append":
        quiet(w.append, have[-1])
    check_list(sx, w.subset_list, have, False)
    unchanged(sx, xs, now)

def h_ops(sx, ops, shape, **kw):
    run_ops(sx, ops, shape, (inv_order, inv_views), **kw)

def instances(tier):
    th = tier == "thorough"
    out = []
    for pt in (False, True):
        p = "points" if pt else "intervals"
        for how in ("ctor", "append", "add", "iadd"):
            out.append(Instance(f"list-{how}-{p}", h_list, dict(n=5 if th and how == "ctor" else 4, how=how, pt=pt)))
        for how in ("remove", "pop"):
            out.append(Instance(f"list-{how}-{p}", h_drop, dict(n=4 if th else 3, how=how, pt=pt)))
        out.append(Instance(f"list-history-{p}", h_history, dict(n=2, k=3 if th else 2, pt=pt)))
        for how in ("tuples", "ctor", "copy", "append", "empty", "add"):
            out.append(Instance(f"tier-{how}-{p}", h_tier, dict(n=4 if th else 3, how=how, pt=pt)))
        out.append(Instance(f"tier-history-{p}", h_tier_history, dict(n=2, k=3 if th else 2, pt=pt)))
        out.append(Instance(f"tier-copy-after-append-{p}", h_tier_copy_after_append, dict(pt=pt)))
    out.append(Instance("list-add-overlap-warning", h_addwarn, dict(n=3)))
    for how in ("ctor", "append", "add"):
        out.append(Instance(f"tier-{how}-lower-class", h_tier, dict(n=3, how=how, pt=False, word=True)))
    for sup in (False, True):
        out.append(Instance(f"tier-pop-{'lower' if sup else 'top'}", h_tier_pop, dict(n=4 if th else 3, sup=sup)))
    for how in ("list", "assign", "one", "super", "append"):
        out.append(Instance(f"subset-{how}", h_subset, dict(n=4 if th else 3, how=how)))
    for how in ("same", "set", "one", "super", "append"):
        out.append(Instance(f"moved-kids-{how}", h_moved_kids, dict(n=3 if how in ("same", "set") else 2, how=how)))
    for how in ("same", "list", "copy", "again", "append", "add", "list-append", "list-add"):
        add = lambda nm, **kw: out.append(Instance(f"moved-{how}-{nm}", h_moved, dict(n=3 if kw["pt"] or how in ("same", "list", "copy", "again") else 2, how=how, **kw)))
        add("intervals", pt=False)
        add("lower", pt=False, lower=True)
        add("points", pt=True)
    for what, hows in (("list", ("remove", "pop")), ("tier", ("pop",)), ("parent", ("remove", "pop"))):
        for how in hows:
            for n in (5, 7) if th else (5,):
                out.append(Instance(f"long-{what}-{how}-{n}", h_long, dict(n=n, what=what, how=how)))
    out += op_instances(h_ops, tier, local=True)
    return out
