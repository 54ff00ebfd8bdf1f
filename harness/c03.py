"""C03: the hierarchy is strict."""
from harness.worlds import *
from harness.c01 import entries, distinct

BOUNDS = ("free-standing hierarchies of up to 2 parents and 4 children edited by histories of up to 3 edits; groups of up to "
          "6 words / 10 phones and up to 3 levels after each of 32 operations and after pairs of operations")
ASSUMES = ["no two entries of one list agree in time(s) and label"]


def inv_levels(sx, w):
    """children are on the tier below, parents on the tier above"""
    for g in w.groups:
        for up, low in zip(list(g), list(g)[1:]):
            for u in up:
                for c in u.subset_list:
                    sx.check(isinstance(c, u.subset_class), "a child is of the subset class")
            for c in low:
                if c.super_instance is not None:
                    sx.check(isinstance(c.super_instance, c.superset_class), "a parent is of the superset class")
                    if w.complete:
                        sx.check(len(ident_index(up, c.super_instance)) == 1, "a parent is on the tier above")
        for x in g[0]:
            sx.check(x.super_instance is None, "the top tier's entries have no parent")
        for x in g[-1]:
            sx.check(len(x.subset_list) == 0, "the bottom tier's entries have no children")

def h_ops(sx, ops, shape, **kw):
    run_ops(sx, ops, shape, (inv_inverse, inv_levels, inv_complete), **kw)

def h_free(sx, k, m):
    """two parents and m children, edited k times in any way"""
    W, P = custom_classes(["W", "P"])
    raw, _ = entries(sx, m, False, cls=P)
    distinct(sx, raw)
    xs = [P(r) for r in raw]
    ws = [W((sx.real(f"ws{i}"), sx.real(f"we{i}"), sx.label(f"wL{i}"))) for i in range(2)]
    want = {id(x): None for x in xs}
    for s in range(k):
        op = sx.choose(f"op{s}", 8)
        x = xs[sx.choose(f"x{s}", m)]
        w = ws[sx.choose(f"w{s}", 2)]
        old = want[id(x)]
        if op == 0:
            if old is w: continue
            quiet(x.set_super_instance, w); want[id(x)] = w
        elif op == 1:
            quiet(w.append_subset_list, x); want[id(x)] = w
        elif op == 2:
            quiet(w.append, x); want[id(x)] = w
        elif op == 3:
            quiet(x.remove_superset); want[id(x)] = None
        elif op == 4:
            if old is None: continue
            quiet(old.pop, x); want[id(x)] = None
        elif op == 5:
            quiet(w.remove_from_subset_list, x)
            if old is w: want[id(x)] = None
        elif op == 6:
            for y in xs:
                if want[id(y)] is w: want[id(y)] = None
            quiet(w.set_subset_list, [x]); want[id(x)] = w
        else:
            for y in xs:
                if want[id(y)] is w: want[id(y)] = None
            other = xs[(xs.index(x) + 1) % m] if m > 1 else x
            w.subset_list = [other, x] if m > 1 else [x]
            want[id(x)] = want[id(other)] = w
    for x in xs:
        sx.check(x.super_instance is want[id(x)], "the parent is the one last given")
        for w in ws:
            sx.check(len(ident_index(w.subset_list, x)) == (1 if want[id(x)] is w else 0), "only the parent lists the child")
    world = World()
    world.floats = xs + ws
    inv_inverse(sx, world)
    for w in ws:
        check_chain(sx, w.subset_list, "children")
        check_sorted(sx, w.subset_list)

def h_deep_free(sx, how):
    """three levels built by hand"""
    A, B, C = custom_classes(["A", "B", "C"])
    a = A((sx.real("as"), sx.real("ae"), sx.label("aL")))
    bs = [B((sx.real(f"bs{i}"), sx.real(f"be{i}"), sx.label(f"bL{i}"))) for i in range(2)]
    cs = [C((sx.real(f"cs{i}"), sx.real(f"ce{i}"), sx.label(f"cL{i}"))) for i in range(2)]
    distinct(sx, [(x.start, x.end, x.label) for x in bs])
    distinct(sx, [(x.start, x.end, x.label) for x in cs])
    if how == 0:
        a.set_subset_list(bs)
        for b, c in zip(bs, cs):
            b.set_subset_list([c])
    elif how == 1:
        for b, c in zip(bs, cs):
            c.set_super_instance(b)
            b.set_super_instance(a)
    else:
        for b, c in zip(bs, cs):
            quiet(b.append, c)
            quiet(a.append, b)
    world = World()
    world.floats = [a] + bs + cs
    inv_inverse(sx, world)
    for b, c in zip(bs, cs):
        sx.check(c.super_instance is b and b.super_instance is a, "parents are as given")
    # passing over from one parent to the other
    cs[0].set_super_instance(bs[1])
    sx.check(len(bs[0]) == 0 and len(bs[1]) == 2 and cs[0].super_instance is bs[1], "a child changes its parent")
    inv_inverse(sx, world)

def h_rawlist(sx, n, how, wp):
    """a child taken out through its parent's list"""
    W, P = (Word, Phone) if wp else custom_classes(["W", "P"])
    raw = disjoint(sx, "x", n)
    xs = [P(r) for r in raw]
    w = W((raw[0][0], raw[-1][1], sx.label("wL")))
    w.set_subset_list(xs)
    have = list(xs)
    for k in range(min(n, 2)):
        x = have.pop(sx.choose(f"i{k}", len(have)))
        getattr(w.subset_list, how)(x)
        same_objects(sx, w.subset_list, have, "the other children stay")
        sx.check(x.super_instance is None and x.within is None, "a removed child has no parent")
        for y in have:
            sx.check(y.super_instance is w, "the other children keep their parent")

def h_aliases(sx, how):
    """the word and phone vocabulary"""
    raw = contiguous(sx, "x", 3)
    a = Word((raw[0][0], raw[1][1], sx.label("aL")))
    b = Word((raw[2][0], raw[2][1], sx.label("bL")))
    ps = [Phone(r) for r in raw]
    if how == 0:
        a.set_phones(ps[:2]); b.set_phones(ps[2:])
    elif how == 1:
        for p, w in zip(ps, (a, a, b)):
            w.append_subset_list(p)
    elif how == 2:
        for p, w in zip(ps, (a, a, b)):
            p.set_word(w)
    elif how == 3:
        a = a + ps[1]
        a = a + ps[0]
        b = b + ps[2]
    same_objects(sx, a.subset_list, ps[:2], "the phones of the first word")
    same_objects(sx, b.subset_list, ps[2:], "the phones of the second word")
    for p, w in zip(ps, (a, a, b)):
        sx.check(p.super_instance is w and p.inword is w, "a phone's word")
    sx.check(len(a.phones) == 2 and len(b.phones) == 1, "one phone label per phone")
    for got, p in zip(list(a.phones) + list(b.phones), ps):
        sx.check(eq(got, p.label), "phone labels")
    if how != 3:
        ps[1].set_word(b)
        same_objects(sx, a.subset_list, ps[:1], "a moved phone leaves its word")
        same_objects(sx, b.subset_list, ps[1:], "and is in the other")
        world = World(); world.floats = [a, b] + ps
        inv_inverse(sx, world)

def h_reject(sx, how):
    """a wrong class is refused and nothing changes"""
    A, B, C = custom_classes(["A", "B", "C"])
    a = A((sx.real("as"), sx.real("ae"), sx.label("aL")))
    b = B((sx.real("bs"), sx.real("be"), sx.label("bL")))
    c = C((sx.real("cs"), sx.real("ce"), sx.label("cL")))
    a.set_subset_list([b])
    bad = [lambda: a.set_subset_list([c]), lambda: a.append_subset_list(c), lambda: c.set_super_instance(a),
           lambda: a.append(c), lambda: a.set_subset_list([b, c]), lambda: setattr(a, "subset_list", [c]),
           lambda: a.set_super_instance(b), lambda: b.append_subset_list(b)][how]
    try:
        quiet(bad)
    except Exception:
        pass
    else:
        sx.check(False, "a member of a wrong class is refused")
    same_objects(sx, a.subset_list, [b], "the children are as before")
    sx.check(b.super_instance is a and c.super_instance is None and a.super_instance is None, "the parents are as before")
    sx.check(len(b) == 0 and len(c) == 0, "nothing was added elsewhere")

def instances(tier):
    th = tier == "thorough"
    out = [Instance("free-history-1", h_free, dict(k=1, m=2)), Instance("free-history-2", h_free, dict(k=2, m=2))]
    if th:
        out.append(Instance("free-history-3", h_free, dict(k=3, m=2)))
        out.append(Instance("free-history-2-3", h_free, dict(k=2, m=3)))
    for how in range(3):
        out.append(Instance(f"deep-free-{how}", h_deep_free, dict(how=how)))
    for n in (1, 2, 3):
        for how in ("remove", "pop"):
            for wp in (False, True):
                out.append(Instance(f"rawlist-{how}-{n}-{'wp' if wp else 'custom'}", h_rawlist, dict(n=n, how=how, wp=wp)))
    for how in range(4):
        out.append(Instance(f"aliases-{how}", h_aliases, dict(how=how)))
    for how in range(8):
        out.append(Instance(f"reject-{how}", h_reject, dict(how=how)))
    out += op_instances(h_ops, tier, local=True)
    return out
