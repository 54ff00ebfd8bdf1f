"""C07: fusing two neighbours merges exactly those two."""
from harness.worlds import *

BOUNDS = ("textgrids, groups, lone tiers, lone parents and free chains with up to 6 words / 10 phones / 3 levels, every entry and both "
          "directions, with and without a label function, up to 3 fusions in a row, and after every operation that keeps the hierarchy in step with the times")
ASSUMES = []


def join(a, b):
    return " ".join([a, b])

def world_tiers(w):
    return [t for g in w.groups for t in g] + w.loose

def fuse_and_check(sx, x, right, tiers, floats=(), fun=None, alias=False):
    """fuse x with its neighbour and compare everything with the state before"""
    y = x.fol if right else x.prev
    edge = is_boundary(y)
    snap = Snap(tiers, list(floats) + [x] + ([] if edge else [y]))
    calls = []
    kw = {}
    if fun is not None:
        def label_fun(a, b):
            calls.append((a, b))
            return fun
        kw["label_fun"] = label_fun
    call = {(True, False): "fuse_rightwards", (False, False): "fuse_leftwards",
            (True, True): "fuse_rightward", (False, True): "fuse_leftward"}[(right, alias)]
    if edge:
        raised = False
        try:
            quiet(getattr(x, call), **kw)
        except Exception:
            raised = True
        sx.check(raised, "fusing past an edge is refused")
        snap.check(sx, "a refused fusion changes nothing")
        return False
    a, b = (x, y) if right else (y, x)
    a0, b0 = (a.start, a.end, a.label), (b.start, b.end, b.label)
    kids = list(a.subset_list) + list(b.subset_list)
    far = b.fol if right else a.prev
    parent = x.super_instance
    sibs = [z for z in parent.subset_list if z is not y] if parent is not None else None
    left = [[z for z in t if z is not y] for t in tiers]
    quiet(getattr(x, call), **kw)
    sx.check(conj(eq(x.start, a0[0]), eq(x.end, b0[1])), "the fused interval runs from the earlier start to the later end")
    if fun is None:
        sx.check(eq(x.label, join(a0[2], b0[2])), "the fused label joins the two in time order")
    else:
        sx.check(len(calls) == 1 and calls[0][0] is a0[2] and calls[0][1] is b0[2], "the label function gets the two labels in time order")
        sx.check(eq(x.label, fun), "the label function makes the label")
    same_objects(sx, x.subset_list, kids, "the fused interval has the children of both, in order")
    for k in kids:
        sx.check(k.super_instance is x and k.within is x, "the children point to the fused interval")
    check_chain(sx, x.subset_list, "children of a fused interval")
    sx.check(len(y.subset_list) == 0 or all(k.super_instance is x for k in kids), "the other interval's children have moved")
    sx.check(x.super_instance is parent, "the parent is kept")
    if parent is not None:
        same_objects(sx, parent.subset_list, sibs, "only the other interval leaves the parent")
        check_chain(sx, parent.subset_list, "siblings of a fused interval")
    for t, zs in zip(tiers, left):
        same_objects(sx, t, zs, "only the other interval leaves the tiers")
    if is_boundary(far):
        sx.check(is_boundary(x.fol if right else x.prev), "a fused interval at the edge has no neighbour beyond")
    else:
        sx.check((x.fol if right else x.prev) is far, "the neighbour beyond is next")
        sx.check((far.prev if right else far.fol) is x, "and points back")
    # everything else is as it was
    moved = kids
    near = x.prev if right else x.fol
    snap.check(sx, "fusion", times=[x], links=[x, far] + kids + ([parent] if parent is not None else []),
               tiers=[t for t in tiers if any(e[0] is t and ident_index(e[1], y) for e in snap.tiers)], skip=[y] + kids)
    for k, s, e, l, *_ in [snap.objs[id(k)] for k in kids]:
        sx.check(conj(eq(k.start, s), eq(k.end, e), eq(k.label, l)), "the children keep times and labels")
        sx.check(k.intier is snap.objs[id(k)][8], "the children stay on their tier")
        same_objects(sx, k.subset_list, snap.objs[id(k)][5], "the children keep their own children")
    return True

# ---------------------------------------------------------------- harnesses

def h_world(sx, shape, level, right, atg=True, gaps=False, fun=False, alias=False, times_=1, pre=None, kind="custom"):
    w = world(sx, shape, kind=kind, atg=atg, gaps=gaps)
    if pre:
        OPS[pre](Scoped(sx, "p"), w)
        if any(len(t) == 0 for g in w.groups for t in g):
            return
        sx.check(not w.odd, "the hierarchy follows the times")
    lv = min(level, len(w.groups[0]) - 1) if level >= 0 else len(w.groups[0]) - 1
    for k in range(times_):
        t = w.groups[0][lv]
        x = t[sx.choose(f"i{k}", len(t))]
        lab = sx.label(f"f{k}") if fun else None
        fuse_and_check(sx, x, right if k % 2 == 0 else not right, world_tiers(w), fun=lab, alias=alias)
    for inv in (inv_order, inv_intier, inv_inverse, inv_chain):
        inv(sx, w)

def h_tier(sx, n, right, lower, twice):
    """a tier outside any group"""
    cl = custom_classes(["W", "P"])[1 if lower else 0]
    raw = contiguous(sx, "t", n)
    t = SequenceTier([cl(r) for r in raw])
    for k in range(2 if twice else 1):
        x = t[sx.choose(f"i{k}", len(t))]
        fuse_and_check(sx, x, right, [t])
        check_chain(sx, t)
        check_intier(sx, t)

def h_floating(sx, n, right, kids):
    """free-floating intervals linked by hand"""
    W, P = custom_classes(["W", "P"])
    xs = []
    ts = times(sx, "t", n * max(kids, 1))
    for i in range(n):
        k = max(kids, 1)
        w = W((ts[i * k], ts[(i + 1) * k], sx.label(f"wL{i}")))
        for j in range(kids):
            w.append(P((ts[i * k + j], ts[i * k + j + 1], sx.label(f"pL{i}_{j}"))))
        xs.append(w)
    for a, b in zip(xs, xs[1:]):
        a.set_fol(b)
    i = sx.choose("i", n)
    done = fuse_and_check(sx, xs[i], right, [], floats=xs)
    ys = list(xs)
    if done:
        del ys[i + 1 if right else i - 1]
    check_chain(sx, ys, "chain")

def h_subset(sx, n, right, wp):
    """children of one parent, outside tiers"""
    W, P = (Word, Phone) if wp else custom_classes(["W", "P"])
    raw = contiguous(sx, "t", n)
    w = W((raw[0][0], raw[-1][1], sx.label("wL")))
    w.set_subset_list([P(r) for r in raw])
    for k in range(2):
        x = w[sx.choose(f"i{k}", len(w))]
        fuse_and_check(sx, x, right if k == 0 else not right, [], floats=[w])
        check_chain(sx, w.subset_list)
        check_snug(sx, w)

def instances(tier):
    th = tier == "thorough"
    out = []
    add = lambda name, fn, **kw: out.append(Instance(name, fn, kw))
    for right in (True, False):
        d = "right" if right else "left"
        for nm, shape, levels in (("small", (2, 1, 2), 2), ("wide", (1, 2, 1, 3, 1, 2), 2), ("deep", DEEP, 3), ("flat", (1, 1, 1), 2), ("many", (5, 4), 2)) + (
                (("wider", (2, 3, 1, 3, 2, 1, 2), 2), ("deeper", (((1, 1), (2,)), ((1,), (1, 1))), 4)) if th else ()):
            for lv in range(levels):
                add(f"{nm}-level{lv}-{d}", h_world, shape=shape, level=lv, right=right)
                add(f"{nm}-level{lv}-{d}-fun", h_world, shape=shape, level=lv, right=right, fun=True, alias=True)
                if th or nm in ("small", "deep"):
                    add(f"{nm}-level{lv}-{d}-twice", h_world, shape=shape, level=lv, right=right, times_=2)
                if th or nm == "small":
                    add(f"{nm}-level{lv}-{d}-group", h_world, shape=shape, level=lv, right=right, atg=False)
                    add(f"{nm}-level{lv}-{d}-gaps", h_world, shape=shape, level=lv, right=right, gaps=True)
                    add(f"{nm}-level{lv}-{d}-lower", h_world, shape=shape, level=lv, right=right, atg=False, kind="lower")
                    add(f"{nm}-level{lv}-{d}-wp", h_world, shape=shape, level=lv, right=right, kind="wp")
        for nm, shape, levels in (("words", MANY, 2), ("manydeep", MANYDEEP, 3)):
            for lv in range(levels):
                add(f"{nm}-level{lv}-{d}", h_world, shape=shape, level=lv, right=right)
        if th:
            for lv in range(2):
                add(f"thrice-level{lv}-{d}", h_world, shape=(3, 2, 2), level=lv, right=right, times_=3)
        for op in OPS:
            if op in ("none", "sub_pop", "sub_remove", "remove_superset", "move", "move_append", "assign_subset", "replace_alike",
                      "word_append", "append_phone_tier"):
                continue          # these edit the hierarchy against the times
            for lv in (0, -1):
                add(f"after-{op}-level{lv}-{d}", h_world, shape=(2, 1), level=lv, right=right, pre=op)
        for n in (1, 2, 3, 4) + ((6,) if th else ()):
            for lower in (False, True):
                add(f"tier-{n}-{'low' if lower else 'top'}-{d}", h_tier, n=n, right=right, lower=lower, twice=n > 2)
        for n in (1, 2, 3) + ((4,) if th else ()):
            for kids in (0, 1, 2):
                add(f"floating-{n}-{kids}-{d}", h_floating, n=n, right=right, kids=kids)
        for n in (1, 2, 3, 4):
            for wp in (False, True):
                add(f"subset-{n}-{'wp' if wp else 'custom'}-{d}", h_subset, n=n, right=right, wp=wp)
    return out
