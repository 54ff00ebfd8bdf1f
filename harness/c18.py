"""C18: validation."""
from harness.worlds import *

BOUNDS = ("intervals with up to 4 children at any non-negative times (overlapping, with gaps, outside their parent), set, appended or assigned; words of "
          "aligned groups of up to 3 levels after every operation; after cleanup")
ASSUMES = ["two boundaries that validation compares either agree or differ by more than the closeness tolerance"]

STARTS_AFTER, STARTS_BEFORE = "First subset interval starts after", "First subset interval starts before"
ENDS_BEFORE, ENDS_AFTER = "Last subset interval ends before", "Last subset interval ends after"
SNUG = "Not all subintervals fit snugly"

def validated(x):
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        r = x.validate()
    return r, [str(w.message) for w in ws]

def agree_or_differ(sx, a, b):
    sx.assume(disj(eq(a, b), sep(a, b), sep(b, a)))

def relevant(sx, x):
    kids = list(x.subset_list)
    if not kids:
        return
    agree_or_differ(sx, x.start, kids[0].start)
    agree_or_differ(sx, x.end, kids[-1].end)
    for a, b in zip(kids, kids[1:]):
        agree_or_differ(sx, a.end, b.start)

def check_valid(sx, x):
    kids = list(x.subset_list)
    r, msgs = validated(x)
    sx.check(r is True or r is False, "validation says yes or no")
    sx.check(len(msgs) == (0 if r else 1), "a warning exactly when validation fails")
    if not kids:
        sx.check(r is True, "without children there is nothing to fail")
        return r
    first, last = eq(x.start, kids[0].start), eq(x.end, kids[-1].end)
    snug = conj(*[eq(a.end, b.start) for a, b in zip(kids, kids[1:])])
    ok = conj(first, last, snug)
    if r:
        sx.check(ok, "valid only if the children fit snugly")
        return r
    m = msgs[0]
    no = lambda c: (not c) if isinstance(c, (bool, np.bool_)) else ~c
    iff = lambda here, c, what: sx.check(c if here else no(c), what)
    sx.check(no(ok), "invalid only if the children do not fit snugly")
    iff(STARTS_AFTER in m, kids[0].start > x.start, "says that the first child starts too late")
    iff(STARTS_BEFORE in m, kids[0].start < x.start, "says that the first child starts too early")
    iff(ENDS_BEFORE in m, kids[-1].end < x.end, "says that the last child ends too early")
    iff(ENDS_AFTER in m, kids[-1].end > x.end, "says that the last child ends too late")
    iff(SNUG in m, no(snug), "says that the children do not touch")
    return r

def h_kids(sx, n, how):
    W, P = classes(2)
    ts = [sx.real(f"t{i}") for i in range(2)]
    sx.assume(ts[0] >= 0); sx.assume(sep(ts[0], ts[1]))
    w = W((*ts, sx.label("w")))
    ps = []
    for i in range(n):
        s, e = sx.real(f"s{i}"), sx.real(f"e{i}")
        sx.assume(s >= 0); sx.assume(sep(s, e))
        if i:
            sx.assume(ps[-1].start < s)
        ps.append(P((s, e, sx.label(f"p{i}"))))
    if how == "set":
        quiet(w.set_subset_list, ps)
    elif how == "assign":
        w.subset_list = ps[::-1]
    elif how == "append":
        for p in ps:
            quiet(w.append_subset_list, p)
    elif how == "super":
        for p in ps[::-1]:
            quiet(p.set_super_instance, w)
    same_objects(sx, w.subset_list, ps, "children")
    relevant(sx, w)
    snap = Snap(floats=[w])
    check_valid(sx, w)
    snap.check(sx, "validating")
    for p in ps:
        check_valid(sx, p)

def h_clean(sx, n):
    W, P = classes(2)
    t = sep_times(sx, "t", 2 * n + 1)
    w = W((t[0], t[-1], sx.label("w")))
    ps = [P((t[2 * i + 1], t[2 * i + 2], sx.label(f"p{i}"))) for i in range(n)]
    quiet(w.set_subset_list, ps)
    sx.check(quiet(w.validate) is False, "gaps are invalid")
    quiet(w.cleanup)
    r, msgs = validated(w)
    sx.check(r is True and not msgs, "a cleaned up interval is valid")

def h_mutate(sx, which):
    """moving one boundary of a valid word makes it invalid, moving it back makes it valid"""
    g = aligned_group(sx, "g", [3])
    w = g[0][0]
    kids = list(w.subset_list)
    sx.check(check_valid(sx, w) is True, "aligned words are valid")
    x, attr = {"w.start": (w, "start"), "w.end": (w, "end"), "first.start": (kids[0], "start"), "first.end": (kids[0], "end"),
               "mid.start": (kids[1], "start"), "mid.end": (kids[1], "end"), "last.end": (kids[2], "end")}[which]
    old, new = getattr(x, attr), sx.real("new")
    sx.assume(new >= 0)
    sx.assume(disj(sep(new, old), sep(old, new)))
    # the order of the children stays
    if attr == "start" and x is not w:
        for k in kids:
            if k is not x:
                sx.assume(new < k.start if kids.index(k) > kids.index(x) else k.start < new)
    setattr(x, attr, new)
    relevant(sx, w)
    sx.check(check_valid(sx, w) is False, "a moved boundary is noticed")
    setattr(x, attr, old)
    sx.check(check_valid(sx, w) is True, "and moved back is fine")

def h_ops(sx, ops, shape, atg, gaps=False, kind="custom"):
    w = run_ops(sx, ops, shape, [], atg=atg, gaps=gaps, kind=kind)
    for g in w.groups:
        for t in g:
            for x in t:
                relevant(sx, x)
    for g in w.groups:
        for t in g:
            for x in t:
                check_valid(sx, x)

def h_empty(sx):
    W, P = classes(2)
    for x in (W(), P(), W((sx.real("s"), sx.real("e"), sx.label("l"))), SequenceInterval()):
        r, m = validated(x)
        sx.check(r is True and not m, "an interval without children is valid")

def instances(tier):
    th = tier == "thorough"
    out = []
    add = lambda nm, fn, **kw: out.append(Instance(nm, fn, kw))
    add("empty", h_empty)
    for how in ("set", "assign", "append", "super"):
        for n in range(0, 5 if th else 4):
            add(f"kids-{how}-{n}", h_kids, n=n, how=how)
    for n in range(1, 5 if th else 4):
        add(f"clean-{n}", h_clean, n=n)
    for which in ("w.start", "w.end", "first.start", "first.end", "mid.start", "mid.end", "last.end"):
        add(f"mutate-{which}", h_mutate, which=which)
    out += op_instances(h_ops, tier, pairs=th, skip=("interleave", "pop_class"))
    return out
