"""P23 well bore architecture: sections of strings and wellbores"""
from .common import *

FILES = ["welleng/architecture.py"]
A_ = "welleng.architecture."
META = dict(
    title="Sections of strings and wellbores are contiguous and complete means no gap",
    statement="However a string or wellbore is built (top down by section bottoms; bottom up by lengths, tops or to the top), after every accepted section the sections are numbered from the shallowest, each starts where the one above ends, its length is its bottom minus its top, none lies outside the string, and the parameters given for a section stay with it. "
              "Complete is set exactly when the sections cover the string from its top to its bottom; a section that leaves the string is refused, and a wellbore section without friction factor or id too. "
              "A complete string run to a shallower depth ends at that depth, is complete, and has the same sections from the bit up with the same parameters, cut at the top; the string itself is not changed.",
    over=["inputs", "histories"], quantifier="all sequences of sections (building histories), both methods and all depths",
    why="The architecture tests build three fixed strings; overlapping or missing sections give wrong weights and friction elsewhere without any error.",
    mechanism=[("top down", "welleng/architecture.py:String.add_section_top_down"), ("bottom up", "welleng/architecture.py:String.add_section_bottom_up"), ("parameters", "welleng/architecture.py:String.add_section"), ("shallower", "welleng/architecture.py:String.depth")],
    observe_at="String.sections, String.complete, String.depth()")


def string(v, k, method, cls="String", full=False):
    """an arbitrary string with k sections that satisfies the invariant (k + 1 boundaries)"""
    top, bottom = v.real("top"), v.real("bottom")
    v.assume(T.lt(top, bottom))
    b = [v.real("b%d" % i) for i in range(k + 1)] if k else []
    for x, y in zip(b, b[1:]):
        v.assume(T.lt(x, y))
    if k:
        if method == "top_down" or full:
            b[0] = top
        if method == "bottom_up" or full:
            b[-1] = bottom
        if k == 1:
            pass
        for x, y in zip(b, b[1:]):
            v.assume(T.lt(x, y))
        if not full:
            v.assume(T.lt(b[-1], bottom) if method == "top_down" else T.lt(top, b[0]))
    sec = {i: dict(top=b[i], bottom=b[i + 1], length=sub(b[i + 1], b[i]), tag="s%d" % i) for i in range(k)}
    return v.obj(A_ + cls, name="x", top=top, bottom=bottom, sections=sec, complete=bool(full), method=method), top, bottom, b


def invariant(v, o, want, top, bottom, tags, complete):
    s = v.get(o, "sections")
    v.ensure("numbered from the shallowest", T.TRUE if list(s) == list(range(len(want) - 1)) else T.FALSE)
    for i in range(len(want) - 1):
        v.ensure("section %d top" % i, T.eq(s[i]["top"], want[i]))
        v.ensure("section %d bottom" % i, T.eq(s[i]["bottom"], want[i + 1]))
        v.ensure("section %d length" % i, T.eq(s[i]["length"], sub(want[i + 1], want[i])))
        v.ensure("section %d keeps its parameters" % i, T.TRUE if s[i].get("tag") == tags[i] else T.FALSE)
    c = v.get(o, "complete")
    v.ensure("complete exactly when nothing is missing", T.TRUE if bool(c) == complete else T.FALSE)


def s_down(v, k):
    o, top, bottom, b = string(v, k, "top_down")
    x = v.real("x")
    start = b[-1] if k else top
    v.assume(T.lt(start, x))
    if v.branch(T.lt(bottom, x)):
        v.ensure("a section below the string is refused", T.TRUE if v.raises((lambda: v.method(o, "add_section", bottom=x, tag="new")) if False else v.I.getattr(o, "add_section"), bottom=x, tag="new") else T.FALSE)
        return
    full = v.branch(T.eq(x, bottom))
    v.method(o, "add_section", bottom=x, tag="new")
    invariant(v, o, (b or [top]) + [x], top, bottom, ["s%d" % i for i in range(k)] + ["new"], full)


def s_up(v, k, by):
    o, top, bottom, b = string(v, k, "bottom_up")
    end = b[0] if k else bottom
    x = v.real("x")
    kw = {"tag": "new"}
    if by == "length":
        v.assume(T.lt(0, x))
        kw["length"] = x
        t = top if v.branch(T.lt(sub(end, x), top)) else sub(end, x)
    elif by == "top":
        v.assume(T.lt(x, end), T.ne(x, 0))
        kw["top"] = t = x
        if v.branch(T.lt(x, top)):
            v.ensure("a section above the string is refused", T.TRUE if v.raises(v.I.getattr(o, "add_section"), **kw) else T.FALSE)
            return
    else:
        t = top
    full = t is top or v.branch(T.eq(t, top))
    v.method(o, "add_section", **kw)
    invariant(v, o, [t] + (b or [bottom]), top, bottom, ["new"] + ["s%d" % i for i in range(k)], full)


def s_depth(v, k):
    o, top, bottom, b = string(v, k, "bottom_up", full=True)
    md = v.real("md")
    v.assume(T.lt(top, md), T.le(md, bottom))
    before = [dict(x) for x in v.get(o, "sections").values()]
    # how many sections are left
    want, tags = [md], []
    for i in range(k - 1, -1, -1):
        t = sub(want[0], sub(b[i + 1], b[i]))
        tags.insert(0, "s%d" % i)
        if i == 0 or v.branch(T.le(t, top)):
            want.insert(0, top)
            break
        want.insert(0, t)
    # the string is as long as its sections, so the top one always reaches the top
    n = v.method(o, "depth", md)
    invariant(v, n, want, top, md, tags, True)
    v.ensure("from the same top to the depth asked for", T.land(T.eq(v.get(n, "top"), top), T.eq(v.get(n, "bottom"), md)))
    now = list(v.get(o, "sections").values())
    v.ensure("the string is unchanged", T.TRUE if len(now) == k and all(set(x) == set(y) and all(x[q] is y[q] or x[q] == y[q] for q in x) for x, y in zip(now, before)) else T.FALSE)


def s_wellbore(v):
    for kw in (dict(id=.3), dict(coeff_friction_sliding=.2), {}):
        o, top, bottom, b = string(v, 0, "bottom_up", cls="WellBore")
        v.ensure("refused without %s" % "/".join({"id", "coeff_friction_sliding"} - set(kw)), T.TRUE if v.raises(v.I.getattr(o, "add_section"), **kw) else T.FALSE)
        v.ensure("and nothing is added", T.TRUE if not v.get(o, "sections") and not v.get(o, "complete") else T.FALSE)
    o, top, bottom, b = string(v, 0, "bottom_up", cls="BHA")
    v.method(o, "add_section", od=.2)
    v.ensure("steel unless told otherwise", T.eq(v.get(o, "sections")[0]["density"], T.const(7.85)))
    o, top, bottom, b = string(v, 0, "bottom_up", cls="BHA")
    d = v.real("density")
    v.method(o, "add_section", od=.2, density=d)
    v.ensure("density given", T.eq(v.get(o, "sections")[0]["density"], d))


SPECS = [Spec("top down/%d" % k, lambda v, k=k: s_down(v, k), bounded="strings of %d sections so far (the step from k to k + 1 sections)" % k) for k in range(4)]
SPECS += [Spec("bottom up/%s/%d" % (by, k), lambda v, k=k, by=by: s_up(v, k, by), bounded="strings of %d sections so far (the step from k to k + 1 sections)" % k) for k in range(4) for by in ("length", "top", "rest")]
SPECS += [Spec("depth/%d" % k, lambda v, k=k: s_depth(v, k), bounded="strings of %d sections" % k) for k in (1, 2, 3)]
SPECS += [Spec("parameters", s_wellbore)]


def g(d):
    top = 0.0 if d.bool(.5) else d.real(-100, 1000)
    n = d.int(1, 5)
    L = [max(d.real(.01, 900, (10.0, 100.0, 12.5)), 1e-3) for _ in range(n)]
    c = {"top": top, "L": L, "cls": d.choice(["String", "BHA", "WellBore"]), "down": d.bool(), "by": [d.choice(["length", "top", "rest"]) for _ in L]}
    c["stop"] = d.int(1, n)
    c["md"] = d.choice([1.0, 1.0, d.real(0.01, 1), d.real(0.01, 1)])
    c["over"] = d.choice([0, 0, 0, d.real(.1, 50)])
    return c


def state(o):
    return [{k: v for k, v in x.items() if k != "density"} for x in o.sections.values()]


def inv(o, tags, done):
    s = o.sections
    if list(s) != list(range(len(tags))):
        return "sections numbered %s" % list(s)
    for i, t in enumerate(tags):
        if s[i].get("tag") != t:
            return "section %d is %r, expected %r" % (i, s[i].get("tag"), t)
        if i and s[i]["top"] != s[i - 1]["bottom"]:
            return "section %d starts at %r, the one above ends at %r" % (i, s[i]["top"], s[i - 1]["bottom"])
        if abs(s[i]["length"] - (s[i]["bottom"] - s[i]["top"])) > 1e-9 or s[i]["length"] < 0:
            return "section %d is %r long" % (i, s[i]["length"])
        if s[i]["top"] < o.top or s[i]["bottom"] > o.bottom:
            return "section %d leaves the string" % i
    cover = bool(tags) and s[0]["top"] == o.top and s[len(tags) - 1]["bottom"] == o.bottom
    if bool(o.complete) != cover or cover != done:
        return "complete=%r after %d sections (%s cover the string)" % (o.complete, len(tags), "they" if cover else "they do not")


def ck(c):
    import welleng.architecture as ar
    top, L = c["top"], c["L"]
    edges = [top]
    for x in L:
        edges.append(edges[-1] + x)
    bottom = edges[-1]
    o = getattr(ar, c["cls"])("s", top, bottom, method="top_down" if c["down"] else "bottom_up")
    base = dict(id=.3, coeff_friction_sliding=.2) if c["cls"] == "WellBore" else dict(od=.1, unit_weight=100)
    n = len(L)
    tags = []
    for j in range(n):
        i = j if c["down"] else n - 1 - j
        if c["over"] and j == c["stop"] - 1:
            kw = {"bottom": bottom + c["over"]} if c["down"] else {"top": top - c["over"]}
            import copy
            o2 = copy.deepcopy(o)
            try:
                o2.add_section(**base, tag="bad", **kw)
            except AssertionError:
                pass
            else:
                if c["down"] or kw["top"]:
                    return "a section outside the string was accepted: %s" % kw
        if c["down"]:
            kw = {"bottom": edges[j + 1]}
        elif j == n - 1:
            kw = {"rest": {}, "top": {"top": top}, "length": {"length": L[i] * 1.5}}[c["by"][i]]
        else:
            kw = {"length": L[i]} if c["by"][i] == "length" else {"top": edges[i]}
            t = edges[i]
            if kw.get("top", 1) == 0:
                kw = {"length": L[i]}
        o.add_section(**base, tag=i, **kw)
        tags = tags + [i] if c["down"] else [i] + tags
        w = inv(o, tags, j == n - 1)
        if w:
            return w
        for k, e in enumerate(edges[:j + 1] if c["down"] else edges[i:]):
            got = [x["top"] for x in o.sections.values()] + [o.sections[len(tags) - 1]["bottom"]]
            if abs(got[k] - e) > 1e-6 * (1 + abs(e)):
                return "boundary %d at %r, expected %r" % (k, got[k], e)
        for x in o.sections.values():
            if any(x.get(k) != v for k, v in base.items()):
                return "parameters %s" % x
    before = state(o)
    md = top + (bottom - top) * c["md"] if c["md"] < 1 else bottom
    if not top < md <= bottom:
        raise Skip()
    q = o.depth(md)
    if state(o) != before:
        return "the string was changed by depth()"
    want = [md]
    keep = []
    for i in range(n - 1, -1, -1):
        t = want[0] - (o.sections[i]["bottom"] - o.sections[i]["top"])
        keep.insert(0, i)
        if t <= top + 1e-9 or i == 0:
            want.insert(0, top)
            break
        want.insert(0, t)
    got = [x.get("tag") for x in q.sections.values()]
    if got != keep and got[-len(keep) + 1:] != keep[1:] or q.bottom != md or q.top != top:
        return "string at %r has sections %s, expected %s" % (md, got, keep)
    w = inv(q, got, True)
    if w:
        return "string at %r: %s" % (md, w)
    if len(got) == len(keep):
        for k in range(len(keep)):
            if abs(q.sections[k]["top"] - want[k]) > 1e-6:
                return "string at %r: section %d starts at %r, expected %r" % (md, k, q.sections[k]["top"], want[k])
            if any(q.sections[k].get(x) != v for x, v in base.items()):
                return "string at %r: parameters %s" % (md, q.sections[k])


DYN = [Dyn("sections", g, ck, n=(3000, 40000))]
