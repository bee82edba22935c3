"""P28 EDM files"""
from .common import *

FILES = ["welleng/exchange/edm.py"]
E_ = "welleng.exchange.edm."
META = dict(
    title="EDM queries return exactly the records asked for, each once",
    statement="get_attributes returns, under their tags, each record of the tags asked for (all tags unless told) that has all (AND) or any (OR) of the attribute values asked for, once and in file order. "
              "get_parents follows the parent wellbores up to the first, whatever was asked before. get_wellbore_data of a wellbore has each of its records, those of its well and datum, and the surveys of the wellbores it was drilled from, once each, again whatever was asked before. "
              "Names and ids of wellbores look each other up; the wells, sites and wellbores are listed by name; the pore pressures, fracture gradients and temperatures of a well are tables by group in order of depth.",
    over=["inputs", "histories"], quantifier="all EDM files and all sequences of queries",
    why="No test reads an EDM file; wrong or repeated records show only with several attributes, and only after an earlier query.",
    mechanism=[("records", "welleng/exchange/edm.py:EDM.get_attributes"), ("parents", "welleng/exchange/edm.py:EDM.get_parents"), ("wellbore", "welleng/exchange/edm.py:EDM.get_wellbore_data"), ("merging", "welleng/exchange/edm.py:EDM.add_attributes"), ("tables", "welleng/exchange/edm.py:Well._get_ppfpt_data")],
    observe_at="return values of the methods of EDM and Well")


def record(v, tag, **attrib):
    return v.obj("types.SimpleNamespace", tag=tag, attrib=attrib)


def s_attr(v, logic, lists):
    """three records with arbitrary attribute values: each is judged by itself"""
    a, b, b2 = v.int("a"), v.int("b"), v.int("b2")
    rec = [record(v, "X", p=v.int("p0"), q=v.int("q0")), record(v, "Y", p=v.int("p1"), q=v.int("q1")), record(v, "X", p=v.int("p2"))]
    o = v.obj(E_ + "EDM", root=rec)
    r = v.method(o, "get_attributes", "X" if not lists else ["X", "Y"], attributes={"p": a, "q": [b, b2] if lists else b}, logic=logic)
    want = {}
    for x in rec:
        if not lists and v.get(x, "tag") != "X":
            continue
        at = v.get(x, "attrib")
        one = v.branch(T.eq(at["p"], a))
        two = "q" in at and v.branch(T.lor(T.eq(at["q"], b), T.eq(at["q"], b2)) if lists else T.eq(at["q"], b))
        if (one and two) if logic == "AND" else (one or two):
            want.setdefault(v.get(x, "tag"), []).append(at)
    v.ensure("exactly the records asked for", T.TRUE if set(r) == set(want) and all(len(r[t]) == len(want[t]) and all(m is w for m, w in zip(r[t], want[t])) for t in want) else T.FALSE)


def s_all(v):
    rec = [record(v, "X", p=1), record(v, "Y", p=2), record(v, "X", p=3)]
    o = v.obj(E_ + "EDM", root=rec)
    r = v.method(o, "get_attributes")
    v.ensure("everything", T.TRUE if list(r) == ["X", "Y"] and [x["p"] for x in r["X"]] == [1, 3] and [x["p"] for x in r["Y"]] == [2] else T.FALSE)
    v.ensure("no other logic", T.TRUE if v.raises(v.I.getattr(o, "get_attributes"), "X", {"p": 1}, "XOR") else T.FALSE)


def s_parents(v):
    """three wellbores in any order of drilling"""
    i = [v.int("id%d" % k) for k in range(3)]
    v.assume(T.ne(i[0], i[1]), T.ne(i[1], i[2]), T.ne(i[0], i[2]))
    q = v.int("asked")
    rec = [record(v, "CD_WELLBORE", wellbore_id=i[0]), record(v, "CD_SITE", wellbore_id=i[1]), record(v, "CD_WELLBORE", wellbore_id=i[1], parent_wellbore_id=i[0]), record(v, "CD_WELLBORE", wellbore_id=i[2], parent_wellbore_id=i[1])]
    o = v.obj(E_ + "EDM", root=rec)
    for again in range(2):
        r = v.method(o, "get_parents", q)
        want = [i[1], i[0]] if v.branch(T.eq(q, i[2])) else [i[0]] if v.branch(T.eq(q, i[1])) else []
        v.ensure("parents, nearest first%s" % (" when asked again" if again else ""), T.land(T.TRUE if len(r) == len(want) else T.FALSE, *[T.eq(x, y) for x, y in zip(r, want)]))


SPECS = [Spec("records/%s/%s" % (g_, "lists" if l else "single"), lambda v, g_=g_, l=l: s_attr(v, g_, l), bounded="three records, two attributes, arbitrary values") for g_ in ("AND", "OR") for l in (False, True)]
SPECS += [Spec("all records", s_all, bounded="three records"), Spec("parents", s_parents, bounded="three wellbores, arbitrary ids")]


# ------------------------------------------------------------------ dynamic
def g(d):
    wells = d.choice([["w0", "w1"], ["w", "w1"], ["w12", "w1"]])[:d.int(1, 2)]
    ids = d.choice([["b%d" % i for i in range(6)], ["1", "12", "123", "2", "3", "23"], ["123", "12", "23", "3", "1", "2"]])
    bores = []
    for i in range(d.int(1, 6)):
        par = d.choice([None] + [x["id"] for x in bores]) if bores else None
        w = d.choice(wells) if par is None else next(x["well"] for x in bores if x["id"] == par)
        bores.append(dict(id=ids[i], name="bore %d" % i, parent=par, well=w))
    n = d.int(0, 4)
    pts = [[d.choice(["CD_PORE_PRESSURE", "CD_FRAC_GRADIENT", "CD_TEMP_GRADIENT"]), d.choice(["g1", "g2"]), d.real(0, 5000), d.real(1, 3), d.choice([x["id"] for x in bores])] for _ in range(d.int(0, 8))]
    surveys = [[x["id"], "h%s%d" % (x["id"], k), d.int(0, 3)] for x in bores for k in range(d.int(0, 2))]
    return dict(wells=wells, bores=bores, pts=pts, surveys=surveys, order=[d.int(0, 10 ** 6) for _ in range(60)], ask=[d.int(0, 5) for _ in range(d.int(1, 4))], q=[d.choice(["red", "blue", "reddish"]), d.choice(["1", "2", "12"])], logic=d.choice(["AND", "OR"]), lists=d.bool(),
                misc=[[d.choice(["X", "Y", "Z"]), d.choice([None, "red", "blue", "green", "reddish", "re", ""]), d.choice([None, "1", "2", "3", "12"])] for _ in range(d.int(0, 8))], tags=d.choice([None, "X", ["X", "Z"]]))


def records(c):
    R = []
    for i, w in enumerate(c["wells"]):
        R += [("CD_SITE", dict(site_name="site %s" % w, site_id="s" + w)), ("CD_WELL", dict(well_id=w, well_name="well " + w)), ("CD_WELL_ALL", dict(well_id=w, well_common_name="well " + w)), ("CD_DATUM", dict(well_id=w, datum_id="d" + w))]
    for x in c["bores"]:
        a = dict(wellbore_id=x["id"], wellbore_name=x["name"], well_id=x["well"])
        if x["parent"]:
            a["parent_wellbore_id"] = x["parent"]
        R += [("CD_WELLBORE", a), ("CD_CASE", dict(case_id="c" + x["id"], case_name="case " + x["id"], wellbore_id=x["id"]))]
    key = dict(CD_PORE_PRESSURE=("pore_pressure_group_id", "pore_pressure"), CD_FRAC_GRADIENT=("frac_gradient_group_id", "frac_gradient_pressure"), CD_TEMP_GRADIENT=("temp_gradient_group_id", "temperature"))
    for t, gr, tvd, val, b in c["pts"]:
        R.append((t, {key[t][0]: gr, "tvd": repr(tvd), key[t][1]: repr(val), "wellbore_id": b}))
    for b, h, n in c["surveys"]:
        R.append(("CD_SURVEY_HEADER", dict(survey_header_id=h, wellbore_id=b)))
        R += [("CD_SURVEY_STATION", dict(survey_header_id=h, wellbore_id=b, md=str(10 * k))) for k in range(n)]
    for t, col, num in c["misc"]:
        R.append((t, {k: v for k, v in (("colour", col), ("number", num)) if v is not None}))
    return [R[i] for i in sorted(range(len(R)), key=lambda i: c["order"][i % len(c["order"])] + i * 1e-3)]


def ck(c):
    import tempfile, os
    import xml.etree.ElementTree as ET
    from welleng.exchange.edm import EDM
    R = records(c)
    root = ET.Element("export")
    for t, a in R:
        ET.SubElement(root, t, a)
    with tempfile.TemporaryDirectory() as tmp:
        p = os.path.join(tmp, "x.xml")
        ET.ElementTree(root).write(p)
        o = EDM(p)
    by = lambda f: (lambda d: {t: [a for u, a in R if u == t and f(u, a)] for t in dict.fromkeys(u for u, a in R if f(u, a))})(None)
    if o.get_tags() != sorted({t for t, a in R}):
        return "tags %r" % o.get_tags()
    for x in c["bores"]:
        if o.wellbore_id_to_name[x["id"]] != x["name"] or o.wellbore_name_to_id[x["name"]] != x["id"] or o.well_id_to_wellbore_id[x["id"]] != x["well"]:
            return "look-up of %r" % x
    if {k: v["well_id"] for k, v in o.get_wells().items()} != {"well " + w: w for w in c["wells"]} or {k: v["site_id"] for k, v in o.get_sites().items()} != {"site " + w: "s" + w for w in c["wells"]} or {k: v["wellbore_id"] for k, v in o.get_wellbore_ids().items()} != {x["name"]: x["id"] for x in c["bores"]}:
        return "wells, sites or wellbores by name"
    # queries
    q = {"colour": [c["q"][0], "green"] if c["lists"] else c["q"][0], "number": c["q"][1]}
    ok = lambda a: [a.get("colour") in ((c["q"][0], "green") if c["lists"] else (c["q"][0],)), a.get("number") == c["q"][1]]
    tags = [c["tags"]] if isinstance(c["tags"], str) else c["tags"]
    want = by(lambda t, a: (tags is None or t in tags) and (all if c["logic"] == "AND" else any)(ok(a)))
    got = o.get_attributes(c["tags"], q, c["logic"])
    if {t: [dict(a) for a in x] for t, x in got.items()} != want:
        return "%s of %r in %r: %r, expected %r" % (c["logic"], q, c["tags"], got, want)
    if {t: [dict(a) for a in x] for t, x in o.get_attributes(c["tags"]).items()} != by(lambda t, a: tags is None or t in tags):
        return "records of %r" % (c["tags"],)
    if o.get_case_name_from_id("c" + c["bores"][0]["id"]) != "case " + c["bores"][0]["id"]:
        return "case name"
    # wellbores, one after the other
    for k in c["ask"]:
        x = c["bores"][k % len(c["bores"])]
        par, y = [], x
        while y["parent"]:
            y = next(z for z in c["bores"] if z["id"] == y["parent"])
            par.append(y["id"])
        if list(o.get_parents(x["id"])) != par:
            return "parents of %s: %r, expected %r" % (x["id"], o.get_parents(x["id"]), par)
        w = o.get_wellbore(x["name"], name=True)
        if (w.wellbore_id, w.wellbore_name) != (x["id"], x["name"]):
            return "wellbore %r" % (w.wellbore_name,)
        want = by(lambda t, a: a.get("wellbore_id") == x["id"] or (t in ("CD_WELL", "CD_DATUM") and a.get("well_id") == x["well"]) or (t in ("CD_SURVEY_HEADER", "CD_SURVEY_STATION") and a.get("wellbore_id") in par))
        key = lambda a: sorted(a.items())
        got = {t: sorted([dict(a) for a in r], key=key) for t, r in w.well_data.items()}
        want = {t: sorted(r, key=key) for t, r in want.items()}
        if got != want:
            t = next(t for t in set(got) | set(want) if got.get(t) != want.get(t))
            return "records %s of %s: %r, expected %r" % (t, x["id"], got.get(t), want.get(t))
        tab = w.get_ppfpt_data()
        for nm, t in (("pore_pressure", "CD_PORE_PRESSURE"), ("fracture_pressure", "CD_FRAC_GRADIENT"), ("temperature", "CD_TEMP_GRADIENT")):
            rows = [r for r in c["pts"] if r[0] == t and r[4] == x["id"]]
            if not rows:
                if tab[nm] is not None:
                    return "%s out of nowhere" % nm
                continue
            if set(tab[nm]) != {r[1] for r in rows}:
                return "groups of %s: %r" % (nm, list(tab[nm]))
            for gr, a in tab[nm].items():
                m = sorted([[r[2], r[3]] for r in rows if r[1] == gr])
                if np.shape(a) != (len(m), 2) or sorted(map(list, a)) != m or np.any(np.diff(a[:, 0]) < 0):
                    return "%s of group %s: %r, expected %r" % (nm, gr, a, m)
    return None


DYN = [Dyn("edm files", g, ck, n=(400, 8000))]
