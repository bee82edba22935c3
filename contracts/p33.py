"""P33 example workbooks"""
from .common import *
from pyvc.interp import Model
from pyvc.arrays import as_arr
from fractions import Fraction

FILES = ["welleng/errors/iscwsa_ingest.py", "welleng/errors/iscwsa_validate.py"]
G_ = "welleng.errors.iscwsa_ingest."
META = dict(
    title="ISCWSA example workbooks are read as written and compared faithfully",
    statement="load_iscwsa_example returns from a workbook of the ISCWSA layout every error term of the Model sheet in order, each column in its own field; the reference values, units and stations of the Wellpath sheet; the NEV and HLA covariances of TOTALS under their column labels wherever the columns stand; "
              "the diagnostic and the calculated covariance of each Validation row; for each sheet named after an error term, and no other, its blocks by header, to no more stations than the wellpath has; and the highest revision the Readme lists. "
              "A term's SI magnitude is in radians if its unit is in degrees, and to_legacy_codes_dict gives each term its function, SI magnitude and unit and propagation by name. "
              "validate_workbook runs the named error model on that wellpath, in metres and from true north, and compares its covariance with the workbook's at every Validation row whose source and depth it has and at every station of TOTALS: the largest difference, the largest ratio to a value other than zero, and whether either is within its tolerance.",
    over=["inputs"], quantifier="all workbooks of that layout",
    why="Tests need the vendor's workbooks, which the repository does not carry, and skip without them.",
    mechanism=[("terms", "welleng/errors/iscwsa_ingest.py:parse_model_sheet"), ("wellpath", "welleng/errors/iscwsa_ingest.py:parse_wellpath_sheet"), ("totals", "welleng/errors/iscwsa_ingest.py:parse_totals_sheet"),
               ("validation", "welleng/errors/iscwsa_ingest.py:parse_validation_sheet"), ("source", "welleng/errors/iscwsa_ingest.py:parse_error_source_sheet"), ("workbook", "welleng/errors/iscwsa_ingest.py:load_iscwsa_example"),
               ("comparison", "welleng/errors/iscwsa_validate.py:validate_workbook")],
    observe_at="load_iscwsa_example(), to_legacy_codes_dict(), validate_workbook()")

NEV = ("NN", "EE", "VV", "NE", "NV", "EV")
HLA = ("HH", "LL", "AA", "HL", "HA", "LA")
FIELDS = ["no", "code", "description", "wt_fn", "wt_fn_source", "type", "magnitude", "unit", "propagation", "p1", "p2", "p3", "wt_fn_comment", "depth_formula", "inc_formula", "az_formula",
          "sing_n_formula", "sing_e_formula", "sing_v_formula", "convert_deg_to_rad"]
HEAD = ["OWSG Prefix", "Short Name", "Long Name", "Revision No", "Revision Date", "Revision Comment", "Source", "Application", "Tool Type", "Status", "Checked", "Approved", "Notes"]
attr = lambda k: k.lower().replace(" ", "_")


def sheet(v, rows):
    """a worksheet: rows of values, of equal length as openpyxl gives them"""
    w = max(len(r) for r in rows)
    rows = [tuple(r) + (None,) * (w - len(r)) for r in rows]

    def it(I, *a, **k):
        k = dict(zip(("min_row", "max_row", "min_col", "max_col", "values_only"), a), **k)
        x = rows[(k.get("min_row") or 1) - 1:k.get("max_row")]
        return iter([r[(k.get("min_col") or 1) - 1:k.get("max_col")] for r in x])
    return v.obj("types.SimpleNamespace", iter_rows=Model(it))


def ok(b):
    return T.TRUE if b else T.FALSE


def s_terms(v, wide):
    pre = [None, None, None]
    tail = [[v.real("p%d%d" % (i, j)) for j in range(3)] + ["text %d %d" % (i, j) for j in range(7)] + [True] for i in range(2)] if wide else [[], []]
    m = [v.real("mag%d" % i) for i in range(3)]
    rows = [["Short Name:", "MWD", None, "No", "Code", "Term"] + [None] * 6,
            ["[Extra one]", "x", None, 1, " DRFR ", "depth", "DREF", "src", "d", m[0], "m", " R "] + tail[0],
            pre + [None, "heading"] + [None] * 7,
            ["OWSG Prefix", "A1", None, 2, "ABXY-TI1", None, "F-2", None, "s", m[1], "deg", "S"] + tail[1],
            pre + [3, None, "nothing", "F", "s", "s", m[2], "m", "G"]]
    h, t = v.call(G_ + "parse_model_sheet", sheet(v, rows))
    v.ensure("header", ok(v.get(h, "short_name") == "MWD" and v.get(h, "owsg_prefix") == "A1" and v.get(h, "extras") == {"Extra one": "x"} and v.get(h, "source") is None))
    v.ensure("a term per numbered row with a code", ok(len(t) == 2))
    if len(t) != 2:
        return
    want = [[1, "DRFR", "depth", "DREF", "src", "d", m[0], "m", "R"], [2, "ABXY-TI1", "", "F-2", "", "s", m[1], "deg", "S"]]
    for i, w in enumerate(want):
        w = w + (tail[i] if wide else [None] * 10 + [False])
        for k, x in zip(FIELDS, w):
            g = v.get(t[i], k)
            v.ensure("term %d %s" % (i, k), T.eq(g, x) if T.is_term(x) else ok(g == x and type(g) == type(x)))


def s_wellpath(v, feet):
    k = {n: v.real(n) for n in ("lat", "g", "b", "dip", "dec", "f")}
    st = [[v.real("%s%d" % (c, i)) for c in ("md", "inc", "azi", "tvd", "tf")] for i in range(3)]
    left = [["Well", "W 1"], ["Latitude (deg)", k["lat"]], ["G (m/s2)", k["g"]], ["BTotal (nT)", k["b"]], ["Dip (deg)", k["dip"]], [" Declination (deg)", k["dec"]], ["Azi ref", "true"]]
    if feet:
        left += [["Depth Units", " FT "], ["Feet to metres", k["f"]]]
    right = [["MD", "INC"], ["MD", "INC"], st[0], ["end", None], st[1], [None, 4.0, 5.0, 6.0, 7.0], st[2]]
    n = max(len(left), len(right))
    rows = [(left[i] if i < len(left) else [None, None]) + [None, None] + (right[i] if i < len(right) else []) for i in range(n)]
    w = v.call(G_ + "parse_wellpath_sheet", sheet(v, rows))
    for a, b in (("latitude_deg", "lat"), ("g", "g"), ("btotal", "b"), ("dip_deg", "dip"), ("declination_deg", "dec")):
        v.ensure(a, T.eq(v.get(w, a), k[b]))
    v.ensure("well and units", ok(v.get(w, "well_name") == "W 1" and v.get(w, "depth_units") == ("ft" if feet else "m")))
    v.ensure("the feet are as long as the sheet says", T.eq(v.get(w, "ft_to_m"), k["f"] if feet else T.const(0.3048)))
    s = as_arr(v.get(w, "stations"))
    v.ensure("stations", T.land(*[T.eq(s.at((i, j)), st[i][j]) for i in range(3) for j in range(5)]) if tuple(s.shape) == (3, 5) else T.FALSE)


ORDERS = dict(standard=("Md",) + NEV + HLA, moved=(None, "Md") + tuple(reversed(HLA)) + ("x",) + NEV[3:] + NEV[:3])


def s_totals(v, order):
    cols = ORDERS[order]
    rows = [[v.real("c%d_%d" % (i, j)) for j in range(len(cols))] for i in range(2)]
    r = v.call(G_ + "parse_totals_sheet", sheet(v, [["TOTALS"], cols, rows[0], ["x"] + rows[1][1:], rows[1]]))
    md = as_arr(v.get(r, "md"))
    v.ensure("depths", T.land(*[T.eq(md.at((i,)), rows[i][cols.index("Md")]) for i in range(2)]) if tuple(md.shape) == (2,) else T.FALSE)
    for a, names in (("nev", NEV), ("hla", HLA)):
        m = as_arr(v.get(r, a))
        v.ensure("shape of %s" % a, ok(tuple(m.shape) == (2, 6)))
        for j, n in enumerate(names):
            v.ensure("%s of every station" % n, T.land(*[T.eq(m.at((i, j)), rows[i][cols.index(n)]) for i in range(2)]))


def s_validation(v, moved):
    cols = ("Source", None, "MD") + NEV + (None,) + NEV if moved else ("MD", "Source") + NEV + NEV
    pos = [j for j, c in enumerate(cols) if c in NEV]
    rows = [[v.real("c%d_%d" % (i, j)) for j in range(len(cols))] for i in range(4)]
    s, m = cols.index("Source"), cols.index("MD")
    for i in range(4):
        rows[i][s] = "S%d" % i
    rows[1][s] = None
    rows[2][m] = None
    rows[3][pos[1]] = rows[3][pos[8]] = None
    r = v.call(G_ + "parse_validation_sheet", sheet(v, [["head"], cols] + rows))
    v.ensure("a row per depth and source", ok(len(r) == 2))
    for x, w in zip(r, (rows[0], rows[3])):
        v.ensure("depth and source", T.land(T.eq(v.get(x, "md"), w[m]), ok(v.get(x, "source") == w[s])))
        for a, js in (("diagnostic", pos[:6]), ("calculated", pos[6:])):
            q = as_arr(v.get(x, a))
            v.ensure(a, T.land(*[T.eq(q.at((k,)), w[j]) for k, j in enumerate(js) if w[j] is not None]) if tuple(q.shape) == (6,) else T.FALSE)


def s_source(v):
    top = ["Md", "dpde", None, "Covariance", None, None, "Covariance", None]
    sub = ["Md", "D", "I", "NN", None, "EE", "NN", "VV"]
    rows = [[v.real("c%d_%d" % (i, j)) for j in range(8)] for i in range(2)]
    v.contract(G_ + "_merged_header_spans", lambda I, ws, header_row: {3: ("Covariance", 3), 0: ("Md", 1), 6: ("Covariance", 2), 1: ("dpde", 2)})
    r = v.call(G_ + "parse_error_source_sheet", sheet(v, [top, sub, rows[0], ["-"] + rows[0][1:], rows[1]]), "DRFR")
    b = v.get(r, "blocks")
    v.ensure("code", ok(v.get(r, "code") == "DRFR"))
    md = as_arr(v.get(r, "md"))
    v.ensure("depths", T.land(*[T.eq(md.at((i,)), rows[i][0]) for i in range(2)]) if tuple(md.shape) == (2,) else T.FALSE)
    want = {"dpde": {"D": 1, "I": 2}, "Covariance": {"NN": 3, "EE": 5}, "Covariance_2": {"NN": 6, "VV": 7}}
    v.ensure("blocks and columns", ok({k: set(x) for k, x in b.items()} == {k: set(x) for k, x in want.items()}))
    for k, x in want.items():
        for c, j in x.items():
            a = as_arr(b[k][c])
            v.ensure("%s %s" % (k, c), T.land(*[T.eq(a.at((i,)), rows[i][j]) for i in range(2)]) if tuple(a.shape) == (2,) else T.FALSE)


def s_spans(v):
    vals = ["Md", None, "dpde", None, None, "e", None, "last"]
    ns = lambda **k: v.obj("types.SimpleNamespace", **k)
    class Ws(dict):
        pass
    ws = Ws()
    ws[1] = tuple(ns(column=i + 1, value=x) for i, x in enumerate(vals))
    ws.merged_cells = ns(ranges=[ns(min_row=1, max_row=1, min_col=3, max_col=5), ns(min_row=2, max_row=2, min_col=6, max_col=8), ns(min_row=1, max_row=2, min_col=6, max_col=7), ns(min_row=1, max_row=1, min_col=2, max_col=2)])
    ws.cell = Model(lambda I, row, column: ns(value=vals[column - 1]))
    r = v.call(G_ + "_merged_header_spans", ws, 1)
    v.ensure("labels, where they start and how far they reach", ok({k: tuple(x) for k, x in r.items()} == {0: ("Md", 1), 2: ("dpde", 3), 5: ("e", 1), 7: ("last", 1)}))


def term(v, **k):
    d = dict(no=1, code="A", description="", wt_fn="F", wt_fn_source="", type="s", magnitude=v.real("mag"), unit="m", propagation="R")
    d.update(k)
    return v.obj(G_ + "ErrorTerm", **d)


def s_si(v, unit):
    m = v.real("m")
    t = term(v, magnitude=m, unit=unit)
    deg = "deg" in unit
    v.ensure("magnitude", T.eq(v.get(t, "magnitude_si"), T.div(T.mul(m, T.PI), T.const(180)) if deg else m))
    v.ensure("unit", ok(v.get(t, "unit_si") == unit.replace("deg", "rad")))


PROP = dict(R="random", S="systematic", G="global", W="within_pad")


def s_propagation(v):
    for k, x in PROP.items():
        v.ensure(k, ok(v.get(term(v, propagation=k), "propagation_name") == x))
    v.ensure("as written otherwise", ok(v.get(term(v, propagation="Z"), "propagation_name") == "Z"))


def s_legacy(v):
    m = [v.real("m%d" % i) for i in range(3)]
    ts = [term(v, code="DRFR", wt_fn="D-R", magnitude=m[0], unit="m", propagation="R"), term(v, code="XCLL", wt_fn="X", magnitude=m[1], unit="deg/m", propagation="W"), term(v, code="ABZ", wt_fn="A", magnitude=m[2], unit="-", propagation="G")]
    h = v.obj(G_ + "ModelHeader", **dict({attr(k): None for k in HEAD}, short_name="MWD", approved="yes", revision_no=2, extras={}))
    r = v.call(G_ + "to_legacy_codes_dict", v.obj(G_ + "ISCWSAExample", header=h, terms=ts))
    v.ensure("header", ok(r["header"] == {"Short Name": "MWD", "Approved": "yes", "Revision No": 2}))
    c = r["codes"]
    v.ensure("codes", ok(set(c) == {"DRFR", "XCLA", "ABZ"}))
    for k, f, u, p, x in (("DRFR", "D_R", "m", "random", m[0]), ("XCLA", "X", "rad/m", "within_pad", T.div(T.mul(m[1], T.PI), T.const(180))), ("ABZ", "A", "-", "global", m[2])):
        v.ensure(k, T.land(ok(set(c[k]) == {"function", "magnitude", "unit", "propagation"} and (c[k]["function"], c[k]["unit"], c[k]["propagation"]) == (f, u, p)), T.eq(c[k]["magnitude"], x)))


def s_revision(v):
    for lines, want in ((["Revision 5.9", None, "Revision: 9.9", " Revision 5.11 ", "Revision 5.10", "Revision 4.30"], "Revision 5.11"), (["Read me", None], None), (["Revision 10.0", "Revision 9.9"], "Revision 10.0")):
        v.ensure("the highest of %r" % (lines,), ok(v.call(G_ + "_latest_readme_revision", sheet(v, [[x, "b"] for x in lines])) == want))


class Book(dict):
    @property
    def sheetnames(self):
        return list(self)


def s_book(v, n, m):
    """a workbook whose wellpath has n stations and whose source sheets m"""
    names = ["Readme", "Model", "DRFR", "Wellpath", "Other", "TOTALS", "Validation", "drdp", "ABZ"]
    bk = Book((k, "sheet " + k) for k in names)
    loads = []

    def load(I, *a, **k):
        loads.append((k.get("filename", a[0] if a else None), k.get("data_only")))
        return bk
    v.external("openpyxl.load_workbook", load)
    v.external(G_ + "load_workbook", load)
    terms = [term(v, code=c) for c in ("DRFR", "ABZ", "SAG", "drdp")]
    got = {}
    part = {k: "the " + k for k in ("header", "totals", "validation", "revision")}
    wp = v.obj(G_ + "Wellpath", stations=v.table([n, 5], lambda i, j: v.real("w")))
    for f, s, r in (("_latest_readme_revision", "Readme", part["revision"]), ("parse_model_sheet", "Model", (part["header"], terms)), ("parse_wellpath_sheet", "Wellpath", wp), ("parse_totals_sheet", "TOTALS", part["totals"]),
                    ("parse_validation_sheet", "Validation", part["validation"])):
        def g_(I, ws, f=f, s=s, r=r):
            got[f] = ws == "sheet " + s
            return r
        v.contract(G_ + f, g_)
    vals = {}

    def src(I, ws, code):
        assert ws == "sheet " + code
        x = vals[code] = [[v.ctx.fresh("x") for _ in range(m)] for _ in range(2)]
        return v.obj(G_ + "ErrorSourceTab", code=code, md=as_arr(x[0]), blocks={"b": {"c": as_arr(x[1])}})
    v.contract(G_ + "parse_error_source_sheet", src)
    r = v.call(G_ + "load_iscwsa_example", "file.xlsx")
    v.ensure("the file's values", ok([(str(a), b) for a, b in loads] == [("file.xlsx", True)]))
    v.ensure("each part from its sheet", ok(len(got) == 5 and all(got.values()) and all(v.get(r, k) == x for k, x in part.items()) and v.get(r, "wellpath") is wp and all(a is b for a, b in zip(v.get(r, "terms"), terms)) and len(v.get(r, "terms")) == len(terms)))
    s = v.get(r, "sources")
    v.ensure("the sheets named after terms", ok(set(s) == {"DRFR", "ABZ"}))
    k = min(n, m) if n else m
    for c in s:
        for a, x in ((v.get(s[c], "md"), vals[c][0]), (v.get(s[c], "blocks")["b"]["c"], vals[c][1])):
            a = as_arr(a)
            v.ensure("%s to the wellpath's stations" % c, T.land(*[T.eq(a.at((i,)), x[i]) for i in range(k)]) if tuple(a.shape) == (k,) else T.FALSE)


V_ = "welleng.errors.iscwsa_validate."
PACK = ((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2))


def arr3(v, name):
    """covariances of two stations"""
    x = [[[v.real("%s%d%d%d" % (name, k, min(i, j), max(i, j))) for j in range(3)] for i in range(3)] for k in range(2)]
    return x, as_arr(x)


def s_validate(v, feet):
    """the harness that compares a workbook's covariances with those of an error model"""
    f = Fraction("0.3048") if feet else Fraction(1)
    src = {c: arr3(v, c[0]) for c in ("DRFR", "ABZ")}
    tot = arr3(v, "t")
    row = lambda n: [v.real("%s%d" % (n, k)) for k in range(6)]
    rows = [("ABZ", 250), ("SAG", 250), ("DRFR", 100), ("DRFR", 170)]
    cal = [row("c%d" % i) for i in range(len(rows))]
    dia = [row("g%d" % i) for i in range(len(rows))]
    val = [v.obj(G_ + "ValidationRow", md=T.const(m), source=c, calculated=as_arr(cal[i]), diagnostic=as_arr(dia[i])) for i, (c, m) in enumerate(rows)]
    nev = [row("w%d" % i) for i in range(2)]
    wp = v.obj(G_ + "Wellpath", well_name="W", depth_units="ft" if feet else "m", ft_to_m=T.const(Fraction("0.3048")))
    ex = v.obj(G_ + "ISCWSAExample", terms=[term(v, code=c) for c in ("SAG", "DRFR", "ABZ", "MSZ")], wellpath=wp, validation=val, totals=v.obj(G_ + "CovarianceStations", md=as_arr([T.const(100), T.const(250)]), nev=as_arr(nev)))
    ns = lambda **k: v.obj("types.SimpleNamespace", **k)
    err = ns(errors={c: ns(cov_NEV=x[1]) for c, x in src.items()}, cov_NEVs=tot[1])
    sv = ns(md=as_arr([T.const(100 * f), T.const(250 * f)]), err=ns(errors=err))
    asked = []

    def build(I, example, error_model):
        asked.append((example is ex, error_model))
        return sv
    v.contract(V_ + "_build_survey", build)
    v.contract(G_ + "load_iscwsa_example", lambda I, path: ex)
    rel = {}

    def relative(I, expected, actual):
        x = v.ctx.fresh("rel")
        rel[x] = (as_arr(expected), as_arr(actual))
        return x
    v.contract(V_ + "_relative_error", relative)
    tr, ta = v.real("tr"), v.real("ta")
    r = v.call(V_ + "validate_workbook", "file.xlsx", "the model", tolerance_rel=tr, tolerance_abs=ta)
    v.ensure("the model asked for", ok(asked == [(True, "the model")] and v.get(r, "error_model") == "the model"))
    v.ensure("terms without a counterpart", ok(sorted(v.get(r, "missing_in_welleng")) == ["MSZ", "SAG"]))
    v.ensure("tolerances", T.land(T.eq(v.get(r, "tolerance_rel"), tr), T.eq(v.get(r, "tolerance_abs"), ta)))

    def compared(name, x, w, we):
        """worst difference, worst ratio and verdict of a row w against the covariance we"""
        got = as_arr(v.get(x, "welleng"))
        v.ensure("%s: components" % name, T.land(*[T.eq(got.at((k,)), we[i][j]) for k, (i, j) in enumerate(PACK)]) if tuple(got.shape) == (6,) else T.FALSE)
        d = [T.sub(we[i][j], w[k]) for k, (i, j) in enumerate(PACK)]
        a, q = v.get(x, "max_abs_err"), v.get(x, "max_rel_err")
        v.ensure("%s: no difference is larger" % name, T.land(*[T.land(T.le(e, a), T.le(T.neg(e), a)) for e in d]))
        v.ensure("%s: one is as large" % name, T.lor(*[T.lor(T.eq(e, a), T.eq(T.neg(e), a)) for e in d]))
        v.ensure("%s: ratio of the same" % name, T.land(*[T.land(T.eq(rel[q][0].at((k,)), w[k]), T.eq(rel[q][1].at((k,)), we[i][j])) for k, (i, j) in enumerate(PACK)]) if q in rel else T.FALSE)
        b = T.lor(T.le(a, ta), T.le(q, tr))
        g = v.get(x, "ok")
        v.ensure("%s: verdict" % name, T.land(T.implies(T.tobool(g), b), T.implies(b, T.tobool(g))))

    ps = v.get(r, "per_source")
    v.ensure("a comparison per row of a term and depth of both", ok([(v.get(x, "code")) for x in ps] == ["ABZ", "DRFR"]))
    if len(ps) == 2:
        for x, i, c, k in ((ps[0], 0, "ABZ", 1), (ps[1], 2, "DRFR", 0)):
            v.ensure("%s: depth" % c, T.eq(v.get(x, "md"), T.const(rows[i][1])))
            compared(c, x, cal[i], src[c][0][k])
            for a, w in (("calculated", cal[i]), ("diagnostic", dia[i])):
                g = as_arr(v.get(x, a))
                v.ensure("%s: %s" % (c, a), T.land(*[T.eq(g.at((k,)), w[k]) for k in range(6)]))
    ts = v.get(r, "totals")
    v.ensure("a comparison per station", ok(len(ts) == 2))
    for i, x in enumerate(ts[:2]):
        v.ensure("total %d: depth" % i, T.eq(v.get(x, "md"), T.const((100, 250)[i] * f)))
        compared("total %d" % i, x, nev[i], tot[0][i])


def s_relative(v, zero):
    e = [T.const(0) if z else v.real("e%d" % i) for i, z in enumerate(zero)]
    a = [v.real("a%d" % i) for i in range(len(zero))]
    for x, z in zip(e, zero):
        if not z:
            v.assume(T.lnot(T.eq(x, T.const(0))))
    r = v.call(V_ + "_relative_error", as_arr(e), as_arr(a))
    k = [i for i, z in enumerate(zero) if not z]
    if not k:
        v.ensure("nothing to compare with", T.eq(r, T.const(0)))
        return
    q = [T.div(T.sub(a[i], e[i]), e[i]) for i in k]
    v.ensure("no ratio is larger", T.land(*[T.land(T.le(x, r), T.le(T.neg(x), r)) for x in q]))
    v.ensure("one is as large", T.lor(*[T.lor(T.eq(x, r), T.eq(T.neg(x), r)) for x in q]))


def s_pass(v):
    rows = [("A", True), ("B", True), ("A", False), ("C", False), ("B", True), ("C", True)]
    rep = v.obj(V_ + "ValidationReport", per_source=[v.obj(V_ + "SourceCompare", code=c, ok=b) for c, b in rows])
    v.ensure("a source passes if every row does", ok(v.method(rep, "source_pass_fail") == dict(A=False, B=True, C=False)))


def s_build(v, units):
    n = 3
    k = {a: v.real(a) for a in ("latitude_deg", "g", "btotal", "dip_deg", "declination_deg")}
    st = [[v.real("s%d%d" % (i, j)) for j in range(5)] for i in range(n)]
    f = v.real("f", gt=0)
    wp = v.obj(G_ + "Wellpath", well_name="W", depth_units=units, ft_to_m=f, stations=as_arr(st), **k)
    got = []
    v.external("welleng.survey.SurveyHeader", lambda I, *a, **q: got.append(q) or ("header", len(got)))
    v.external("welleng.survey.Survey", lambda I, *a, **q: got.append(dict(q, args=a)) or "survey")
    r = v.call(V_ + "_build_survey", v.obj(G_ + "ISCWSAExample", wellpath=wp), "the model")
    v.ensure("survey", ok(r == "survey" and len(got) == 2 and not got[1]["args"] and got[1]["header"] == ("header", 1) and got[1]["error_model"] == "the model"))
    h = got[0]
    v.ensure("header", T.land(*[T.eq(h[a], k[b]) for a, b in (("latitude", "latitude_deg"), ("G", "g"), ("b_total", "btotal"), ("dip", "dip_deg"), ("declination", "declination_deg"))], T.eq(h["convergence"], T.const(0))))
    v.ensure("true north, degrees", ok(h["azi_reference"] == "true" and h.get("deg", True) is True and got[1].get("deg", True) is True))
    for c, a in enumerate(("md", "inc", "azi")):
        x = as_arr(got[1][a])
        v.ensure(a, T.land(*[T.eq(x.at((i,)), T.mul(st[i][c], f) if a == "md" and units.startswith("ft") else st[i][c]) for i in range(n)]) if tuple(x.shape) == (n,) else T.FALSE)


SPECS = [Spec("terms/%s" % ("wide" if w else "narrow"), lambda v, w=w: s_terms(v, w), bounded="two terms") for w in (0, 1)]
SPECS += [Spec("wellpath/%s" % ("feet" if w else "metres"), lambda v, w=w: s_wellpath(v, w), bounded="three stations") for w in (0, 1)]
SPECS += [Spec("totals/%s" % k, lambda v, k=k: s_totals(v, k), bounded="two stations") for k in ORDERS]
SPECS += [Spec("validation/%s" % ("moved" if k else "standard"), lambda v, k=k: s_validation(v, k), bounded="four rows") for k in (0, 1)]
SPECS += [Spec("source", s_source, bounded="two stations"), Spec("header spans", s_spans, bounded="one header row")]
SPECS += [Spec("si/%s" % u, lambda v, u=u: s_si(v, u)) for u in ("deg", "m", "deg/m", "nT")]
SPECS += [Spec("propagation", s_propagation), Spec("legacy", s_legacy, bounded="three terms"), Spec("revision", s_revision, bounded="three lists")]
SPECS += [Spec("workbook/%d-%d" % k, lambda v, k=k: s_book(v, *k), bounded="one list of sheets") for k in ((2, 3), (2, 2), (3, 1), (0, 2))]

SPECS += [Spec("compare/%s" % ("feet" if k else "metres"), lambda v, k=k: s_validate(v, k), bounded="two stations, four rows") for k in (0, 1)]
SPECS += [Spec("ratio/%s" % "".join("x0"[z] for z in k), lambda v, k=k: s_relative(v, k), bounded="%d components" % len(k)) for k in ((0, 0, 0), (1, 0, 0), (1, 1))]
SPECS += [Spec("pass", s_pass, bounded="six rows")]
SPECS += [Spec("survey/%s" % k, lambda v, k=k: s_build(v, k), bounded="three stations") for k in ("m", "ft")]


# ------------------------------------------------------------------ dynamic
CODES = ["DRFR", "DSFS", "ABXY-TI1", "ABZ", "MSZ", "XCLA", "XCLL", "SAG", "AZ"]
BLOCKS = ["dpde", "e", "estar", "Sigma e", "Covariance", "Covariance"]


def g(d):
    num = lambda: d.choice([0, 0.0, d.int(-20, 5000), round(d.real(-5000, 5000), d.int(0, 6))])
    txt = lambda: d.choice([None, "x", "A-B", "text two"])
    c = dict(header={k: d.choice(["t", 3, "some text"]) for k in HEAD if d.bool(.6)}, extra={k: "v" for k in ("Other", "Remark") if d.bool(.3)}, wide=d.bool(), decor=d.choice(["%s", "%s:", "[%s]"]))
    codes = [x for x in CODES if d.bool(.5)] or ["DRFR"]
    if d.bool():
        codes = codes[::-1]
    c["terms"] = []
    for i, k in enumerate(codes):
        t = [i + 1, k, txt(), d.choice(["F", "AB-X", "DREF", "F-2", None]), txt(), d.choice(["d", "s", None]), num(), d.choice(["m", "deg", "deg/m", "-", "nT", None, "degnT"]), d.choice("RSGW")]
        if c["wide"]:
            t += [d.choice([None, num()]) for _ in range(3)] + [txt() for _ in range(7)] + [d.choice([None, True, False])]
        c["terms"].append(t)
    c["width"] = d.int(12, 23) if c["wide"] else 12
    c["terms"] = [t[:c["width"] - 3] for t in c["terms"]]
    c["gaps"] = [d.bool(.2) for _ in codes]
    n = c["n"] = d.int(1, 5)
    c["refs"] = {k: num() for k in ("Latitude (deg)", "G (m/s2)", "BTotal (nT)", "Dip (deg)", "Declination (deg)") if d.bool(.85)}
    c["refs"] = {k: x for k, x in c["refs"].items()}
    c["well"] = d.choice(["W", "ISCWSA 1", None])
    c["units"] = d.choice([None, "m", "ft", "FT"])
    c["feet"] = d.choice([None, .3048, .3048006])
    c["stations"] = [[num() for _ in range(4)] + [d.choice([None, num()])] for _ in range(n)]
    c["hole"] = d.int(0, n) if d.bool(.3) else None
    lab = ["Md"] + list(NEV) + list(HLA)
    k = d.int(0, 2)
    lab = lab if k == 0 else lab[:1] + lab[7:] + lab[1:7] if k == 1 else lab[:1] + lab[1:][::-1]
    c["labels"] = lab
    c["totals"] = [[num() for _ in lab] for _ in range(n)]
    c["validation"] = [[num(), d.choice(codes + ["TOTALS", None])] + [d.choice([None, num(), num(), num()]) for _ in range(12)] for _ in range(d.int(0, 4))] if d.bool(.8) else None
    c["vmoved"] = d.bool(.3)
    c["sources"] = {}
    for k in codes + ["Notes", "CovChart"]:
        if d.bool(.6):
            bl = [(b, d.int(1, 3)) for b in BLOCKS if d.bool(.6)]
            w = 1 + sum(x for _, x in bl)
            c["sources"][k] = dict(blocks=bl, rows=[[num() for _ in range(w)] for _ in range(d.int(1, n + 2))])
    c["rev"] = d.choice([None, [], ["Revision %d.%d" % (d.int(1, 12), d.int(0, 12)) for _ in range(d.int(1, 5))]])
    return c


def ck(c):
    import tempfile, os, shutil
    t = tempfile.mkdtemp()
    try:
        return run(c, os.path.join(t, "w.xlsx"))
    finally:
        shutil.rmtree(t)


def run(c, f):
    import numpy as np
    from openpyxl import Workbook
    from welleng.errors.iscwsa_ingest import load_iscwsa_example, to_legacy_codes_dict
    wb = Workbook()
    wb.remove(wb.active)

    def put(s, i, j, xs):
        for k, x in enumerate(xs):
            if x is not None:
                s.cell(i, j + k, x)
    if c["rev"] is not None:
        s = wb.create_sheet("Readme")
        put(s, 1, 1, ["Read me first"])
        put(s, 2, 1, ["Revision: 99.1"])
        for i, x in enumerate(c["rev"]):
            put(s, 3 + i, 1, [x, "Revision 99.9"])
    s = wb.create_sheet("Model")
    for i, (k, x) in enumerate(list(c["header"].items()) + list(c["extra"].items())):
        put(s, 1 + i, 1, [c["decor"] % k, x])
    put(s, 1, 4, ["No", "Code"])
    s.cell(1, c["width"], "last")
    i = 2
    for t, gap in zip(c["terms"], c["gaps"]):
        if gap:
            put(s, i, 4, [None, "Section"])
            i += 1
        put(s, i, 4, t)
        i += 1
    s = wb.create_sheet("Wellpath")
    rows = [["Well", c["well"]]] + [[k, x] for k, x in c["refs"].items()]
    if c["units"]:
        rows.append(["Depth Units", c["units"]])
    if c["feet"]:
        rows.append(["Feet to metres", c["feet"]])
    for i, r in enumerate(rows):
        put(s, 1 + i, 1, r)
    put(s, 2, 5, ["MD", "Inc", "Azi", "TVD", "TF"])
    i = 3
    for k, r in enumerate(c["stations"]):
        if k == c["hole"]:
            put(s, i, 5, ["note", 1.0])
            i += 1
        put(s, i, 5, r)
        i += 1
    s = wb.create_sheet("TOTALS")
    put(s, 1, 2, ["NEV"])
    put(s, 2, 1, c["labels"])
    for i, r in enumerate(c["totals"]):
        put(s, 3 + i, 1, r)
    if c["validation"] is not None:
        s = wb.create_sheet("Validation")
        put(s, 1, 1, ["Validation"])
        p = (2, 1, 5, 12) if c["vmoved"] else (1, 2, 3, 9)
        for i, r in enumerate([["MD", "Source"] + list(NEV) * 2] + c["validation"]):
            put(s, 2 + i, p[0], r[:1])
            put(s, 2 + i, p[1], r[1:2])
            put(s, 2 + i, p[2], r[2:8])
            put(s, 2 + i, p[3], r[8:])
    for k, x in c["sources"].items():
        s = wb.create_sheet(k)
        put(s, 1, 1, ["Md"])
        put(s, 2, 1, ["Md"])
        j = 2
        for b, w in x["blocks"]:
            put(s, 1, j, [b])
            put(s, 2, j, NEV[:w])
            if w > 1:
                s.merge_cells(start_row=1, end_row=1, start_column=j, end_column=j + w - 1)
            j += w
        for i, r in enumerate(x["rows"]):
            put(s, 3 + i, 1, r)
    wb.save(f)
    e = load_iscwsa_example(f)

    same = lambda a, b: np.shape(a) == np.shape(b) and np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True)
    fl = lambda x: float("nan") if x is None else float(x)
    # revision
    want = max(c["rev"], key=lambda x: tuple(map(int, x.split()[1].split(".")))) if c["rev"] else None
    if e.revision != want and not (want and e.revision and [int(q) for q in e.revision.split()[1].split(".")] == [int(q) for q in want.split()[1].split(".")]):
        return "revision %r of %r" % (e.revision, c["rev"])
    # header
    for k in HEAD:
        if getattr(e.header, attr(k)) != c["header"].get(k):
            return "header %s is %r, the sheet has %r" % (k, getattr(e.header, attr(k)), c["header"].get(k))
    if e.header.extras != c["extra"]:
        return "other header lines %r, the sheet has %r" % (e.header.extras, c["extra"])
    # terms
    if [t.code for t in e.terms] != [t[1] for t in c["terms"]]:
        return "terms %r of %r" % ([t.code for t in e.terms], [t[1] for t in c["terms"]])
    L = to_legacy_codes_dict(e)
    if L["header"] != c["header"]:
        return "legacy header %r, the sheet has %r" % (L["header"], c["header"])
    legacy = {}
    for t, w in zip(e.terms, c["terms"]):
        w = w + [None] * (len(FIELDS) - len(w))
        for k, x in zip(FIELDS, w):
            x = (x or "") if k in ("description", "wt_fn", "wt_fn_source", "type", "unit", "propagation") else bool(x) if k == "convert_deg_to_rad" else x
            if getattr(t, k) != x:
                return "%s of %s is %r, the sheet has %r" % (k, t.code, getattr(t, k), x)
        u = w[7] or ""
        si = w[6] * np.pi / 180 if "deg" in u else w[6]
        if abs(t.magnitude_si - si) > 1e-12 * (1 + abs(si)) or t.unit_si != u.replace("deg", "rad") or t.propagation_name != PROP[w[8]]:
            return "%s: %r %r %r for %r %r %r" % (t.code, t.magnitude_si, t.unit_si, t.propagation_name, w[6], u, w[8])
        legacy["XCLA" if w[1] == "XCLL" else w[1]] = ((w[3] or "").replace("-", "_"), si, u.replace("deg", "rad"), PROP[w[8]])
    if set(L["codes"]) != set(legacy):
        return "legacy codes %r of %r" % (sorted(L["codes"]), sorted(legacy))
    for k, (fn, si, u, p) in legacy.items():
        q = L["codes"][k]
        if (q["function"], q["unit"], q["propagation"]) != (fn, u, p) or abs(q["magnitude"] - si) > 1e-12 * (1 + abs(si)):
            return "legacy %s is %r, expected %r" % (k, q, (fn, si, u, p))
    # wellpath
    w = e.wellpath
    if w.well_name != (c["well"] or "") or w.depth_units != (c["units"] or "m").lower() or w.ft_to_m != (c["feet"] or .3048):
        return "wellpath %r %r %r" % (w.well_name, w.depth_units, w.ft_to_m)
    for k, a in (("Latitude (deg)", w.latitude_deg), ("G (m/s2)", w.g), ("BTotal (nT)", w.btotal), ("Dip (deg)", w.dip_deg), ("Declination (deg)", w.declination_deg)):
        if not same(a, fl(c["refs"].get(k))):
            return "%s is %r, the sheet has %r" % (k, a, c["refs"].get(k))
    if not same(w.stations, [[fl(x) for x in r] for r in c["stations"]]):
        return "stations %r, the sheet has %r" % (w.stations, c["stations"])
    # totals
    col = lambda k: [r[c["labels"].index(k)] for r in c["totals"]]
    if not same(e.totals.md, col("Md")):
        return "depths of the totals %r, the sheet has %r" % (e.totals.md, col("Md"))
    for a, ks in ((e.totals.nev, NEV), (e.totals.hla, HLA)):
        for j, k in enumerate(ks):
            if not same(a[:, j], col(k)):
                return "%s of the totals %r, the sheet has %r" % (k, a[:, j], col(k))
    # validation
    want = [r for r in c["validation"] or [] if r[1] is not None]
    if len(e.validation) != len(want):
        return "%d validation rows of %d" % (len(e.validation), len(want))
    for q, r in zip(e.validation, want):
        if (q.md, q.source) != (r[0], r[1]) or not same(q.diagnostic, [fl(x) for x in r[2:8]]) or not same(q.calculated, [fl(x) for x in r[8:]]):
            return "validation row %r, the sheet has %r" % (q, r)
    # sources
    codes = [t[1] for t in c["terms"]]
    if set(e.sources) != {k for k in c["sources"] if k in codes}:
        return "sources %r, the sheets are %r" % (sorted(e.sources), sorted(c["sources"]))
    for k, q in e.sources.items():
        x = c["sources"][k]
        rows = x["rows"][:c["n"]]
        if q.code != k or not same(q.md, [r[0] for r in rows]):
            return "depths of %s are %r, the sheet has %r" % (k, q.md, rows)
        want, j, seen = {}, 1, set()
        for b, w in x["blocks"]:
            nm = b + "_2" if b in seen else b
            seen.add(b)
            want[nm] = {NEV[o]: [r[j + o] for r in rows] for o in range(w)}
            j += w
        if {b: set(y) for b, y in q.blocks.items()} != {b: set(y) for b, y in want.items()}:
            return "blocks of %s are %r, expected %r" % (k, {b: list(y) for b, y in q.blocks.items()}, {b: list(y) for b, y in want.items()})
        for b, y in want.items():
            for m, z in y.items():
                if not same(q.blocks[b][m], z):
                    return "%s %s of %s is %r, the sheet has %r" % (b, m, k, q.blocks[b][m], z)
    return None


def g_cmp(d):
    n = d.int(2, 5)
    md = [0.0]
    for _ in range(n - 1):
        md.append(round(md[-1] + d.choice([30.0, 100.0, round(d.real(10, 300), 2)]), 2))
    c = dict(st=[[m, round(d.real(1, 85), 2), round(d.real(0, 359), 2), 0.0, 0.0] for m in md], units=d.choice(["m", "m", "ft", "FT"]), feet=d.choice([.3048, .3048006096]), model=d.choice(["ISCWSA MWD Rev5.11", "ISCWSA MWD Rev4", "MWD+SRGM"]),
             refs={"Latitude (deg)": round(d.real(-70, 70), 1), "G (m/s2)": 9.81, "BTotal (nT)": 50000, "Dip (deg)": round(d.real(40, 80), 1), "Declination (deg)": round(d.real(-20, 20), 1)})
    c["codes"] = [x for x in ("DRFR", "DSFS", "ABZ", "MSZ", "SAG", "NOSUCH", "AZ") if d.bool(.6)] or ["ABZ"]
    c["rows"] = [(d.choice(c["codes"]), d.choice([d.int(0, n - 1), d.int(0, n - 1), d.int(0, n - 1), -1, -2]), d.choice([0, 0, 1e-7, 1e-4, .3]), d.int(0, 5)) for _ in range(d.int(1, 6))]
    c["tot"] = [(d.choice([0, 0, 1e-7, 1e-4, .3]), d.int(0, 5)) for _ in md]
    c["tol"] = d.choice([None, (1e-2, 1e-9), (1e-9, 1e-2)])
    return c


def ck_cmp(c):
    import tempfile, os, shutil, warnings
    warnings.simplefilter("ignore")
    t = tempfile.mkdtemp()
    try:
        return compare(c, os.path.join(t, "w.xlsx"))
    finally:
        shutil.rmtree(t)


def compare(c, f):
    import numpy as np
    from openpyxl import Workbook
    from welleng.errors.iscwsa_validate import validate_workbook
    from welleng.survey import Survey, SurveyHeader
    k = c["feet"] if c["units"].lower() == "ft" else 1.0
    q = c["refs"]
    a = np.array(c["st"])
    h = SurveyHeader(name="W", latitude=q["Latitude (deg)"], G=q["G (m/s2)"], b_total=q["BTotal (nT)"], dip=q["Dip (deg)"], declination=q["Declination (deg)"], convergence=0.0, azi_reference="true")
    e = Survey(md=a[:, 0] * k, inc=a[:, 1], azi=a[:, 2], header=h, error_model=c["model"]).err.errors
    pack = lambda m: np.array([m[i][j] for i, j in PACK])
    wb = Workbook()
    wb.remove(wb.active)

    def put(s, i, j, xs):
        for m, x in enumerate(xs):
            if x is not None:
                s.cell(i, j + m, x)
    s = wb.create_sheet("Model")
    put(s, 1, 4, ["No", "Code"] + ["h"] * 7)
    for i, x in enumerate(c["codes"]):
        put(s, 2 + i, 4, [i + 1, x, "d", "F", "s", "d", .1, "m", "R"])
    s = wb.create_sheet("Wellpath")
    for i, r in enumerate([["Well", "W"]] + list(q.items()) + [["Depth Units", c["units"]], ["Feet to metres", c["feet"]]]):
        put(s, 1 + i, 1, r)
    for i, r in enumerate(c["st"]):
        put(s, 3 + i, 5, r)
    s = wb.create_sheet("Validation")
    put(s, 2, 1, ["MD", "Source"] + list(NEV) * 2)
    want = []
    for i, (code, st, eps, j) in enumerate(c["rows"]):
        md = c["st"][st][0] if st >= 0 else c["st"][-1][0] + 5.0 if st == -1 else c["st"][0][0] / 2 + c["st"][1][0] / 2
        we = pack(e.errors[code].cov_NEV[st]) if code in e.errors else np.zeros(6)
        w = we.copy()
        w[j] = w[j] * (1 + eps) + (eps if w[j] == 0 else 0)
        put(s, 3 + i, 1, [md, code] + [float(x) for x in range(6)] + [float(x) for x in w])
        if code in e.errors and st >= 0:
            want.append((code, md, we, w))
    s = wb.create_sheet("TOTALS")
    put(s, 2, 1, ["Md"] + list(NEV) + list(HLA))
    wt = []
    for i, (eps, j) in enumerate(c["tot"]):
        we = pack(e.cov_NEVs[i])
        w = we.copy()
        w[j] = w[j] * (1 + eps) + (eps if w[j] == 0 else 0)
        put(s, 3 + i, 1, [c["st"][i][0]] + [float(x) for x in w] + [0.0] * 6)
        wt.append((we, w))
    wb.save(f)
    tol = dict(zip(("tolerance_rel", "tolerance_abs"), c["tol"])) if c["tol"] else {}
    r = validate_workbook(f, c["model"], **tol)
    tr, ta = c["tol"] or (1e-3, 1e-6)
    if sorted(r.missing_in_welleng) != sorted(x for x in c["codes"] if x not in e.errors):
        return "missing %r of %r" % (r.missing_in_welleng, c["codes"])
    if [(x.code, x.md) for x in r.per_source] != [x[:2] for x in want] or len(r.totals) != len(wt):
        return "compared %r, expected %r" % ([(x.code, x.md) for x in r.per_source], [x[:2] for x in want])
    for x, (we, w) in list(zip(r.per_source, [y[2:] for y in want])) + list(zip(r.totals, wt)):
        sc = np.max(np.abs(we)) + 1e-300
        if np.max(np.abs(x.welleng - we)) > 1e-9 * sc:
            return "%r is not the model's %r" % (x.welleng, we)
        d = np.abs(we - w)
        nz = w != 0
        ratio = np.max(d[nz] / np.abs(w[nz])) if nz.any() else 0.0
        if abs(x.max_abs_err - d.max()) > 1e-9 * sc or abs(x.max_rel_err - ratio) > 1e-6 * (1 + ratio):
            return "differences %r and %r, expected %r and %r" % (x.max_abs_err, x.max_rel_err, d.max(), ratio)
        near = any(abs(y - z) < 1e-3 * z for y, z in ((d.max(), ta), (ratio, tr)))
        if not near and bool(x.ok) != bool(d.max() <= ta or ratio <= tr):
            return "verdict %r on differences %r and %r at %r and %r" % (x.ok, d.max(), ratio, ta, tr)
    pf = {}
    for x in r.per_source:
        pf[x.code] = pf.get(x.code, True) and bool(x.ok)
    if r.source_pass_fail() != pf:
        return "sources %r, rows %r" % (r.source_pass_fail(), pf)
    return None


DYN = [Dyn("workbooks", g, ck, n=(200, 2000)), Dyn("comparison", g_cmp, ck_cmp, n=(60, 600))]
