"""P32 reference data"""
from .common import *
from pyvc.interp import Model

FILES = ["welleng/io.py", "welleng/errors/copsegrove.py"]
I_ = "welleng.io."
K_ = "welleng.errors.copsegrove."
META = dict(
    title="Reference wells and diagnostics are read as their files give them",
    statement="From the ISCWSA workbook of standard wells, get_standard_data and import_iscwsa_collision_data return every sheet whose name ends in the word well: depth, angles, position and standard deviations of each row from the 17th that has a number for depth, in order, each quantity from its own column; "
              "for every well but the reference well the separation factors in column O of the clearance sheet with the same first five characters, from row 5 on; and the collision parameters of the reference well's sheet. "
              "parse_copsegrove returns every station of a diagnostics file in order with its depth and angles and the survey-only deviations of each error source listed before it since the station before, and per_term_sigmas those of one source at exactly the stations that list it.",
    over=["inputs"], quantifier="all workbooks and diagnostics files of those layouts",
    why="Tests read the one published workbook, where a row skipped or a column swapped shows only through a loose comparison, and the published files have one layout of stations and sources.",
    mechanism=[("stations", "welleng/io.py:get_well_data"), ("workbook", "welleng/io.py:get_standard_data"), ("factors", "welleng/io.py:get_clearance_data"), ("diagnostics", "welleng/errors/copsegrove.py:parse_copsegrove"),
               ("one source", "welleng/errors/copsegrove.py:per_term_sigmas")],
    observe_at="get_standard_data(), import_iscwsa_collision_data(), parse_copsegrove(), per_term_sigmas()")

COLS = ["MD", "IncDeg", "AziDeg", "TVD", "N", "E", "sigmaH", "sigmaL", "sigmaA"]
ACR = dict(Sm="I4", sigmapa="I5", k="I6", reference_h_and_c="I7", offset_h_and_c="I8")


def cell(v, x):
    return v.obj("types.SimpleNamespace", value=x)


def sheet(v, rows, seen):
    def it(I, *a, **k):
        k = dict(zip(("min_row", "max_row", "min_col", "max_col", "values_only"), a), **k)
        seen.append(k)
        return [tuple(cell(v, x) for x in r) for r in rows]
    return v.obj("types.SimpleNamespace", iter_rows=Model(it))


def s_stations(v, keep):
    """rows with and without a depth"""
    seen, rows = [], []
    for i, k in enumerate(keep):
        r = [v.real("%s%d" % (c, i)) for c in COLS]
        if k != "number":
            r[0] = {"blank": None, "text": "MD"}[k]
        rows.append(r)
    old = {"SF": [1]}
    data = {"acr": {}, "wells": {"other": old}}
    r = v.call(I_ + "get_well_data", "01 - well", sheet(v, rows, seen), data)
    w = r["wells"]
    v.ensure("under its own name, beside the others", T.TRUE if set(w) == {"01 - well", "other"} and w["other"] is old else T.FALSE)
    w = w["01 - well"]
    v.ensure("quantities", T.TRUE if set(w) == set(COLS) else T.FALSE)
    k = seen[0]
    v.ensure("from row 17, columns B to J, to the last row", T.TRUE if k["min_row"] == 17 and k["min_col"] == 2 and k["max_col"] == 10 and not k.get("max_row") else T.FALSE)
    want = [x for x, q in zip(rows, keep) if q == "number"]
    for c, q in enumerate(COLS):
        v.ensure("%s of every station" % q, T.land(*[T.eq(a, b[c]) for a, b in zip(w[q], want)]) if len(w[q]) == len(want) else T.FALSE)


def s_factors(v):
    seen = []
    rows = [(v.real("sf%d" % i), v.real("o%d" % i)) for i in range(3)]
    data = {"acr": {}, "wells": {"01 - well": {"MD": [1]}, "02 - well": {}}}
    r = v.call(I_ + "get_clearance_data", "01 - well", sheet(v, rows, seen), data)
    w = r["wells"]["01 - well"]
    v.ensure("factors in order", T.land(*[T.eq(a, b[0]) for a, b in zip(w["SF"], rows)]) if len(w["SF"]) == 3 else T.FALSE)
    v.ensure("the stations are kept, other wells untouched", T.TRUE if w["MD"] == [1] and r["wells"]["02 - well"] == {} else T.FALSE)
    k = seen[0]
    v.ensure("from row 5, column O", T.TRUE if k["min_row"] == 5 and k["min_col"] == 15 and not k.get("max_row") else T.FALSE)


def s_acr(v):
    cells = {c: v.real(c) for c in ("I3", "I4", "I5", "I6", "I7", "I8", "I9")}
    r = v.call(I_ + "acr_setup", {c: cell(v, x) for c, x in cells.items()}, {"acr": {}, "wells": {}})
    v.ensure("collision parameters", T.land(*[T.eq(r["acr"][k], cells[c]) for k, c in ACR.items()]) if set(r["acr"]) == set(ACR) else T.FALSE)


class Book(dict):
    @property
    def sheetnames(self):
        return list(self)


def s_book(v, fn):
    names = ["Introduction", "Reference well", "01 - well", "01 - clearance", "wellhead", "12 - well", "12 - clearance", "well data"]
    book = Book((k, "sheet " + k) for k in names)
    calls = []

    def load(I, f, *a, **k):
        calls.append(("load", f, k.get("data_only")))
        return book

    def f(kind):
        def g_(I, *a, **k):
            calls.append((kind,) + tuple(x for x in a if isinstance(x, str)))
            return a[-1] if not k else k.get("data", a[-1])
        return g_
    v.external("openpyxl.load_workbook", load)
    v.external(I_ + "load_workbook", load)
    v.contract(I_ + "get_well_data", f("well"))
    v.contract(I_ + "acr_setup", f("acr"))
    v.contract(I_ + "get_clearance_data", f("sf"))
    r = v.call(I_ + fn, "file.xlsm")
    v.ensure("the file's values", T.TRUE if calls[0] == ("load", "file.xlsm", True) else T.FALSE)
    want = [("well", "Reference well", "sheet Reference well"), ("acr", "sheet Reference well"), ("well", "01 - well", "sheet 01 - well"), ("sf", "01 - well", "sheet 01 - clearance"),
            ("well", "12 - well", "sheet 12 - well"), ("sf", "12 - well", "sheet 12 - clearance")]
    v.ensure("the wells' sheets", T.TRUE if calls[1:] == want else T.FALSE)
    v.ensure("result", T.TRUE if isinstance(r, dict) and set(r) == {"acr", "wells"} else T.FALSE)


def s_term(v, has):
    st, want = [], []
    for i, h in enumerate(has):
        d = {"OTHER": tuple(v.real("x%d%d" % (i, c)) for c in range(3))}
        if h:
            d["DRFR"] = tuple(v.real("s%d%d" % (i, c)) for c in range(3))
        o = v.obj(K_ + "StationDiagnostic", md=v.real("md%d" % i), inc_deg=v.real("inc%d" % i), azi_deg=v.real("azi%d" % i), sigmas_svy=d)
        st.append(o)
        if h:
            want.append((o, d["DRFR"]))
    r = v.call(K_ + "per_term_sigmas", st, "DRFR")
    v.ensure("as many as list it", T.TRUE if [len(x) for x in r] == [len(want)] * 4 else T.FALSE)
    for i, (o, d) in enumerate(want):
        v.ensure("station %d" % i, T.land(T.eq(r[0][i], v.get(o, "md")), T.eq(r[1][i], v.get(o, "inc_deg")), T.eq(r[2][i], v.get(o, "azi_deg")), *[T.eq(r[3][i][c], d[c]) for c in range(3)]))


SPECS = [Spec("stations/%s" % "+".join(k), lambda v, k=k: s_stations(v, k), bounded="%d rows" % len(k)) for k in (("number",), ("number", "number"), ("text", "number", "blank", "number"), ("blank", "blank"))]
SPECS += [Spec("factors", s_factors, bounded="three rows"), Spec("parameters", s_acr)]
SPECS += [Spec("workbook/%s" % f, lambda v, f=f: s_book(v, f), bounded="one list of sheets") for f in ("get_standard_data", "import_iscwsa_collision_data")]
SPECS += [Spec("one source/%s" % "".join("-+"[x] for x in h), lambda v, h=h: s_term(v, h), bounded="%d stations" % len(h)) for h in ((1,), (0, 1, 1), (1, 0, 1), (0, 0))]


# ------------------------------------------------------------------ dynamic
def g(d):
    c = dict(kind=d.choice(["book", "book", "diagnostics"]))
    num = lambda: d.choice([0, 0.0, d.int(0, 5000), round(d.real(-5000, 5000), d.int(0, 6))])
    if c["kind"] == "book":
        wells = ["Reference well"] + ["%02d - well" % k for k in sorted(set(d.int(1, 12) for _ in range(d.int(1, 3))))]
        if d.bool(.3):
            wells = wells[1:] + wells[:1]
        c["wells"] = []
        for w in wells:
            rows = []
            for _ in range(d.int(1, 6)):
                r = [num() for _ in range(9)]
                if d.bool(.25):
                    r[0] = d.choice([None, "end", "MD", ""])
                rows.append(r)
            if not any(x is not None for x in rows[-1]):
                rows[-1][1] = 1.0
            c["wells"].append(dict(name=w, rows=rows, sf=[num() for _ in range(d.int(1, 6))], acr=[num() for _ in range(5)]))
        c["extra"] = [x for x in ("Introduction", "wellhead", "well plan", "Notes") if d.bool(.5)]
        return c
    names = ["DRFR", "DSFS", "DSTG", "ABXY-TI1S", "MBXY", "XYM1", "SAG", "AZ2", "A", "Totals", "Az", "Depth"]
    c["stations"] = []
    for _ in range(d.int(0, 5)):
        src = [n for n in names if d.bool(.5)] if d.bool(.8) else []
        if d.bool(.3):
            src = src[::-1]
        c["stations"].append(dict(md=round(d.real(0, 9000), 2), inc=round(d.real(0, 180), 2), azi=round(d.real(-10, 360), 2), src=[(n, [round(d.real(-40, 40), 4) for _ in range(9)]) for n in src]))
    c["gap"] = d.bool()
    c["crlf"] = d.bool(.2)
    return c


def ck(c):
    import tempfile, os, shutil
    t = tempfile.mkdtemp()
    try:
        return book(c, t) if c["kind"] == "book" else diagnostics(c, t)
    finally:
        shutil.rmtree(t)


def book(c, t):
    import os
    from openpyxl import Workbook
    from welleng import io
    wb = Workbook()
    wb.remove(wb.active)
    for x in c["extra"][:1]:
        wb.create_sheet(x)
    for w in c["wells"]:
        s = wb.create_sheet(w["name"])
        s.cell(16, 2, 99.0)     # above the table
        s.cell(18, 11, 77.0)    # beside it
        for i, r in enumerate(w["rows"]):
            for j, x in enumerate(r):
                s.cell(17 + i, 2 + j, x)
        for k, x in zip(("I4", "I5", "I6", "I7", "I8"), w["acr"]):
            s[k] = x
        if w["name"] != "Reference well":
            q = wb.create_sheet(w["name"][:5] + "clearance")
            q["O4"] = 55.0
            for i, x in enumerate(w["sf"]):
                q.cell(5 + i, 15, x)
                q.cell(5 + i, 14, -1.0)
                q.cell(5 + i, 16, -2.0)
    for x in c["extra"][1:]:
        wb.create_sheet(x)
    f = os.path.join(t, "wells.xlsx")
    wb.save(f)
    for fn in (io.get_standard_data, io.import_iscwsa_collision_data):
        r = fn(f)
        if sorted(r["wells"]) != sorted(w["name"] for w in c["wells"]):
            return "wells %r" % sorted(r["wells"])
        for w in c["wells"]:
            got = r["wells"][w["name"]]
            rows = [x for x in w["rows"] if isinstance(x[0], (int, float))]
            for j, k in enumerate(COLS):
                if list(got[k]) != [x[j] for x in rows]:
                    return "%s of %s is %r, the sheet has %r" % (k, w["name"], got[k], [x[j] for x in rows])
            if w["name"] == "Reference well":
                if r["acr"] != dict(zip(("Sm", "sigmapa", "k", "reference_h_and_c", "offset_h_and_c"), w["acr"])):
                    return "parameters %r, the sheet has %r" % (r["acr"], w["acr"])
            elif list(got["SF"]) != list(w["sf"]):
                return "separation factors of %s are %r, the sheet has %r" % (w["name"], got["SF"], w["sf"])
    return None


SKIPPED = ("Totals", "Az", "Depth")


def diagnostics(c, t):
    import os
    from welleng.errors.copsegrove import parse_copsegrove, per_term_sigmas
    out = ["ISCWSA diagnostics", "Error model: MWD", ""]
    for s in c["stations"]:
        for n, x in s["src"]:
            out.append("%-8s svy  %s" % (n, "".join("%12.4f" % q for q in x)))
            out.append("%-8s dep  %s" % ("", "".join("%12.4f" % (q + 1) for q in x)))
        if c["gap"]:
            out += ["", "NEV Covariance Matrix Terms", "DRFR  1.0 2.0 3.0 4.0 5.0 6.0", ""]
        out.append("%.2f        Inc: %.2f       Az (True): %.2f  TF: 0.00" % (s["md"], s["inc"], s["azi"]))
    f = os.path.join(t, "d.txt")
    with open(f, "w", newline="") as o:
        o.write(("\r\n" if c["crlf"] else "\n").join(out) + "\n")
    st = parse_copsegrove(f)
    if len(st) != len(c["stations"]):
        return "%d stations of %d" % (len(st), len(c["stations"]))
    for i, (a, s) in enumerate(zip(st, c["stations"])):
        if (a.md, a.inc_deg, a.azi_deg) != (s["md"], s["inc"], s["azi"]):
            return "station %d is at %r, the file has %r" % (i, (a.md, a.inc_deg, a.azi_deg), (s["md"], s["inc"], s["azi"]))
        want = {n: tuple(x[:3]) for n, x in s["src"] if n not in SKIPPED}
        if {k: tuple(x) for k, x in a.sigmas_svy.items()} != want:
            return "station %d has %r, the file %r" % (i, a.sigmas_svy, want)
    for n in ("DRFR", "XYM1", "none"):
        got = per_term_sigmas(st, n)
        rows = [(s["md"], s["inc"], s["azi"], tuple(x[:3])) for s in c["stations"] for m, x in s["src"] if m == n]
        if [tuple(x) for x in zip(*got)] != rows or len(set(map(len, got))) != 1:
            return "%s: %r, the file has %r" % (n, got, rows)
    return None


DYN = [Dyn("reference data", g, ck, n=(200, 2000))]
