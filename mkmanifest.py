#!/usr/bin/env python3
"""regenerates properties.jsonl and MANIFEST.json from the contract modules (dev tool)"""
import importlib, json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
mods = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "contracts")) if re.match(r"p\d\d\.py$", f))
props, checks = [], []
for m in mods:
    mod = importlib.import_module("contracts." + m)
    pid, M = m.upper(), mod.META
    assert len(M["title"]) <= 80, (pid, len(M["title"]))
    props.append({"id": pid, "title": M["title"], "statement": M["statement"],
                  "quantifier": {"over": M["over"], "text": M["quantifier"]}, "why_tests_cant": M["why"],
                  "anchors": {"files": mod.FILES, "mechanism": [{"name": a, "where": b} for a, b in M["mechanism"]],
                              "observe_at": M["observe_at"] if isinstance(M["observe_at"], list) else [M["observe_at"]]}})
    lvl = M.get("level", "proof" if getattr(mod, "SPECS", None) else "exploration")
    checks.append({"property": pid, "quick_cmd": "bash run.sh %s quick" % pid, "thorough_cmd": "bash run.sh %s thorough" % pid,
                   "technique": M.get("technique", "contract-based deductive verification: verification conditions generated by symbolic execution of the current source against "
                                "pre/postconditions, discharged by the field normaliser, z3 and cvc5; verifier samples replayed on the real code; bounded executable contracts stand in where the verifier cannot reach"),
                   "level": lvl, "level_note": M.get("note", "deductive part for all inputs over exact reals; the executable contracts beside it are bounded and not counted")})
from contracts import NOT_APPLICABLE
for p in NOT_APPLICABLE:
    props.append(p["prop"])
props.sort(key=lambda p: p["id"])
open(os.path.join(HERE, "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in props))
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
       "not_applicable": [{"property": p["prop"]["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
       "notes": "pyvc (in /verif/pyvc) reads /repo's current source on every run; nothing in /repo is instrumented. See DESIGN.md."}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
import jsonschema
ps = json.load(open("/root/.vp/PROPERTIES.schema.json")); ms = json.load(open("/root/.vp/MANIFEST.schema.json"))
for p in props:
    jsonschema.validate(p, ps)
jsonschema.validate(man, ms)
print(len(props), "properties,", len(checks), "claimed")

# ---- DESIGN.md: the generated parts
rows = []
for m in mods:
    mod = importlib.import_module("contracts." + m)
    rows.append("**%s** %s\n" % (m.upper(), mod.META["title"]))
    by = {}
    for sp in getattr(mod, "SPECS", []):
        a, _, b = sp.name.partition("/")
        by.setdefault((a, sp.bounded), []).append(b)
    rows.append("".join("- `%s`%s%s\n" % (a, " (" + ", ".join(x for x in v if x) + ")" if any(v) else "", " - *bounded: %s*" % b if b else "")
                        for (a, b), v in by.items()))
    rows.append("- executable (bounded): " + ", ".join("`%s`" % d.name for d in mod.DYN) + "\n")
D = os.path.join(HERE, "DESIGN.md")
txt = open(D).read()
txt = re.sub(r"<!-- specs -->.*<!-- /specs -->", lambda _: "<!-- specs -->\n" + "\n".join(rows) + "<!-- /specs -->", txt, flags=re.S)
caught = json.load(open(os.path.join(HERE, "data", "caught.json")))
sd = ["| change | property | needs | caught by |", "|---|---|---|---|"]
base = os.path.join(HERE, "seeded")
for i in sorted(os.listdir(base)):
    mt = json.load(open(os.path.join(base, i, "meta.json")))
    sd.append("| %s | %s | %s | %s |" % (i, mt["property"], mt["needs"].replace("|", "/"), caught.get(i, "not run")))
txt = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(sd) + "\n<!-- /seeds -->", txt, flags=re.S)
open(D, "w").write(txt)
