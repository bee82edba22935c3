"""Verdicts, evidence and replay for one property."""
import argparse
import hashlib
import importlib
import io
import contextlib
import json
import math
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TRUSTED = [
    "pyvc interpreter's semantics of the Python subset (cross-checked against CPython by pyvc/selftest.py)",
    "pyvc/npmodels.py: real-valued functional models of the numpy/scipy/builtin operations used",
    "pyvc/nf.py field normaliser and trigonometric identities; z3 5.3.2; cvc5 1.4.2",
    "floating point is treated as exact real arithmetic; decimal literals as exact rationals; math.pi as pi",
]


def load(pid):
    return importlib.import_module("contracts." + pid.lower())


def known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return {"findings": [], "fixed": []}
    return json.load(open(p))


def hints_for(mod):
    from .draw import mine
    files = [os.path.join(REPO, f) for f in mod.FILES]
    cur = mine(files)
    base = {}
    bp = os.path.join(HERE, "data", "consts.json")
    if os.path.exists(bp):
        base = json.load(open(bp))
    old = set()
    for f in mod.FILES:
        old |= set(base.get(f, []))
    new = [c for c in cur if c not in old] if base else []
    return cur, new


# ------------------------------------------------------------------ dyn
def run_case(dyn, case):
    """-> None | (key, message); raises nothing"""
    from .draw import Skip
    buf = io.StringIO()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import numpy as np
            with np.errstate(all="ignore"), contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
                r = dyn.check(case)
    except Skip:
        return "skip", None
    except (KeyboardInterrupt, MemoryError, SystemExit):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f for f in reversed(tb) if "/repo/" in f.filename), tb[-1])
        return "fail", (getattr(dyn, "exc_key", dyn.name), "%s: %s (%s:%s)" % (
            type(e).__name__, e, os.path.basename(where.filename), where.name))
    if r is None:
        return "ok", None
    if isinstance(r, tuple):
        return "fail", r
    return "fail", (dyn.name, str(r))


def _dyn_job(conn, dyn, pid, seed, start, count, hints, new, model, tlimit, kf):
    import random
    import numpy as np
    from .draw import Draw, Skip
    t0 = time.time()
    n = ok = skip = 0
    seen = set()
    samples, fails, kn = [], [], {}
    i = start
    cases = iter(dyn.directed) if start == 0 else iter(())
    gen_err = None
    while True:
        if time.time() - t0 > tlimit or len(fails) >= 3:
            break
        case = next(cases, None)
        if case is None:
            if i >= start + count:
                break
            d = Draw("%s/%s/%s/%d" % (seed, pid, dyn.name, i), hints, new, model)
            i += 1
            try:
                case = dyn.gen(d)
            except Skip:
                continue
            case = json.loads(json.dumps(case))
        n += 1
        random.seed(i)
        np.random.seed(i % (2 ** 31))
        st, msg = run_case(dyn, case)
        if st == "skip":
            skip += 1
            continue
        h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()
        seen.add(h)
        if len(samples) < 1 and start == 0:
            samples.append(case)
        if st == "fail":
            if msg[0] in kf:
                kn.setdefault(msg[0], (msg[1], case))
            else:
                fails.append((case, msg))
    conn.send(dict(n=n, skip=skip, seen=seen, samples=samples, fails=fails, known=kn, t=time.time() - t0))
    conn.close()


def run_dyns(dyns, pid, seed, tier, hints, new, model, kf, tlimit, scale=1.0, jobs=8):
    ctx = mp.get_context("fork")
    out = {d.name: dict(evaluations=0, skipped=0, seen=set(), samples=[], fails=[], known={}, t=0.0) for d in dyns}
    work = []
    for d in dyns:
        total = int(d.n[1 if tier == "thorough" else 0] * scale)
        k = min(jobs, max(1, total // 40))
        per = (total + k - 1) // k
        for j in range(k):
            work.append((d, j * per, per))
    work.sort(key=lambda w: w[1])
    running = []
    end = time.time() + tlimit + 60
    while work or running:
        while work and len(running) < jobs:
            d, s, c = work.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_dyn_job, args=(b, d, pid, seed, s, c, hints, new, model, tlimit, kf), daemon=True)
            p.start()
            b.close()
            running.append((d, p, a, time.time()))
        nxt = []
        for d, p, a, t0 in running:
            if a.poll(0.02):
                try:
                    m = a.recv()
                    o = out[d.name]
                    o["evaluations"] += m["n"] - m["skip"]
                    o["skipped"] += m["skip"]
                    o["seen"] |= m["seen"]
                    o["samples"] += m["samples"]
                    o["fails"] += m["fails"]
                    o["known"].update(m["known"])
                    o["t"] += m["t"]
                except EOFError:
                    out[d.name]["died"] = True
                p.join(2)
                a.close()
            elif time.time() - t0 > tlimit + 60:
                p.kill()
                a.close()
                out[d.name]["died"] = True
            else:
                nxt.append((d, p, a, t0))
        running = nxt
        if work and time.time() > end:
            for d, s, c in work:
                out[d.name]["truncated"] = True
            work = []
    return out


# ------------------------------------------------------------------ main
def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--replay")
    ap.add_argument("--specs-only", action="store_true")
    ap.add_argument("--dyn-only", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    pid = a.pid
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    replays = os.path.join(HERE, "evidence", "replay")
    os.makedirs(replays, exist_ok=True)
    try:
        mod = load(pid)
    except Exception as e:
        # the contracts import only public names; a module of /repo that can
        # no longer be imported is reported by what failed
        tb = traceback.format_exc()
        print(tb)
        path = os.path.join(replays, "%s-import.json" % pid)
        json.dump({"property": pid, "kind": "import", "error": tb}, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        return 1
    if a.replay:
        return replay(mod, pid, a.replay)
    kfile = known()
    kf = {k["key"]: k for k in kfile["findings"] if k["property"] == pid}
    cur, new = hints_for(mod)
    specs = [s for s in getattr(mod, "SPECS", []) if not a.only or a.only in s.name]
    dyns = [d for d in getattr(mod, "DYN", []) if not a.only or a.only in d.name]
    budget = 1500 if tier == "thorough" else 420
    # ---- deductive part
    rep = {}
    if specs and not a.dyn_only:
        from pyvc.verify import run_specs
        rep = run_specs(specs, seed=seed, deadline=t0 + budget)
    model = []
    failed, total, discharged = [], 0, 0
    backends, funcs, ext, contracts, unsup = {}, set(), set(), set(), []
    stime = 0.0
    vac = []
    for name, r in rep.items():
        if r["info"]:
            funcs |= set(r["info"]["functions"])
            ext |= set(r["info"]["externals"])
            contracts |= set(r["info"]["contracts"])
            for u in sorted(set(r["info"]["unsupported"])):
                unsup.append("%s: %s" % (name, u))
        total += max(r["total"], len(r["obligs"]))
        for o in r["obligs"]:
            stime += o["time"]
            if o["status"] == "proved":
                discharged += 1
                b = o["backend"] or "?"
                backends[b] = backends.get(b, 0) + 1
            else:
                failed.append((name, o))
                for m in (o.get("sample"), o.get("model")):
                    if m:
                        model += [float(v) for v in m["vars"].values() if isinstance(v, (int, float)) and math.isfinite(v)]
                        model += [float(x[2]) for x in m["apps"] if isinstance(x[2], (int, float)) and math.isfinite(x[2])]
        if r["state"] != "done":
            unsup.append("%s: %s %s" % (name, r["state"], (r["err"] or "")[:300]))
        if r["vac"] is False and r["total"]:
            vac.append(name)
        if a.v:
            print("  spec %-34s %3d/%3d paths=%s %.1fs vac=%s %s" % (
                name, sum(o["status"] == "proved" for o in r["obligs"]), r["total"], r["info"] and r["info"]["paths"], r["wall"],
                r["vac"], r["state"] if r["state"] != "done" else ""))
            slow = [o for o in r["obligs"] if o["status"] == "proved" and o["time"] > 4]
            for o in slow:
                print("     slow %s %.1fs %s" % (o["label"], o["time"], o["backend"]))
            for o in r["obligs"]:
                if o["status"] != "proved":
                    print("     NOT PROVED %s: %s %s" % (o["label"], o["status"], o["note"][:300]))
                    print("       goal", o.get("goal", "")[:600])
                    print("       sample", str(o.get("sample"))[:400])
            if r["err"]:
                print(r["err"])
    t_spec = time.time() - t0
    if a.v:
        for u in unsup:
            print("  UNSUPPORTED", u)
    # ---- counter-models of the verifier, replayed on the real code
    viol = []
    for name, o in failed:
        sp = next(s for s in specs if s.name == name)
        if sp.replay is None:
            continue
        for m in (o.get("sample"), o.get("model")):
            if not m:
                continue
            try:
                got = sp.replay(m["vars"], {(x[0], tuple(x[1])): x[2] for x in m["apps"]})
            except Exception:
                continue
            for dn, case in got or []:
                d = next(x for x in mod.DYN if x.name == dn)
                try:
                    case = json.loads(json.dumps(case))
                except (TypeError, ValueError):
                    continue
                st, msg = run_case(d, case)
                if st == "fail" and msg[0] not in kf:
                    viol.append((d.name, case, msg, "verifier counterexample for obligation '%s' of %s" % (o["label"], name)))
    # ---- executable contracts
    dres = {}
    if dyns and not a.specs_only:
        tl = 240 if tier == "thorough" else 60
        dres = run_dyns(dyns, pid, seed, tier, cur, new, model[:200], kf, tl, a.scale)
        if failed and not any(d["fails"] for d in dres.values()) and not viol:
            more = run_dyns(dyns, pid, "x%s" % seed, tier, cur, new, model[:200], kf, 60, 3 * a.scale)
            for k, v in more.items():
                dres[k]["evaluations"] += v["evaluations"]
                dres[k]["seen"] |= v["seen"]
                dres[k]["fails"] += v["fails"]
    # ---- a second, longer attempt at what the solvers gave no answer to
    again = {}
    if failed and not viol and not any(d["fails"] for d in dres.values()):
        want = {}
        for n, o in failed:
            if not o.get("sample"):
                want.setdefault(n, set()).add(o["label"])
        if want:
            from pyvc.verify import run_specs
            again = run_specs([s for s in specs if s.name in want], seed=seed + 100, jobs=4, deadline=time.time() + (
                200 if tier == "quick" else 600), only=want, boost=4)
            left = []
            for n, o in failed:
                ag = [x for x in again.get(n, {}).get("obligs", []) if x["label"] == o["label"]]
                if n in want and o["label"] in want[n] and again[n]["state"] == "done" and ag and all(
                        x["status"] == "proved" for x in ag):
                    discharged += 1
                    b = ag[0]["backend"] or "?"
                    backends[b] = backends.get(b, 0) + 1
                    stime += ag[0]["time"]
                    o["status"], o["backend"] = "proved", b
                    if a.v:
                        print("  proved at the second attempt: %s / %s %.1fs" % (n, o["label"], ag[0]["time"]))
                else:
                    left.append((n, o))
            failed = left
    knownhits = {}
    for n, d in dres.items():
        for case, msg in d["fails"]:
            viol.append((n, case, msg, "executable contract"))
        for k, (m, c) in d["known"].items():
            knownhits.setdefault(k, (m, c))
        if a.v:
            print("  dyn %-34s eval=%d distinct=%d skip=%d %.1fs fails=%d known=%s %s" % (
                n, d["evaluations"], len(d["seen"]), d["skipped"], d["t"], len(d["fails"]), sorted(d["known"]),
                "DIED" if d.get("died") else ""))
            for case, msg in d["fails"][:3]:
                print("     ", msg[1][:500], json.dumps(case)[:600])
    # ---- evidence
    wall = time.time() - t0
    level = "proof" if discharged else "exploration"
    cov = {
        "obligations": total, "discharged": discharged,
        "checker_cmd": "cd /verif && bash run.sh %s %s" % (pid, tier),
        "trusted_base": TRUSTED + sorted("external model: " + e for e in ext),
        "backends": backends, "solver_time_s": round(stime, 3),
        "functions_under_contract": sorted(funcs),
        "assumed_contracts": sorted(contracts),
        "specifications": {n: {"obligations": r["total"], "proved": sum(o["status"] == "proved" for o in r["obligs"]),
                               "paths": r["info"]["paths"] if r["info"] else None, "state": r["state"],
                               "hypotheses_satisfiable": r["vac"], "wall_s": round(r["wall"], 2)} for n, r in rep.items()},
        "undischarged": [{"spec": n, "obligation": o["label"], "status": o["status"], "note": o["note"][:300]} for n, o in failed],
        "outside_verifier_reach": unsup,
        "vacuous": vac,
        "bounded": {n: {"evaluations": d["evaluations"], "distinct": len(d["seen"]), "outside_precondition": d["skipped"]}
                    for n, d in dres.items()},
        "evaluations": sum(d["evaluations"] for d in dres.values()),
        "distinct_nontrivial": sum(len(d["seen"]) for d in dres.values()),
        "rule": "bounded executable contracts on the real code (not counted as proof): cases drawn from the contract's "
                "precondition with boundary values and values near the numeric literals of the current source; a case is "
                "non-trivial when it satisfies the precondition, distinct by its JSON text",
        "samples": [{"contract": n, "case": s} for n, d in dres.items() for s in d["samples"][:1]][:6],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(wall, 2),
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
              "assumed contract: " + c for c in sorted(contracts)] + ["floating-point rounding is outside the proofs"],
          "violations": len(viol) + (len(failed) if not viol else 0)}
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, default=str)
    # ---- verdict
    for k, (m, c) in sorted(knownhits.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, kf[k]["what"]))
    failed = [(n, o) for n, o in failed if "oblig:%s/%s" % (n, o["label"]) not in kf]
    if viol:
        shown = set()
        for i, (n, case, msg, how) in enumerate(viol):
            if n in shown:
                continue
            shown.add(n)
            path = os.path.join(replays, "%s-%s.json" % (pid, n.replace("/", "_").replace(" ", "_")))
            json.dump({"property": pid, "kind": "dyn", "contract": n, "case": case, "message": msg[1], "key": msg[0], "how": how,
                       "failed_obligations": [{"spec": s, "obligation": o["label"], "goal": o.get("goal"), "note": o["note"]}
                                              for s, o in failed[:20]],
                       "replay_cmd": "bash /verif/run.sh %s %s --replay %s" % (pid, tier, path)}, open(path, "w"), indent=1)
            print("%s: %s" % (n, msg[1][:600]))
            for s, o in failed[:5]:
                print("failed obligation: %s / %s (%s)" % (s, o["label"], o["note"][:120]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if failed:
        path = os.path.join(replays, "%s-obligations.json" % pid)
        json.dump({"property": pid, "kind": "obligations", "failed": [
            {"spec": n, "obligation": o["label"], "status": o["status"], "note": o["note"], "goal": o.get("goal"),
             "hypotheses": o.get("hyps"), "verifier_sample": o.get("sample"), "model": o.get("model")} for n, o in failed],
            "replay_cmd": "bash /verif/run.sh %s %s --replay %s" % (pid, tier, path)},
            open(path, "w"), indent=1, default=str)
        for n, o in failed[:8]:
            print("failed obligation: %s / %s: %s %s" % (n, o["label"], o["status"], o["note"][:200]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        return 1
    if unsup:
        for u in unsup[:6]:
            print("outside the verifier's reach (bounded stand-in only): %s" % u[:300])
    print("%s held: %d/%d obligations discharged (%s), %d bounded evaluations, %.1fs" % (
        pid, discharged, total, level, cov["evaluations"], wall))
    return 0


def replay(mod, pid, path):
    rec = json.load(open(path))
    if rec["kind"] == "dyn":
        d = next(x for x in mod.DYN if x.name == rec["contract"])
        st, msg = run_case(d, rec["case"])
        print(st, msg)
        if st == "fail":
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        return 0
    if rec["kind"] == "obligations":
        from pyvc.verify import run_specs
        names = {f["spec"] for f in rec["failed"]}
        rep = run_specs([s for s in mod.SPECS if s.name in names])
        bad = [(n, o) for n, r in rep.items() for o in r["obligs"] if o["status"] != "proved"]
        for n, o in bad:
            print(n, o["label"], o["status"], o["note"], o.get("goal"))
        if bad:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        return 1 if bad else 0
    print(rec.get("error"))
    return 1
