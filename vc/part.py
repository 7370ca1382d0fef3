"""Runs one proof part: extracts the real code, generates and discharges its obligations. part.py SPEC OUT.json WORKDIR [fn substrings]"""
import sys, os, json, time, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "specs")]
import cast, sx, solve


def main():
    spec, out, work = sys.argv[1:4]
    flt = sys.argv[4:]
    jobs = int(os.environ.get("VP_JOBS", "6"))
    to = int(os.environ.get("VP_TO", "30"))
    t0 = time.time()
    R = {"part": spec, "functions": [], "failed": [], "unsupported": [], "vacuous": [], "trusted": [], "inlined": [], "lemmas": [],
         "obligations": 0, "discharged": 0, "solver_time": 0.0, "backends": {}, "slowest": []}
    os.makedirs(work, exist_ok=True)
    try:
        m = importlib.import_module(spec)
        kw = {"lang": m.LANG} if hasattr(m, "LANG") else {}
        u = cast.Unit(cast.dump(m.TU, work, **kw))
        X = sx.Exec(u, heap_classes=getattr(m, "HEAP", ()))
        cs = m.contracts(X)
        X.contracts = cs
    except Exception as e:
        R["unsupported"].append({"fn": "(translation unit %s)" % spec, "why": "%s: %s" % (type(e).__name__, str(e)[:800])})
        json.dump(R, open(out, "w"))
        return
    per = {}
    for c in cs:
        if not c.verify or c.trusted:
            if c.trusted or not c.verify:
                R["trusted"].append(c.title)
            continue
        if flt and not any(x in c.fn or x in c.title for x in flt):
            continue
        fs = [f for f in u.find(c.fn) if c.matches(c.fn, f)]
        if not fs:
            R["unsupported"].append({"fn": c.title, "why": "function not found in the translation unit"})
            continue
        for f in fs:
            n0 = len(X.vcs)
            try:
                X.verify(c, f)
                per.setdefault(c.title, []).append((n0, len(X.vcs)))
            except (cast.Unsupported, KeyError) as e:
                del X.vcs[n0:]
                R["unsupported"].append({"fn": c.title, "why": "%s (source line %s)" % (str(e)[:400], X.line)})
            except Exception as e:
                del X.vcs[n0:]
                R["unsupported"].append({"fn": c.title, "why": "%s: %s (source line %s) %s" % (
                    type(e).__name__, str(e)[:300], X.line, traceback.format_exc(limit=-3)[-500:])})
    gen = time.time() - t0
    vd = os.path.join(work, "vc_" + spec)
    solve.discharge(X.vcs, vd, to=to, jobs=jobs, deadline=t0 + 480)
    bad = [v for v in X.vcs if v.kind not in ("vac", "reach") and v.res == "unknown"]
    if bad and len(bad) <= 12 and not solve.stopped() and time.time() < t0 + 300:          # once more, alone and with more time: a busy machine must not look like a failed proof
        keep = [(v, v.time) for v in bad]
        solve.discharge(bad, vd, to=to * 3, jobs=max(1, jobs // 2), deadline=t0 + 330)
        for v, t in keep:
            v.time += t
    pr = solve.vacuity(X.vcs, vd, jobs=jobs)
    R["vacuous"] = [{"fn": v.fn, "label": v.label} for v in pr if v.res == "unsat"]
    R["probes"] = len(pr)
    obs = [v for v in X.vcs if v.kind not in ("vac", "reach")]
    fns = {}
    for v in obs:
        d = fns.setdefault(v.fn, {"fn": v.fn, "obligations": 0, "discharged": 0})
        d["obligations"] += 1
        R["obligations"] += 1
        R["solver_time"] += v.time or 0
        if v.res == "unsat":
            d["discharged"] += 1
            R["discharged"] += 1
            R["backends"][v.solver] = R["backends"].get(v.solver, 0) + 1
        else:
            R["failed"].append({"fn": v.fn, "obligation": v.label, "line": v.line, "result": v.res, "solver_output": (v.hints or "")[:3000],
                                "goal": str(v.goal)[:2000]})
    R["functions"] = list(fns.values())
    R["inlined"] = sorted(str(x) for x in X.inlined)
    R["slowest"] = sorted([(round(v.time or 0, 1), v.fn, v.label) for v in obs], reverse=True)[:3]
    R["gen_s"], R["wall_s"] = round(gen, 1), round(time.time() - t0, 1)
    json.dump(R, open(out, "w"), indent=1)


main()
