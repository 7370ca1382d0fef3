"""Discharges verification conditions with z3 and cvc5 (portfolio, in parallel)."""
import os, threading, subprocess, tempfile, time, concurrent.futures, hashlib
import z3

CVC5 = "cvc5"
Z3 = "z3-new"


def smt2(pc, goal):
    s = z3.Solver()
    for p in pc:
        s.add(p)
    s.add(z3.Not(goal))
    return s.to_smt2()


LOCK = threading.Lock()


def smt2s(pc, goal):
    with LOCK:
        return smt2(pc, goal)


def run_one(cmd, text, to, path):
    t = time.time()
    try:
        r = subprocess.run(cmd + [path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=to + 5)
        out = r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        out = "timeout"
    dt = time.time() - t
    first = out.strip().split("\n")[0].strip() if out.strip() else ""
    if first == "unsat":
        return "unsat", dt, out
    if first == "sat":
        return "sat", dt, out
    return "unknown", dt, out


def stopped():
    """set by check.py once a driver has a failing input: no further attempts at obligations that resist"""
    p = os.environ.get("VP_STOP")
    return bool(p) and os.path.exists(p)


def portfolio(text, path, to, stages=None):
    """-> (result, time, solver, output)"""
    open(path, "w").write(text)
    cv = path + ".cvc.smt2"
    t2 = "(set-logic ALL)\n" + text.replace("(set-logic ALL)\n", "")
    open(cv, "w").write(t2)
    tot = 0
    last = ("unknown", "", "")
    stages = stages or [("z3", ["-T:%d" % max(3, to // 4)], max(3, to // 4)),
                        ("cvc5", ["--tlimit=%d" % (1000 * max(5, to // 3)), "--fmf-fun" if False else "--full-saturate-quant"], max(5, to // 3)),
                        ("z3", ["-T:%d" % max(4, to // 3), "smt.random_seed=7", "smt.mbqi=false"], max(4, to // 3)),
                        ("z3", ["-T:%d" % max(4, to // 3), "smt.arith.solver=2", "smt.random_seed=3"], max(4, to // 3))]
    if "(str." in text:      # strings as sequences: cvc5 first
        stages = [("cvc5", ["--tlimit=5000"], 5)] + stages
    for name, opts, lim in stages:
        if name == "z3":
            r, dt, out = run_one([Z3] + opts, None, lim, path)
        else:
            r, dt, out = run_one([CVC5] + opts, None, lim, cv)
        tot += dt
        if r in ("unsat", "sat"):
            os.unlink(cv)
            return r, tot, name + ("" if name == "cvc5" else " 5.3.2"), out
        last = (r, name, out)
        if stopped():
            break
    os.unlink(cv)
    return "unknown", tot, last[1], last[2]


def discharge(vcs, workdir, to=24, jobs=8, deadline=None):
    os.makedirs(workdir, exist_ok=True)
    texts = []
    seen = {}
    for i, v in enumerate(vcs):
        if v.kind in ("vac", "reach"):
            continue
        if z3.is_true(v.goal):
            v.res, v.solver, v.time = "unsat", "simplifier", 0
            continue
        texts.append((i, smt2(v.pc, v.goal)))

    def work(it):
        i, t = it
        if deadline and time.time() > deadline:
            return i, ("unknown", 0, "none", "time budget used up")
        if vcs[i].slim is not None:      # fewer hypotheses: sound, often much faster
            path = os.path.join(workdir, "vs_%d.smt2" % i)
            open(path, "w").write(smt2s(vcs[i].slim, vcs[i].goal))
            lim = max(3, to // 6)
            r, dt, out = run_one([Z3, "-T:%d" % lim], None, lim, path)
            if r == "unsat":
                return i, (r, dt, "z3 5.3.2", "")
        if deadline and time.time() > deadline:
            return i, ("unknown", 0, "none", "time budget used up")
        return i, portfolio(t, os.path.join(workdir, "vc_%d.smt2" % i), to)
    uniq = {}
    for i, t in texts:
        uniq.setdefault(t, []).append(i)
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for (i, (r, dt, sv, out)) in ex.map(work, [(ids[0], t) for t, ids in uniq.items()]):
            for j in uniq_ids(uniq, i):
                vcs[j].res, vcs[j].time, vcs[j].solver = r, dt, sv
                if r != "unsat":
                    vcs[j].hints = out[:4000]


def uniq_ids(uniq, i):
    for t, ids in uniq.items():
        if ids[0] == i:
            return ids
    return [i]


def vacuity(vcs, workdir, to=3, jobs=8):
    """A vacuity probe must NOT be provable: returns the list of probes that were (contradictory assumptions)."""
    os.makedirs(workdir, exist_ok=True)
    pr = [v for v in vcs if v.kind in ("vac", "reach")]

    def work(v_t):
        k, t = v_t
        path = os.path.join(workdir, "vac_%d.smt2" % k)
        open(path, "w").write(t)
        return run_one([Z3, "-T:%d" % to], None, to, path)
    items = [(k, smt2(v.pc, v.goal)) for k, v in enumerate(pr)]
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for v, (r, dt, out) in zip(pr, ex.map(work, items)):
            v.res, v.time = r, dt
    return pr
