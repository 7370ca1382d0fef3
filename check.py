#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property on /repo's current working tree.

1. proof parts: contracts on the functions of the real source, discharged function by function (vc/part.py, or CBMC code contracts);
2. drivers: the same statement run on the compiled real code (ASan+UBSan) - they turn a failed obligation into a failing input,
   and stand in (bounded, not counted as proved) for whatever the extraction cannot bring into the verifier's reach.
"""
import sys, os, json, time, subprocess, shutil, tempfile, importlib, threading, re
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(VERIF, "specs"), os.path.join(VERIF, "vc")]
REPO = os.environ.get("VP_REPO", "/repo")
PY = "python3-vt"
SAN = "-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer -fno-sanitize=vptr"
CXX = "-include cstdint -g1 -O1 -w " + SAN
LIBORDER = ["mwsdaemon", "mwsxmlparser", "mwsanalytics", "mwsquery", "mwsdbc", "mwsindex", "mwstypes", "crawlerdaemon", "crawlercrawler", "crawlerparser",
            "crawlerutils", "crawlertypes", "googleurl", "commonsocket", "commonthread", "commonutils", "commontypes", "crc32"]
SYSLIBS = "-lleveldb -lsnappy -ljson-c -lxml2 -lmicrohttpd -lcurl -lhtmlcxx -licuuc -lz -lpthread".split()


def build_libs(work, libs, log):
    bd = os.path.join(work, "build")
    env = dict(os.environ, CC="gcc", CXX="g++")
    cf = "-g1 -O1 -w " + SAN
    r = subprocess.run(["cmake", "-S", REPO, "-B", bd, "-G", "Ninja", "-Wno-dev", "-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_CXX_FLAGS=" + CXX,
                        "-DCMAKE_C_FLAGS=" + cf, "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"], stdout=log, stderr=log, env=env)
    if r.returncode:
        return None
    r = subprocess.run(["ninja", "-C", bd] + libs, stdout=log, stderr=log, env=env)
    return bd if r.returncode == 0 else None


def find_libs(bd, libs):
    out = []
    have = {}
    for d, _, fs in os.walk(bd):
        for f in fs:
            if f.startswith("lib") and f.endswith(".a"):
                have[f[3:-2]] = os.path.join(d, f)
    for l in LIBORDER:
        if l in libs and l in have:
            out.append(have[l])
    return out


class Driver:
    def __init__(self, d, bd, work, libs):
        self.d, self.bd, self.work = d, bd, work
        self.name = d["name"]
        self.dir = os.path.join(work, "drv_" + self.name)
        os.makedirs(self.dir, exist_ok=True)
        self.exe = os.path.join(self.dir, "drv")
        self.libs = libs

    def compile(self, log):
        src = os.path.join(VERIF, "drivers", self.d["src"])
        cmd = ["g++", "-std=" + self.d.get("std", "gnu++14")]
        cmd += CXX.split() + ["-I" + os.path.join(REPO, "src"), "-I" + REPO, "-I" + self.bd, "-I/usr/include/libxml2", "-I" + os.path.join(VERIF, "drivers"),
                              "-I" + os.path.join(REPO, "third_party/crawler"), "-I" + os.path.join(REPO, "third_party/common")]
        cmd += ["-DREPO_DIR=\"%s\"" % REPO] + self.d.get("cflags", []) + [src, "-o", self.exe, "-Wl,--start-group"] + find_libs(self.bd, self.libs) + ["-Wl,--end-group"] + SYSLIBS + self.d.get("ldflags", [])
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        log.write(r.stdout.decode(errors="replace"))
        log.flush()
        return r.returncode == 0

    def run(self, seed, budget, thorough, known):
        sd = os.path.join(self.dir, "s%d_%d" % (seed, int(time.time() * 1e6) % 10**9))
        os.makedirs(sd)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=%d:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=6000" % (1 if self.d.get("leaks") else 0),
                   UBSAN_OPTIONS="print_stacktrace=1:exitcode=98", TMPDIR=sd)
        cmd = [self.exe, "--seed", str(seed), "--budget", str(budget), "--dir", sd] + (["--thorough"] if thorough else [])
        for k in known:
            cmd += ["--known", k]
        t = time.time()
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=sd, timeout=budget * 3 + 150)
            out, rc = r.stdout.decode(errors="replace"), r.returncode
        except subprocess.TimeoutExpired as e:
            out, rc = (e.stdout or b"").decode(errors="replace") + "\nFAIL the driver did not finish", 97
        res = {"rc": rc, "out": out, "time": time.time() - t, "seed": seed, "stats": None, "known": []}
        for l in out.split("\n"):
            if l.startswith("STATS "):
                try:
                    res["stats"] = json.loads(l[6:])
                except ValueError:
                    pass
            if l.startswith("KNOWN "):
                res["known"].append(l[6:].strip())
        try:
            res["case"] = open(os.path.join(sd, "case.txt"), "rb").read().split(b"\0")[0].decode(errors="replace")
        except OSError:
            res["case"] = ""
        subprocess.run(["rm", "-rf", sd])
        return res


def run_cbmc(c, work, out):
    import cbmcpart
    cbmcpart.run(c, work, out, REPO, VERIF)


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    m = importlib.import_module(pid.lower())
    thorough = tier == "thorough"
    work = tempfile.mkdtemp(prefix="vp_%s_" % pid)
    log = open(os.path.join(work, "log.txt"), "a")
    known = load_known(pid)
    replaydir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(replaydir, exist_ok=True)
    rc = 3
    try:
        rc = decide(pid, m, tier, thorough, seed, work, log, known, replaydir, t0)
    finally:
        log.close()
        if os.environ.get("VP_KEEP"):
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            mm = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if mm and mm.group(1) == pid:
                out.append((mm.group(2), mm.group(3).strip()))
    return out


def decide(pid, m, tier, thorough, seed, work, log, known, replaydir, t0):
    proofs = getattr(m, "PROOFS", [])
    cbmcs = getattr(m, "CBMC", [])
    drivers = getattr(m, "DRIVERS", [])
    libs = sorted({l for d in drivers for l in d.get("libs", [])})
    bd = None
    violations = []
    if drivers:
        bd = build_libs(work, libs, log)
        if bd is None:
            print("ERROR: /repo does not build (see log)")
            log.flush()
            print(open(os.path.join(work, "log.txt")).read()[-3000:])
            return 3
    # --- everything in parallel: driver compilation and runs, proof parts
    results, dres = {}, {}
    nparts = max(1, len(proofs) + len(cbmcs))
    jobs = max(2, (7 if nparts == 1 else 8 // min(nparts, 3)))
    sem = threading.Semaphore(3)
    kn = [k for k, _ in known]
    stop = os.path.join(work, "stop")      # exists once a driver has failed

    def proof(p):
        with sem:
            o = os.path.join(work, "part_%s.json" % p["spec"])
            env = dict(os.environ, VP_JOBS=str(jobs), VP_TO=str(p.get("to", 30)), VP_STOP=stop)
            try:
                r = subprocess.run([PY, os.path.join(VERIF, "vc", "part.py"), p["spec"], o, os.path.join(work, "w_" + p["spec"])] + p.get("fns", []),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=700)
                results[p["spec"]] = json.load(open(o))
            except Exception as e:
                results[p["spec"]] = {"part": p["spec"], "functions": [], "failed": [], "vacuous": [], "obligations": 0, "discharged": 0,
                                      "unsupported": [{"fn": "(part %s)" % p["spec"], "why": "%s" % e}], "trusted": [], "inlined": [], "lemmas": [], "solver_time": 0, "backends": {}}

    def cb(c):
        with sem:
            o = os.path.join(work, "cbmc_%s.json" % c["name"])
            try:
                run_cbmc(c, work, o)
                results["cbmc:" + c["name"]] = json.load(open(o))
            except Exception as e:
                results["cbmc:" + c["name"]] = {"part": "cbmc:" + c["name"], "functions": [], "failed": [], "vacuous": [], "obligations": 0, "discharged": 0,
                                                "unsupported": [{"fn": c["name"], "why": "%s: %s" % (type(e).__name__, e)}], "trusted": [], "inlined": [], "lemmas": [], "solver_time": 0, "backends": {}}

    def drv(d):
        D = Driver(d, bd, work, libs)
        if not D.compile(log):
            dres[d["name"]] = (D, None)
            return
        b = d.get("thorough_budget", 240) if thorough else d.get("budget", 10)
        r = D.run(seed, b, thorough, kn)
        dres[d["name"]] = (D, r)
        if r["rc"] != 0:
            open(stop, "w").close()

    th = [threading.Thread(target=drv, args=(d,)) for d in drivers] + [threading.Thread(target=proof, args=(p,)) for p in proofs] + \
         [threading.Thread(target=cb, args=(c,)) for c in cbmcs]
    for t in th:
        t.start()
    for t in th:
        t.join()

    failed = [dict(f, part=k) for k, r in results.items() for f in r["failed"]]
    vac = [dict(f, part=k) for k, r in results.items() for f in r["vacuous"]]
    uns = [dict(f, part=k) for k, r in results.items() for f in r["unsupported"]]
    refuted, nodrv, knownhit = [], [], set()
    for n, (D, r) in dres.items():
        if r is None:
            nodrv.append(n)
            continue
        knownhit |= set(r["known"])
        if r["rc"] != 0:
            refuted.append((n, D, r))
    # --- an obligation failed but the first run found no failing input: search longer on the real code
    if failed and not refuted:
        for n, (D, r) in dres.items():
            if r is None:
                continue
            for k in range(4):
                r2 = D.run(seed + 101 + k, 25, True, kn)
                knownhit |= set(r2["known"])
                if r2["rc"] != 0:
                    refuted.append((n, D, r2))
                    break
            if refuted:
                break
    nv = 0
    for k, txt in known:
        if k in knownhit:
            print("KNOWN-FINDING: property=%s %s" % (pid, txt))
    rp = os.path.join(replaydir, "%s.txt" % pid)
    if refuted or failed:
        with open(rp, "w") as f:
            f.write("property %s: %s\n\n" % (pid, getattr(m, "TITLE", "")))
            for x in failed:
                f.write("FAILED OBLIGATION %s | %s | source line %s | %s (part %s)\n  goal: %s\n  solver: %s\n\n" % (
                    x["fn"], x["obligation"], x.get("line"), x["result"], x["part"], x.get("goal", ""), x.get("solver_output", "")))
            for n, D, r in refuted:
                f.write("FAILING CASE on the real code (driver %s, seed %d, exit %d)\n  case: %s\n  output (tail):\n%s\n" % (n, r["seed"], r["rc"], r["case"], r["out"][-6000:]))
    if refuted:
        nv = len(refuted)
        n, D, r = refuted[0]
        fl = [l for l in r["out"].split("\n") if l.startswith("FAIL") or "ERROR: AddressSanitizer" in l or "runtime error" in l or "Assertion" in l]
        print("failing case (%s): %s\n%s" % (n, r["case"][:1500], "\n".join(fl[:5])))
        for x in failed[:10]:
            print("failed obligation: %s | %s" % (x["fn"], x["obligation"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    elif failed:
        nv = len(failed)
        for x in failed[:10]:
            print("failed obligation: %s | %s | line %s | %s" % (x["fn"], x["obligation"], x.get("line"), x["result"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
    elif os.path.exists(rp):
        os.unlink(rp)
    for x in uns:
        print("not under proof on this tree: %s: %s" % (x["fn"], x["why"][:300]))
    for x in vac:
        print("vacuous assumptions: %s: %s" % (x["fn"], x["label"]))
    for n in nodrv:
        print("driver %s does not compile against this tree" % n)
    tot = sum(r["obligations"] for r in results.values())
    dis = sum(r["discharged"] for r in results.values())
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(m, "LEVEL", "proof"),
          "coverage": {"obligations": tot, "discharged": dis,
                       "checker_cmd": "python3 /verif/check.py %s --tier %s" % (pid, tier),
                       "trusted_base": getattr(m, "TRUSTED", []),
                       "functions_under_contract": [dict(f, part=k) for k, r in results.items() for f in r["functions"]],
                       "back_ends": {k: r["backends"] for k, r in results.items()},
                       "solver_time_s": round(sum(r["solver_time"] for r in results.values()), 2),
                       "not_under_proof": uns, "failed_obligations": [{a: x.get(a) for a in ("fn", "obligation", "line", "result", "part")} for x in failed],
                       "vacuous_probes": vac, "vacuity_probes_run": sum(r.get("probes", 0) for r in results.values()),
                       "inlined": {k: r["inlined"] for k, r in results.items()},
                       "contracts_trusted": {k: r["trusted"] for k, r in results.items() if r["trusted"]},
                       "bounded_standins": getattr(m, "BOUNDED", []),
                       "drivers": [{"name": n, "exit": r["rc"] if r else None, "time_s": round(r["time"], 1) if r else None,
                                    **((r or {}).get("stats") or {})} for n, (D, r) in dres.items()]},
          "assumptions": getattr(m, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 1), "violations": nv}
    evs = [r["stats"] for n, (D, r) in dres.items() if r and r["stats"]]
    if evs:
        ev["coverage"]["evaluations"] = sum(x["evaluations"] for x in evs)
        ev["coverage"]["distinct_nontrivial"] = sum(x["distinct_nontrivial"] for x in evs)
        ev["coverage"]["rule"] = " / ".join(x["rule"] for x in evs)
        ev["coverage"]["samples"] = [s for x in evs for s in x["samples"][:2]]
    json.dump(ev, open(os.path.join(VERIF, "evidence", "%s.json" % pid), "w"), indent=1)
    print("%s %s: %d/%d obligations discharged, %d functions, drivers: %s, %.0f s" % (
        pid, tier, dis, tot, sum(len(r["functions"]) for r in results.values()),
        ", ".join("%s rc=%s evals=%s" % (n, r["rc"] if r else "nocompile", (r["stats"] or {}).get("evaluations") if r else None) for n, (D, r) in dres.items()), time.time() - t0))
    if nv:
        return 1
    if vac:
        return 3
    if nodrv and uns:
        return 3
    if nodrv and not proofs and not cbmcs:
        return 3
    for n, (D, r) in dres.items():
        if r and r["rc"] == 0 and not r["stats"]:
            return 3
    return 0


if __name__ == "__main__":
    main()
