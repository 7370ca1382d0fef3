"""CBMC code contracts (goto-instrument --dfcc) on the real C sources: one job = one contract file, several functions."""
import os, json, subprocess, re, time, concurrent.futures, hashlib
import cast


def sh(cmd, to, cwd=None):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=to, cwd=cwd)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace")


def run(c, work, out, REPO, VERIF):
    t0 = time.time()
    R = {"part": "cbmc:" + c["name"], "functions": [], "failed": [], "unsupported": [], "vacuous": [], "trusted": list(c.get("trusted", [])), "inlined": [],
         "lemmas": [], "obligations": 0, "discharged": 0, "solver_time": 0.0, "backends": {}, "probes": 0}
    wd = os.path.join(work, "cbmc_" + c["name"])
    os.makedirs(wd, exist_ok=True)
    gen = os.path.join(wd, "gen")
    os.makedirs(gen, exist_ok=True)
    cast.gen_config(gen)
    src = os.path.join(VERIF, "specs", "cbmc", c["src"])
    base = os.path.join(wd, "base.gb")
    inc = ["-I" + os.path.join(REPO, "src"), "-I" + REPO, "-I" + os.path.join(REPO, "third_party/common"), "-I" + os.path.join(REPO, "third_party/common/crc32"), "-I" + gen]
    rc, o = sh(["goto-cc", "-DVP_CBMC"] + inc + [src, "-o", base], 120)
    if rc != 0:
        R["unsupported"].append({"fn": "(%s)" % c["src"], "why": "goto-cc: " + o[-600:]})
        json.dump(R, open(out, "w"))
        return

    def job(j):
        t = time.time()
        gb = os.path.join(wd, j["harness"] + ".gb")
        cmd = ["goto-instrument", "--dfcc", j["harness"]]
        if not j.get("plain"):
            cmd += ["--enforce-contract", j["fn"]]
        for r in j.get("replace", c.get("replace", [])):
            cmd += ["--replace-call-with-contract", r]
        if j.get("loops"):
            cmd += ["--apply-loop-contracts"]
            if j.get("loopfile"):
                cmd += ["--loop-contracts-file", os.path.join(VERIF, "specs", "cbmc", j["loopfile"])]
        if j.get("plain"):
            cmd = ["goto-instrument", "--drop-unused-functions"]
        jb = os.path.join(wd, j["harness"] + ".base.gb")
        sh(["goto-cc", base, "--function", j["harness"], "-o", jb], 100)
        rc, o = sh(cmd + [jb, gb], 200)
        if rc != 0:
            return j, None, "goto-instrument: " + o[-800:], 0
        cmd = ["cbmc", gb, "--object-bits", str(j.get("object_bits", 10)), "--json-ui", "--slice-formula"] + j.get("opts", []) + c.get("opts", [])
        rc, o = sh(cmd, j.get("to", 300))
        if rc not in (0, 10):
            return j, None, "cbmc exit %d: %s" % (rc, o[-800:]), time.time() - t
        try:
            d = json.loads(o)
        except ValueError:
            return j, None, "cbmc output: " + o[-800:], time.time() - t
        res = [x["result"] for x in d if isinstance(x, dict) and "result" in x]
        return j, (res[0] if res else []), o, time.time() - t
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for j, res, o, dt in ex.map(job, c["jobs"]):
            R["solver_time"] += dt
            if res is None:
                R["unsupported"].append({"fn": j["fn"], "why": o[:900]})
                continue
            ok = 0
            bad = []
            n = 0
            for x in res:
                d = x.get("description", "")
                if j.get("vac") and x.get("property", "").startswith(j["vac"]):
                    continue
                if d.startswith("VACUITY"):
                    R["probes"] += 1
                    if x["status"] == "SUCCESS":
                        R["vacuous"].append({"fn": j["fn"], "label": d})
                    continue
                n += 1
                if x["status"] == "SUCCESS":
                    ok += 1
                else:
                    bad.append(x)
            R["obligations"] += n
            R["discharged"] += ok
            R["functions"].append({"fn": j["fn"], "obligations": n, "discharged": ok, "time_s": round(dt, 1)})
            be = "cbmc 6.11.0 (%s)" % ("cvc5" if "--cvc5" in j.get("opts", []) + c.get("opts", []) else "z3" if "--z3" in j.get("opts", []) else "MiniSat")
            R["backends"][be] = R["backends"].get(be, 0) + ok
            for x in bad:
                tr = x.get("trace") or []
                vals = []
                for s in tr:
                    if s.get("stepType") == "assignment" and not s.get("hidden") and s.get("value", {}).get("data") is not None:
                        vals.append("%s=%s" % (s.get("lhs"), s["value"]["data"]))
                R["failed"].append({"fn": j["fn"], "obligation": "%s: %s" % (x.get("property"), x.get("description")), "line": (x.get("sourceLocation") or {}).get("line"),
                                    "result": x["status"], "goal": "counterexample assignments: " + "; ".join(vals[-60:]), "solver_output": ""})
    R["wall_s"] = round(time.time() - t0, 1)
    json.dump(R, open(out, "w"), indent=1)
