"""Engines behind check.py."""
import json, os, subprocess, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(HERE, ".build")
TOOLCHAIN = "nightly-2025-08-20"

class EngineError(Exception): pass

def toolchain_env():
    env = dict(os.environ)
    env["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    env["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTC", "RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER"): env.pop(k, None)
    r = subprocess.run(["rustc", "--print", "sysroot"], env=env, capture_output=True, text=True, cwd=HERE)
    if r.returncode != 0: raise EngineError("rustc: " + r.stderr)
    env["FLOWMC_SYSROOT"] = r.stdout.strip()
    env["LD_LIBRARY_PATH"] = env["FLOWMC_SYSROOT"] + "/lib"
    return env

def build_flowmc(env):
    d = os.path.join(HERE, "flowmc")
    r = subprocess.run(["cargo", "-Zchecksum-freshness", "build", "--offline", "--locked", "--target-dir", os.path.join(BUILD, "flowmc")],
                       cwd=d, env=env, capture_output=True, text=True)
    if r.returncode != 0: raise EngineError("flowmc does not build against /repo:\n" + r.stderr[-4000:])
    traits = os.path.join(BUILD, "traits")
    os.makedirs(traits, exist_ok=True)
    r = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "rlib", "--crate-name", "flowistry_ifc_traits",
                        os.path.join(REPO, "crates/flowistry_ifc_traits/src/lib.rs"), "--out-dir", traits], cwd=d, env=env, capture_output=True, text=True)
    if r.returncode != 0: raise EngineError("flowistry_ifc_traits does not build:\n" + r.stderr[-2000:])
    env["FLOWMC_TRAITS"] = traits
    env["NO_COLOR"] = "1"
    return os.path.join(BUILD, "flowmc", "debug", "flowmc")

def flowmc(prop, tier):
    env = toolchain_env()
    exe = build_flowmc(env)
    env["VERIF_TIER"] = tier
    r = subprocess.run([exe, "check", prop], env=env, capture_output=True, text=True, cwd=BUILD)
    if r.returncode != 0: raise EngineError("flowmc exited with %d\n%s" % (r.returncode, r.stderr[-2000:]))
    res = json.loads(r.stdout.strip().splitlines()[-1])
    if not res["ok"] and not res["violations"]: raise EngineError("a flowmc worker died: " + json.dumps(res.get("died")))
    tot = {}
    for c in res["families"].values():
        for k, v in c.items(): tot[k] = tot.get(k, 0) + v
    if tot.get("checked", 0) == 0 and not res["violations"]: raise EngineError("nothing was explored")
    p = PROPS[prop]
    cov = {"programs": tot.get("programs", 0), "programs_rejected_by_rustc": tot.get("rejected_by_rustc", 0),
           "programs_outside_interpreter": tot.get("unsupported", 0), "programs_checked": tot.get("checked", 0)}
    for k, v in tot.items():
        if k not in ("programs", "rejected_by_rustc", "unsupported", "checked", "cpu_ms"): cov[k] = v
    if p["level"] == "model_checking":
        cov["states"] = tot.get("states", tot.get("transitions", 0) + tot.get("executions", 0))
        cov["transitions"] = tot.get("transitions", 0)
        cov["traces_validated_against_impl"] = tot.get("comparisons", 0)
    else:
        cov["evaluations"] = tot.get("evaluations", 0)
        cov["distinct_nontrivial"] = tot.get("nontrivial", 0)
    cov["rule"] = p["rule"]
    cov["samples"] = res["samples"][:6]
    cov["exhaustive_within_bounds"] = True
    cov["unsupported"] = res["unsupported"]
    cov["families"] = res["families"]
    viols = []
    for v in res["violations"]:
        src = v["src"].strip()
        body = src[src.index("{"):] if v["family"] not in ("probes",) and "{" in src else src
        for key, detail in v["viols"]:
            viols.append({"key": "%s | %s | %s" % (v["family"], body, key),
                          "text": "%s\n%s\n%s: %s" % (v["prelude"].strip(), src, key, detail)})
    return {"coverage": cov, "violations": viols}

# what of idemc decides a property: schedules of the named configurations, judged by these keys; or modules which enumerate cases
IDEMC = {
    "C19": {"schedules": "one,places,split,odd", "keys": {"off", "stale", "fresh", "crash"}},
    "C20": {"schedules": "errors,faults,one,odd", "keys": {"status", "off", "crash"}},
    "C21": {"schedules": "marks", "keys": {"off", "stale", "fresh", "select", "crash"}},
    "C22": {"cases": "lookup.cjs"},
    "C23": {"cases": "outcomes.cjs"},
    "C24": {"cases": "activate.cjs"},
    "C26": {"cases": "e2e.cjs", "prepare": "C26"},
}

def real_answers(prop, tier):
    """What the real plugin prints for every text and position, one file per worker."""
    env = toolchain_env()
    exe = build_flowmc(env)
    env["VERIF_TIER"] = tier
    n = min(os.cpu_count() or 1, 8)
    d = os.path.join(BUILD, "answers." + prop)
    os.makedirs(d, exist_ok=True)
    files = [os.path.join(d, "%d.jsonl" % i) for i in range(n)]
    ps = []
    for i, f in enumerate(files):
        with open(f, "w") as out: ps.append(subprocess.Popen([exe, "worker", prop, str(i), str(n)], env=env, stdout=out, stderr=subprocess.PIPE, text=True, cwd=BUILD))
    for i, p in enumerate(ps):
        err = p.communicate()[1]
        if p.returncode != 0: raise EngineError("flowmc worker %d exited with %d\n%s" % (i, p.returncode, err[-2000:]))
    return files

def idemc(prop, tier):
    spec = IDEMC[prop]
    env = dict(os.environ)
    env["VERIF_TIER"] = tier
    for k in ("IDE_ROOT", "DEPTH", "LIMIT", "IDEMC_LIMIT", "NODE_OPTIONS"): env.pop(k, None)
    if "prepare" in spec: env["ANSWERS"] = ",".join(real_answers(spec["prepare"], tier))
    cmd = ["node", "run.cjs", spec["schedules"]] if "schedules" in spec else ["node", "enum.cjs", spec["cases"]]
    r = subprocess.run(cmd, cwd=os.path.join(HERE, "idemc"), env=env, capture_output=True, text=True)
    if r.returncode != 0: raise EngineError("idemc exited with %d\n%s" % (r.returncode, r.stderr[-3000:]))
    res = json.loads(r.stdout.strip().splitlines()[-1])
    p = PROPS[prop]
    keys = spec.get("keys")
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": p["rule"], "samples": [], "exhaustive": True, "parts": {}}
    viols = []
    for name, t in sorted(res.items()):
        if "schedules" in spec:
            cov["evaluations"] += t["executions"]
            cov["distinct_nontrivial"] += t["shown"]
            cov["transitions"] = cov.get("transitions", 0) + t["steps"]
            cov["parts"][name] = {"depth": t["depth"], "schedules": t["executions"], "steps": t["steps"]}
            if t.get("cut"): cov["exhaustive"] = False
        else:
            cov["evaluations"] += t["evaluations"]
            cov["distinct_nontrivial"] += t["nontrivial"]
            cov["parts"][name] = {"cases": t["cases"], "evaluations": t["evaluations"]}
        cov["samples"] += [{"part": name, "case": s} for s in t["samples"][:2]]
        for v in t["problems"]:
            if keys and v["key"] not in keys: continue
            at = " ".join(v["path"]) if "path" in v else v["at"]
            viols.append({"key": "%s | %s | %s" % (name, at, v["key"]), "text": "%s: %s\n%s: %s" % (name, at, v["key"], v["text"])})
    if cov["evaluations"] == 0 and not viols: raise EngineError("nothing was explored")
    return {"coverage": cov, "violations": viols}

def cargo_histories(prop, tier):
    import cargomc
    env = dict(toolchain_env(), CARGO_PROFILE_DEV_DEBUG="0", CARGO_INCREMENTAL="0")
    r = subprocess.run(["cargo", "-Zchecksum-freshness", "build", "--offline", "--locked", "-p", "flowistry_ide", "-p", "flowistry_ifc", "--target-dir", os.path.join(BUILD, "bins")],
                       cwd=REPO, env=env, capture_output=True, text=True)
    if r.returncode != 0: raise EngineError("the commands do not build:\n" + r.stderr[-4000:])
    for k in ("CARGO_PROFILE_DEV_DEBUG", "CARGO_INCREMENTAL"): env.pop(k)
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": PROPS[prop]["rule"], "samples": [], "exhaustive": True, "parts": {}}
    viols = []
    for i, spec in enumerate(cargomc.BOUNDS[tier]):
        t = cargomc.explore(env, os.path.join(BUILD, "bins", "debug"), os.path.join(REPO, "crates/flowistry_ifc_traits"), os.path.join(BUILD, "histories"), spec)
        cov["evaluations"] += t["requests"]
        cov["distinct_nontrivial"] += t["nontrivial"]
        cov["parts"]["part %d, %d steps" % (i + 1, len(spec))] = {"histories": t["histories"], "requests": t["requests"]}
        cov["samples"] += t["samples"][:3]
        for v in t["problems"]:
            at = " ; ".join(v["path"])
            viols.append({"key": "%s | %s" % (at, v["key"]), "text": "%s\n%s: %s" % (at, v["key"], v["text"])})
    if cov["evaluations"] == 0 and not viols: raise EngineError("nothing was explored")
    return {"coverage": cov, "violations": viols}

ENGINES = {"flowmc": flowmc, "idemc": idemc, "cargomc": cargo_histories}
def run_engine(prop, tier):
    os.makedirs(BUILD, exist_ok=True)
    return ENGINES[PROPS[prop]["engine"]](prop, tier)

from props import PROPS
