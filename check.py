#!/usr/bin/env python3
"""Run one registered check: build its engine from /repo's working tree, explore, judge, write evidence.

usage: check.py <property> [--tier quick|thorough]
exit 0: property held on everything explored (known findings are printed, not raised)
exit 1: a line VIOLATION property=<id> replay=<path>
exit 3: the check itself failed (build error, engine crash, nothing explored)
"""
import json, os, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
from engines import PROPS, run_engine, EngineError
HERE = os.path.dirname(os.path.abspath(__file__))

def known(prop):
    """known_findings.txt: `finding: property=<id> key=<json string> -- <what fails>` / `fixed: ...` lines."""
    out = {}
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            if not line.startswith("finding: property=%s " % prop): continue
            rest = line.split(" key=", 1)[1]
            dec = json.JSONDecoder()
            key, end = dec.raw_decode(rest)
            out[key] = rest[end:].strip().lstrip("-").strip()
    return out

def main():
    if sys.argv[1] == "--setup":
        # nothing to keep: every check builds from /repo's working tree; see that the tools are there
        subprocess.run(["cargo", "--version"], check=True); subprocess.run(["node", "--version"], check=True)
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        res = run_engine(prop, tier)
    except EngineError as e:
        print("check error: %s" % e, flush=True)
        return 3
    kf = known(prop)
    new, seen = [], {}
    for v in res["violations"]:
        if v["key"] in kf: seen.setdefault(v["key"], v)
        else: new.append(v)
    for k in sorted(seen): print("KNOWN-FINDING: property=%s %s" % (prop, kf[k]))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": PROPS[prop]["level"], "coverage": res["coverage"],
          "assumptions": PROPS[prop].get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if new:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", prop + ".txt")
        with open(path, "w") as f:
            for v in new[:20]:
                f.write("# key: %s\n%s\n\n" % (json.dumps(v["key"]), v["text"]))
            f.write("# replay: %s\n" % PROPS[prop]["replay"])
        print(new[0]["text"][:3000])
        print("%d violation(s) of %s" % (len(new), prop))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    print("%s held: %s" % (prop, json.dumps({k: v for k, v in res["coverage"].items() if isinstance(v, (int, bool))})))
    return 0

if __name__ == "__main__":
    sys.exit(main())
