#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: does the code under /repo still have the property?
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: the check itself failed"""
import importlib.util, json, os, re, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib

SDK_RULE = "the requests and answers met while replaying the behaviours of the Quint specification are kept, a few of every shape (with variants: arguments left out, zeros, empty values); an evaluation is one request put to one of the SDK's classes or hooks and compared with what the contract has to receive (N01), or one typed use of the SDK compiled (N02); distinct by request"

def catalog():
    spec = importlib.util.spec_from_file_location("catalog", os.path.join(lib.ROOT, "tools", "catalog.py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m

def known(pid):
    """finding: property=<id> match=<regular expression on the alarm> -- text"""
    out = []
    path = os.path.join(lib.ROOT, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\w+) match=/(.*?)/ (.*)", line)
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3).strip()))
    return out

def main():
    pid, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cat = catalog()
    p = next(x for x in cat.PROPS if x["id"] == pid)
    with lib.Lock():
        lib.build()
        files = lib.corpora(p["models"], tier, seed, 500 if tier == "quick" else None)
        small = [x for m in p["models"] for x in lib.exhaustive(m)] if tier == "thorough" else []
    flat = [f for m in p["models"] for f in files[m]]
    if p["id"] in ("N01", "N02"):
        rep, found, counts, more = lib.through_sdk([f for m in p["models"] if m != "sdk" for f in files[m]], files.get("sdk", []), tier == "quick")
        rep["alarms"] = found[pid]
        rep["stats"]["cover"] = {pid: {"evaluations": counts[pid], "distinct": more["requests"] if pid == "N01" else counts[pid], "samples": more.pop("samples")}}
        rep["stats"]["sdk"] = more
    else:
        rep = lib.replay(flat, ["--only", pid], tier == "quick")
    if rep["stats"]["traces"] == 0:
        raise lib.ToolError("nothing was replayed")
    alarms = [a for a in rep["alarms"] if pid in a["properties"]]
    fresh, quiet = [], {}
    ks = known(pid)
    for a in alarms:
        k = next((t for r, t in ks if r.search(a["what"])), None)
        if k is None:
            fresh.append(a)
        else:
            quiet[k] = quiet.get(k, 0) + 1
    cov = rep["stats"]["cover"].get(pid, {"evaluations": 0, "distinct": 0, "samples": []})
    st = {k: v for k, v in rep["stats"].items() if k not in ("cover",)}
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": cat.LEVEL.get(pid, "exploration"),
        "coverage": {
            "evaluations": cov["evaluations"],
            "distinct_nontrivial": cov["distinct"],
            "rule": SDK_RULE if pid in ("N01", "N02") else "behaviours are generated by simulating the Quint specification (spec/) with seeded environments and replayed into the real code; an evaluation is one replayed step (or query walk) that puts this property to the test - an operation it speaks about that is accepted, or refused for a reason it speaks about - and it is distinct by the pair of state before and operation",
            "samples": cov["samples"] or ["none"],
            "traces_validated_against_impl": rep["stats"]["traces"],
            "transitions": rep["stats"]["steps"],
            "states_compared": rep["stats"]["states_compared"],
            "all": st,
            "exhaustive_small_instances_of_the_specification": small,
        },
        "assumptions": [
            "the chain around the contracts (bank, token factory, pool manager, block time, atomic transactions) behaves like the miniature one in harness/src/chain.rs",
            "outcomes and effects are observed through entry points, queries and balances",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(lib.ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(lib.ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for t, n in quiet.items():
        print(f"KNOWN-FINDING: property={pid} {t} ({n} cases kept)")
    print(f"{pid}: {rep['stats']['traces']} behaviours, {rep['stats']['steps']} steps, {cov['evaluations']} evaluations of this property, {len(fresh)} violations, {ev['wall_s']} s")
    if fresh:
        os.makedirs(os.path.join(lib.ROOT, "work"), exist_ok=True)
        path = os.path.join(lib.ROOT, "work", f"violation-{pid}.json")
        with open(path, "w") as f:
            json.dump(fresh, f, indent=1)
        for a in fresh[:3]:
            print("  " + a["trace"] + " step " + str(a["step"]) + ": " + a["what"][:600])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if rep["harness_errors"]:
        raise lib.ToolError("harness: " + "; ".join(rep["harness_errors"][:3]))
    if cov["evaluations"] == 0:
        raise lib.ToolError("the behaviours never put this property to the test")
    return 0

if __name__ == "__main__":
    try:
        sys.exit(main())
    except lib.ToolError as e:
        print("ERROR: " + str(e))
        sys.exit(2)
