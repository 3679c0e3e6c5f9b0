"""Entry point of every check: run the scenarios of one property, decide, write evidence."""
import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

from vmon import core

HERE = core.HERE


def load_checks(prop):
    mod = None
    base = os.path.join(HERE, "vmon", "checks")
    for name in sorted(os.listdir(base)):
        if name.startswith("c") and name.endswith(".py") and prop.lower() in name[:-3].split("_"):
            mod = importlib.import_module("vmon.checks." + name[:-3])
    return mod


def known_findings(prop):
    out = {}
    path = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith(("#", "fixed:")):
                rec = json.loads(line)
                if rec["property"] == prop:
                    out[rec["key"]] = rec["what"]
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--shard")
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=0)
    args = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = args.prop

    only = None
    if args.replay:
        rep = json.load(open(args.replay))
        seed, args.tier = rep["seed"], rep["tier"]
        only = (rep["scenario"], rep["index"])

    if not args.shard and not only and args.jobs != 1:
        return parent(args, prop, seed)

    if not load_checks(prop):
        print(f"no check for {prop}", file=sys.stderr)
        return 2
    try:  # an endless loop that allocates ends in a MemoryError of its own process
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    except Exception:
        pass
    shard = tuple(int(x) for x in args.shard.split("/")) if args.shard else (0, 1)
    budget = 240 if args.tier == "quick" else 660
    if core.FAST:
        core.KNOWN = tuple(known_findings(prop))
        core.CASE_LIMIT = 60
        budget = float(core.FAST)
    ctx, wall = core.run_scenarios(prop, args.tier, seed, shard, only, budget)
    data = {
        "cases": ctx.cases, "oracle": ctx.oracle_evaluations, "events": ctx.events,
        "distinct": [d.hex() for d in ctx.distinct], "samples": ctx.samples,
        "violations": ctx.violations, "inconclusive": ctx.inconclusive,
        "per_scenario": ctx._scn_cases, "wall": wall,
        "rule": core.RULES.get(prop, ""), "assumptions": core.ASSUMPTIONS.get(prop, []),
    }
    if args.out:
        json.dump(data, open(args.out, "w"))
        return 0
    return decide(prop, args.tier, seed, data, write=only is None and not core.FAST)


def parent(args, prop, seed):
    jobs = args.jobs or (core.QUICK_SHARDS if args.tier == "quick" else min(8, os.cpu_count() or 1))
    start = time.time()
    with tempfile.TemporaryDirectory(prefix="vmon_") as tmp:
        procs = []
        for k in range(jobs):
            out = os.path.join(tmp, f"{k}.json")
            cmd = [sys.executable, "-W", "ignore", "-m", "vmon.main", prop, "--tier", args.tier,
                   "--shard", f"{k}/{jobs}", "--out", out]
            procs.append((subprocess.Popen(cmd, cwd=HERE), out))
        merged = None
        bad = 0
        for proc, out in procs:
            rc = proc.wait()
            if rc or not os.path.exists(out):
                bad += 1
                continue
            d = json.load(open(out))
            if merged is None:
                merged = d
                merged["distinct"] = set(d["distinct"])
                continue
            for f in ("cases", "oracle"):
                merged[f] += d[f]
            for f in ("events", "inconclusive", "per_scenario"):
                for key, val in d[f].items():
                    merged[f][key] = merged[f].get(key, 0) + val
            merged["distinct"] |= set(d["distinct"])
            merged["samples"] += d["samples"]
            for key, val in d["violations"].items():
                merged["violations"].setdefault(key, val)
        if merged is None or (bad and not set(merged["violations"]) - set(known_findings(prop))):
            print(f"{bad} shards failed", file=sys.stderr)
            return 3
    merged["distinct"] = list(merged["distinct"])
    merged["samples"] = merged["samples"][:12]
    merged["wall"] = time.time() - start
    return decide(prop, args.tier, seed, merged)


def decide(prop, tier, seed, d, write=True):
    known = known_findings(prop)
    fresh = {}
    for key, rec in d["violations"].items():
        if key in known:
            print(f"KNOWN-FINDING: property={prop} {known[key]} [{key}; x{rec['count']}]")
        else:
            fresh[key] = rec
    coverage = {
        "evaluations": d["cases"],
        "distinct_nontrivial": len(d["distinct"]),
        "rule": d["rule"],
        "samples": d["samples"] or ["none"],
        "oracle_evaluations": d["oracle"],
        "monitored_events": d["events"],
        "cases_per_scenario": d["per_scenario"],
    }
    if d["inconclusive"]:
        coverage["inconclusive_cases"] = d["inconclusive"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": coverage, "wall_s": round(d["wall"], 2),
        "assumptions": d["assumptions"], "violations": len(fresh),
    }
    if write:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print(f"{prop} {tier} seed={seed}: cases={d['cases']} oracle={d['oracle']} "
          f"distinct={len(d['distinct'])} events={sum(d['events'].values())} "
          f"wall={d['wall']:.1f}s violations={len(fresh)}"
          + (f" inconclusive={d['inconclusive']}" if d["inconclusive"] else ""))
    if not fresh:
        return 0
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for n, (key, rec) in enumerate(sorted(fresh.items())):
        safe = "".join(c if c.isalnum() else "_" for c in key)[:60]
        path = os.path.join(HERE, "replays", f"{prop}_{safe}.json")
        with open(path, "w") as f:
            json.dump(dict(rec, property=prop), f, indent=1, default=str)
        print(f"  [{key}] x{rec['count']} {rec['message']} :: "
              f"{rec['scenario']}#{rec['index']} {json.dumps(rec['detail'], default=str)[:700]}")
        print(f"VIOLATION property={prop} replay={path}")
    return 1


if __name__ == "__main__":
    sys.exit(main())
