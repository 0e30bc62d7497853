import argparse
import json
import os
import shutil
import signal
import sys
import time

from . import core, env


def jsonable(value, limit=2000):
    text = json.dumps(value, default=repr, ensure_ascii=True)
    if len(text) > limit:
        return text[:limit] + "..."
    return json.loads(text)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property", nargs="?")
    parser.add_argument("--setup", action="store_true", help="check that the environment can run the checks")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--replay")
    parser.add_argument("--workers", type=int, default=int(os.environ.get("MC_WORKERS", "0")))
    parser.add_argument("--budget", type=float, default=0)
    args = parser.parse_args()
    if args.setup:
        env.bind()
        import bs4, jinja2, numpy, pandas        # noqa: the packages the checks need
        print("python %s, code under test in %s" % (sys.version.split()[0], env.REPO))
        return 0
    prop = args.property.upper()
    tier = "thorough" if args.tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    home = env.HOME
    start = time.time()
    try:
        env.bind()
        module = core.load(prop)
        failure = None
    except Exception as exc:
        # the code under test cannot even be imported: every property about it is broken
        import traceback
        module, failure = None, traceback.format_exc()
    replay_dir = os.path.join(home, "replays", prop)
    if args.replay:
        if module is None:
            print(failure)
            return 1
        with open(args.replay, encoding="utf-8") as src:
            recorded = json.load(src)
        ctx = core.Context(prop, tier, "replay")
        signal.signal(signal.SIGALRM, core._alarm)
        try:
            ctx.case(recorded["case"], module.replay, ctx, recorded["case"])
        except core.Enough:
            pass
        for v in ctx.violations:
            print(json.dumps(v, indent=1, default=repr, ensure_ascii=False))
        print("REPRODUCED" if ctx.violations else "NOT REPRODUCED")
        return 1 if ctx.violations else 0

    shutil.rmtree(replay_dir, ignore_errors=True)
    os.makedirs(replay_dir, exist_ok=True)
    workers = args.workers or min(8, os.cpu_count() or 1)
    budget = args.budget or (800 if tier == "quick" else 6 * 3600)
    if module is None:
        total = {"states": 0, "transitions": 0, "traces": 0, "counters": {}, "outcomes": {}, "samples": [],
                 "shards": 0, "shards_done": 0, "complete": False, "slowest_shard_s": 0,
                 "violations": [{"property": prop, "what": "the code under test cannot be imported",
                                 "key": "import", "case": None, "detail": {"traceback": failure}, "shard": ""}]}
    else:
        try:
            total = core.explore(module, tier, seed, workers, budget)
        except RuntimeError as exc:
            print(exc)
            return 2

    known = core.known_findings(home)
    bad, listed = [], []
    for v in total["violations"]:
        note = known.get((prop, v["key"]))
        if note is None:
            bad.append(v)
        elif note not in listed:
            listed.append(note)
    for note in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, note))
    for i, v in enumerate(bad[:core.STOP_AFTER]):
        path = os.path.join(replay_dir, "%02d.json" % i)
        v["command"] = "%s/run.sh %s --replay %s" % (home, prop, path)
        with open(path, "w", encoding="utf-8") as out:
            json.dump(v, out, indent=1, default=repr, ensure_ascii=False)
        print("  %s\n    case %s" % (v["what"], json.dumps(v["case"], default=repr)[:600]))
        if v["detail"]:
            print("    detail %s" % json.dumps(v["detail"], default=repr, ensure_ascii=False)[-1500:])
        print("VIOLATION property=%s replay=%s" % (prop, path))

    wall = time.time() - start
    coverage = {
        "states": total["states"],
        "transitions": total["transitions"],
        "traces_validated_against_impl": total["traces"],
        "samples": [jsonable(s) for s in total["samples"][:6]] or [None],
        "exhaustive": bool(total["complete"]),
        "bounds": module.BOUNDS.get(tier, "") if module else "",
        "rule": module.RULE if module else "",
        "counters": total["counters"],
        "outcomes": dict(sorted(total["outcomes"].items(), key=lambda kv: -kv[1])[:60]),
        "distinct_outcomes": len(total["outcomes"]),
        "shards": total["shards"],
        "shards_done": total["shards_done"],
        "slowest_shard_s": total["slowest_shard_s"],
        "workers": workers,
    }
    os.makedirs(os.path.join(home, "evidence"), exist_ok=True)
    evidence = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": coverage,
                "assumptions": list(getattr(module, "ASSUMPTIONS", [])), "wall_s": round(wall, 2),
                "violations": len(bad)}
    with open(os.path.join(home, "evidence", "%s.json" % prop), "w", encoding="utf-8") as out:
        json.dump(evidence, out, indent=1, default=repr)
    print("%s %s: %s; %d states, %d transitions, %d traces on the implementation, %d/%d shards, %.1f s" % (
        prop, tier, "VIOLATED" if bad else "held", total["states"], total["transitions"], total["traces"],
        total["shards_done"], total["shards"], wall))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
