"""main: run the check of a property (all its sub-checks, in parallel), or replay a saved case."""
import importlib
import json
import multiprocessing
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIME_LIMIT = {"quick": 780, "thorough": 6 * 3600}


def load(prop):
    from . import core
    for name in sorted(os.listdir(os.path.join(os.path.dirname(__file__), "props"))):
        if name.lower().startswith(prop.lower() + "_") and name.endswith(".py"):
            mod = importlib.import_module("vp.props." + name[:-3])
            return mod, core.REGISTRY[prop]
    raise SystemExit("no check for property " + prop)


def check_import():
    from . import core
    import cameratransform
    path = os.path.realpath(cameratransform.__file__)
    if not path.startswith(core.REPO + os.sep):
        print("cameratransform is imported from", path, "instead of", core.REPO)
        sys.exit(2)


def _work(args):
    prop, name, seed, examples = args
    from . import core
    chk = [c for c in core.REGISTRY[prop] if c.name == name][0]
    t = time.time()
    stats = core.search(chk, seed, examples)
    stats["wall"] = time.time() - t
    return args, stats


def write_replay(prop, name, seed, stats):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s_%s.json" % (prop, name))
    v = stats["violation"]
    data = dict(property=prop, check=name, seed=seed, message=v["message"], case=v["case"])
    if not v["alone"]:
        data["history"] = [json.loads(t) for t in stats["history"]]
    with open(path, "w") as fp:
        json.dump(data, fp, indent=1)
    return path


def run(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    check_import()
    mod, checks = load(prop)
    only = os.environ.get("VP_ONLY")
    if only:
        checks = [c for c in checks if c.name in only.split(",")]
    scale = float(os.environ.get("VP_SCALE", "1"))
    jobs = []
    for c in checks:
        n = int((c.quick if tier == "quick" else c.thorough) * scale)
        shards = c.shards if tier == "quick" else max(8, c.shards)
        shards = max(1, min(shards, n))
        for s in range(shards):
            jobs.append((n // shards, (prop, c.name, seed * 1009 + 101 * s + 7, max(1, n // shards))))
    jobs.sort(key=lambda j: -j[0])
    jobs = [j[1] for j in jobs]
    totals = {c.name: dict(evaluations=0, hashes=set(), labels={}, samples=[], wall=0.0) for c in checks}
    violation = error = None
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(int(os.environ.get("VP_PROCS", "8")), len(jobs)), maxtasksperchild=1) as pool:
        it = pool.imap_unordered(_work, jobs)
        for _ in jobs:
            left = TIME_LIMIT[tier] - (time.time() - t0)
            try:
                (p, name, s, n), stats = it.next(timeout=max(1, left))
            except multiprocessing.TimeoutError:
                error = "inconclusive: time limit reached"
                break
            t = totals[name]
            t["evaluations"] += stats["evaluations"]
            t["hashes"] |= stats["nontrivial_hashes"]
            t["wall"] += stats["wall"]
            for k, v in stats["labels"].items():
                t["labels"][k] = t["labels"].get(k, 0) + v
            if len(t["samples"]) < 2:
                t["samples"] += stats["samples"][:2 - len(t["samples"])]
            if stats["error"]:
                error = "%s: %s" % (name, stats["error"])
                break
            if stats["violation"]:
                violation = (name, s, stats)
                break
        pool.terminate()
    distinct = sum(len(t["hashes"]) for t in totals.values())
    samples = [dict(check=n, case=c) for n, t in totals.items() for c in t["samples"]]
    evidence = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=sum(t["evaluations"] for t in totals.values()),
            distinct_nontrivial=distinct,
            rule="; ".join("%s: %s" % (c.name, c.rule) for c in checks),
            samples=samples[:8],
            per_check={n: dict(evaluations=t["evaluations"], distinct_nontrivial=len(t["hashes"]),
                               classes=dict(sorted(t["labels"].items())), cpu_s=round(t["wall"], 1))
                       for n, t in totals.items()},
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2),
        violations=1 if violation else 0,
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not only and not os.environ.get("VP_NOFILES"):
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fp:
            json.dump(evidence, fp, indent=1)
    for n, t in totals.items():
        print("%s %-32s evaluations %6d  distinct non-trivial %6d  cpu %5.1f s  %s" % (
            prop, n, t["evaluations"], len(t["hashes"]), t["wall"], dict(sorted(t["labels"].items()))))
    if violation:
        name, s, stats = violation
        path = "" if os.environ.get("VP_NOFILES") else write_replay(prop, name, s, stats)
        print("%s: %s" % (name, stats["violation"]["message"]))
        print("case: %s" % json.dumps(stats["violation"]["case"])[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if error:
        print("ERROR of the check (no verdict): %s" % error)
        return 2
    print("%s holds on everything explored (%d evaluations, %.1f s)" % (prop, evidence["coverage"]["evaluations"], time.time() - t0))
    return 0


def replay(path):
    from . import core
    check_import()
    with open(path) as fp:
        data = json.load(fp)
    load(data["property"])
    chk = [c for c in core.REGISTRY[data["property"]] if c.name == data["check"]][0]
    for case in data.get("history", []) + [data["case"]]:
        try:
            core.run_case(chk, case)
        except core.Violation as err:
            print("%s: %s" % (chk.name, err))
            print("VIOLATION property=%s replay=%s" % (data["property"], path))
            return 1
    print("the case passes")
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
