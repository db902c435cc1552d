"""python -m sim.check PROPERTY [--tier quick|thorough]   (run in /verif)

Exit 0: the property held on every simulated run. Exit 1 with a VIOLATION line: it does not. Exit 2: the machinery failed."""
from . import boot
if __name__ == "__main__":
    boot.reexec_if_needed("sim.check")

import argparse
import hashlib
import importlib
import json
import os
import subprocess
import sys
import time

from . import core

KNOWN_FILE = os.path.join(boot.VERIF, "known-findings.json")


def load_world(prop):
    boot.load()
    return importlib.import_module("sim.props." + prop.lower()).WORLD


def known_findings(prop):
    with open(KNOWN_FILE) as f:
        data = json.load(f)
    return [k for k in data["known"] if k["property"] == prop]


def repo_rev():
    try:
        return subprocess.run(["git", "-C", boot.REPO, "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()
    except OSError:
        return ""


def write_replay(prop, seed, index, cls, message, plans, world, note):
    d = os.path.join(boot.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": prop, "class": cls, "message": message, "seed": seed, "run": index, "plans": plans,
            "note": note, "repo": repo_rev()}
    key = hashlib.sha256(json.dumps([prop, plans], sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.json" % (prop, key))

    def trace():
        out = None
        for i, p in enumerate(plans):
            sim, v = core.run_plan(world, p, record=(i == len(plans) - 1))
            if v is not None:
                out = {"message": v.message, "trace": sim.trace[-400:], "digest": sim.digest(),
                       "faults": dict(sim.faults)}
                break
        return out
    t = core.in_child(trace, 120)
    if t:
        body["message"] = t["message"]
        body["trace"] = t["trace"]
        body["faults"] = t["faults"]
        body["digest"] = t["digest"]
    with open(path, "w") as f:
        json.dump(body, f, indent=1, default=str)
    return path, body


def replay_in_fresh_process(path, timeout=180):
    env = boot.environment()
    env.pop("VERIF_BOOTED", None)
    try:
        p = subprocess.run([boot.PY, "-m", "sim.replay", path], cwd=boot.VERIF, env=env, capture_output=True, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        return False
    return p.returncode == 1 and "VIOLATION" in p.stdout


def report(prop, seed, tier, world, v, tier_budget):
    """Minimises the violation, writes its replay file and checks that a fresh process reproduces it."""
    index, cls = v["index"], v["cls"]
    gen = lambda i: world.generate(core.plan_rng(seed, prop, i), tier) if i >= 0 else world.directed()[-i - 1]
    plan = v["plan"] if "plan" in v else gen(index)
    note = ""
    single = core.in_child(lambda: core.outcome_of(world, [plan]), core.CPU_LIMIT + 20) == cls
    if single and cls == "unjudgeable":
        plans = [plan]   # (a shrunk plan might be one that the machinery cannot run)
        note = "not minimised"
    elif single:
        small, tried = core.shrink(world, plan, cls, tier_budget)
        plans = [small]
        note = "minimised (%d candidates tried)" % tried
    else:
        plans = [gen(i) for i in v["history"]]
        if core.in_child(lambda: core.outcome_of(world, plans), 300) == cls:
            plans = core.shrink_history(world, plans, cls, tier_budget)
            note = "depends on earlier runs in the same process; the earlier runs were minimised"
        else:
            note = "depends on earlier runs in the same process"
    path, body = write_replay(prop, seed, index, cls, v["message"], plans, world, note)
    if not replay_in_fresh_process(path) and single and plans != [plan]:
        path, body = write_replay(prop, seed, index, cls, v["message"], [plan], world, "not minimised")
    return path, body


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--wall", type=float)
    args = ap.parse_args()
    prop, tier = args.property, args.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.monotonic()
    print("property=%s tier=%s seed=%d repo=%s" % (prop, tier, seed, boot.REPO), flush=True)
    world = load_world(prop)
    n = args.runs or (world.quick_runs if tier == "quick" else world.thorough_runs)
    wall = args.wall or (150 if tier == "quick" else 1800)

    # known findings: shown as such while they last, never hiding any other violation
    findings = []
    for k in known_findings(prop):
        v = core.in_child(lambda: core.outcome_of(world, [k["plan"]]), 60)
        if v == k["class"]:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)
            findings.append(k["id"])
    sys.stdout.flush()

    result = None
    directed = world.directed()
    violations = []

    def run_directed():
        out = []
        for i, plan in enumerate(directed):
            sim, v = core.run_plan(world, plan)
            out.append((dict(sim.stats), dict(sim.faults), None if v is None else (v.cls, v.message)))
            if v is not None:
                break
        return out
    dres = core.in_child(run_directed, 60 + core.CPU_LIMIT * max(1, len(directed))) if directed else []
    errors = []
    if dres is None:
        errors.append("the directed scenarios crashed")
        dres = []
    for i, (st, fl, v) in enumerate(dres):
        if v is not None:
            violations.append({"index": -i - 1, "cls": v[0], "message": v[1], "history": [-j - 1 for j in range(i + 1)]})
    if not violations and not errors:
        sample = list(range(0, min(n, 24)))
        result = core.run_batch(world, prop, seed, tier, n, args.workers, wall, keep_digests=sample)
        violations = result["violations"]
        errors += result["errors"]
        if not violations and hasattr(world, "after_batch"):
            # whole-batch judgement (e.g. the same plans in other interpreters)
            v = world.after_batch(prop, seed, tier, result)
            if v is not None:
                violations = [v]
    t_runs = time.monotonic() - t0

    # determinism: a sample again, in another interpreter with another hash seed and in another order
    det = {"sampled": 0, "identical": 0}
    if result is not None and not violations and not errors and result["digests"]:
        env = boot.environment("4242")
        env["VERIF_BOOTED"] = "1"
        env["PYTHONPATH"] = boot.VERIF
        p = subprocess.run([boot.PY, "-W", "ignore", "-m", "sim.digests", prop, tier, str(seed)]
                           + [str(i) for i in sorted(result["digests"], reverse=True)],
                           cwd=boot.VERIF, env=env, capture_output=True, text=True, timeout=300)
        try:
            other = {int(k): v for k, v in json.loads(p.stdout.strip().splitlines()[-1]).items()}
            det["sampled"] = len(other)
            det["identical"] = sum(1 for k in other if other[k] == result["digests"][k])
        except (ValueError, IndexError):
            det["error"] = (p.stderr or p.stdout)[-300:]

    code = 0
    for v in violations[:1]:
        if "path" in v:
            path, body = v["path"], {"message": v["message"]}
        else:
            path, body = report(prop, seed, tier, world, v, 25 if tier == "quick" else 120)
        print("violation class=%s run=%s seed=%d" % (v["cls"], v["index"], seed))
        print(body["message"][:2000])
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        code = 1
    if code == 0 and errors:
        for e in errors[:3]:
            print("ERROR", e, file=sys.stderr)
        code = 2
    if code == 0 and result["capped"] and result["runs"] < max(20, n // 20):
        print("ERROR only %d of %d runs fitted into the wall-clock cap" % (result["runs"], n), file=sys.stderr)
        code = 2

    wall_s = time.monotonic() - t0
    runs = (result["runs"] if result else 0) + len(dres)
    stats = {}
    faults = {}
    for st, fl, _ in dres:
        for k in st:
            stats[k] = stats.get(k, 0) + st[k]
        for k in fl:
            faults[k] = faults.get(k, 0) + fl[k]
    if result:
        for k in result["stats"]:
            stats[k] = stats.get(k, 0) + result["stats"][k]
        for k in result["faults"]:
            faults[k] = faults.get(k, 0) + result["faults"][k]
    probes = {k[6:]: stats.pop(k) for k in sorted(stats) if k.startswith("probe:")}
    samples = []
    for s in sorted(result["samples"] if result else [], key=lambda s: s["index"])[:3]:
        text = json.dumps(s["plan"])
        samples.append({"run": s["index"], "digest": s["digest"], "plan": text if len(text) < 3000 else text[:3000] + "..."})
    if not samples:
        samples = [{"directed": json.dumps(p)[:2000]} for p in directed[:2]] or ["none executed"]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": result["nontrivial"] if result else 0,
            "rule": world.rule,
            "samples": samples,
            "simulated_runs_per_hour": int(runs / max(t_runs, 1e-6) * 3600),
            "seeds_per_hour": int(runs / max(t_runs, 1e-6) * 3600),
            "simulated_time": {k: stats[k] for k in sorted(stats)},
            "simulated_time_unit": world.time_unit,
            "faults_injected": {k: faults[k] for k in sorted(faults)},
            "probes_hit": probes,
            "distinct_states": len(result["states"]) if result else 0,
            "distinct_states_measure": world.state_measure,
            "components_real": world.real,
            "components_stubbed": world.stub,
            "determinism_sample": det,
            "directed_scenarios": len(directed),
            "known_findings_shown": findings,
            "runs_planned": n, "capped_by_wall_clock": bool(result and result["capped"]),
            "workers": args.workers,
        },
        "assumptions": world.assumptions,
        "wall_s": round(wall_s, 2),
        "violations": 1 if code == 1 else 0,
    }
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(boot.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("runs=%d wall=%.1fs exit=%d" % (runs, wall_s, code), flush=True)
    return code


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
