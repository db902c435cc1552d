"""python -m sim.selftest [RUNS] [PROPERTY...]   proves determinism on a larger sample than every check does.

Each run of the sample is executed three times: in order in one interpreter, in reverse order under another hash seed, and
scattered over eight interpreters under yet other hash seeds; the digests of the event logs must agree."""
from . import boot
if __name__ == "__main__":
    boot.reexec_if_needed("sim.selftest")

import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

SEEDS = (1, 2, 3, 11, 101)


def digests(prop, seed, indices, hashseed):
    env = boot.environment(hashseed)
    env["VERIF_BOOTED"] = "1"
    env["PYTHONPATH"] = boot.VERIF
    p = subprocess.run([boot.PY, "-W", "ignore", "-m", "sim.digests", prop, "quick", str(seed)] + [str(i) for i in indices],
                       cwd=boot.VERIF, env=env, capture_output=True, text=True, timeout=3000)
    if p.returncode != 0 or not p.stdout.strip():
        raise RuntimeError("%s seed %d: %s" % (prop, seed, (p.stderr or p.stdout)[-500:]))
    return {int(k): v for k, v in json.loads(p.stdout.strip().splitlines()[-1]).items()}


def main():
    args = sys.argv[1:]
    n = int(args[0]) if args and args[0].isdigit() else 160
    props = [a for a in args if not a.isdigit()] or [
        json.loads(l)["id"] for l in open(os.path.join(boot.VERIF, "properties.jsonl"))
        if os.path.exists(os.path.join(boot.VERIF, "sim", "props", json.loads(l)["id"].lower() + ".py"))]
    jobs = []
    for prop in props:
        for seed in SEEDS:
            idx = list(range(n // len(SEEDS)))
            jobs.append((prop, seed, idx, 0, "a"))
            jobs.append((prop, seed, idx[::-1], 777, "b"))
            for w in range(8):
                jobs.append((prop, seed, idx[w::8], 31337 + w, "c"))
    results = {}
    with ThreadPoolExecutor(os.cpu_count() or 1) as ex:
        for (prop, seed, idx, h, variant), d in zip(jobs, ex.map(lambda j: digests(*j[:4]) if j[2] else {}, jobs)):
            results.setdefault((prop, seed), {}).setdefault(variant, {}).update(d)
    bad = 0
    for prop in props:
        diff = []
        for seed in SEEDS:
            r = results[(prop, seed)]
            diff += [(seed, i) for i in r["a"] if not r["a"][i] == r["b"].get(i) == r["c"].get(i)]
        print("%s: %d runs executed three times, %d differ %s" % (prop, len(SEEDS) * (n // len(SEEDS)), len(diff), diff[:5]), flush=True)
        bad += len(diff)
    return 1 if bad else 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
