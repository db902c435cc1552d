import json
import random
import subprocess

import numpy as np

from ..core import Invalid, Violation, plan_rng
from ..world import World
from .. import boot, scenarios

HASHSEEDS_QUICK = ["1", "4242", "77777"]
HASHSEEDS_THOROUGH = ["1", "2", "3", "17", "4242", "77777", "99999", "123456789", "31337", "4000000000"]


def elsewhere(items, hashseed, timeout=600):
    """Digests of the scenarios computed by a fresh interpreter with another hash seed."""
    env = boot.environment(hashseed)
    env["VERIF_BOOTED"] = "1"
    env["PYTHONPATH"] = boot.VERIF
    p = subprocess.run([boot.PY, "-W", "ignore", "-m", "sim.scenarios"], cwd=boot.VERIF, env=env, input=json.dumps(items),
                       capture_output=True, text=True, timeout=timeout)
    try:
        return json.loads(p.stdout.strip().splitlines()[-1])
    except (ValueError, IndexError):
        raise RuntimeError("the other interpreter failed: %s" % p.stderr[-500:])


class C13(World):
    quick_runs = 6000
    thorough_runs = 100000
    rule = ("Scenarios covering every stochastic component, model, builder, measure and the engine, with the global generators seeded "
            "alike: (1) each is run, then again after a random amount of other work in the same process; those with a seed "
            "parameter of their own also with the globals in another state; (2) the whole list, in other orders, in fresh "
            "interpreters with other hash seeds. All digests of the results, including orders, must agree. Non-trivial: "
            "every run; distinct by plan.")
    state_measure = "distinct results (digests)"
    time_unit = "scenario executions"
    real = ["all of netomaton", "numpy.random, random, networkx"]
    stub = []
    assumptions = ["one platform and one version of each dependency"]

    def generate(self, rng, tier):
        name = rng.choice(scenarios.NAMES)
        return {"name": name, "params": rng.randrange(1 << 40), "seed": rng.choice([0, 1, rng.randrange(1 << 31)]),
                "junk": [[rng.choice(scenarios.NAMES), rng.randrange(1 << 40)] for _ in range(rng.randrange(0, 4))],
                "hashseeds": []}

    def attempt(self, name, params, seed, keep=False):
        try:
            return scenarios.run(boot.load(), name, params, seed, keep)
        except Exception as e:
            return "error %s: %s" % (type(e).__name__, str(e)[:200])

    def execute(self, plan, sim):
        if plan["name"] not in scenarios.SCENARIOS:
            raise Invalid("scenario")
        name, params, seed = plan["name"], plan["params"], plan["seed"]
        first = self.attempt(name, params, seed)
        for j, jp in plan["junk"]:
            self.attempt(j, jp, seed + 1)
        random.random()
        np.random.random(3)
        again = self.attempt(name, params, seed)
        if first != again:
            raise Violation("history", "%s(%d) with seed %d gives %s at first and %s after other work in the same process"
                            % (name, params, seed, first, again))
        sim.fault("other_work_between")
        if name in scenarios.OWN_SEED:
            random.seed(seed + 99)
            np.random.seed((seed + 99) % (1 << 32))
            third = self.attempt(name, params, seed, True)
            if third != first:
                raise Violation("own-seed", "%s(%d), which has a seed of its own, gives %s or %s depending on the global generators"
                                % (name, params, first, third))
            sim.fault("global_generators_disturbed")
        if first.startswith("error"):
            sim.probe("error_in_" + name)
        for h in plan["hashseeds"]:
            other = elsewhere([[name, params, seed, False]], h)[0]
            if other != first:
                raise Violation("process", "%s(%d) with seed %d gives %s in this process and %s in one with hash seed %s"
                                % (name, params, seed, first, other, h))
        sim.stats["ops"] += 2 + len(plan["junk"])
        sim.log(name, params, first)
        sim.state(first)
        sim.probe(name)

    def after_batch(self, prop, seed, tier, result):
        """The first scenarios of the batch again, in fresh interpreters with other hash seeds."""
        n = min(result["runs"], 600 if tier == "quick" else 6000)
        items = []
        for i in range(n):
            p = self.generate(plan_rng(seed, prop, i), tier)
            items.append([p["name"], p["params"], p["seed"], False])
        digests = {}
        from concurrent.futures import ThreadPoolExecutor
        hs = ["0"] + (HASHSEEDS_QUICK if tier == "quick" else HASHSEEDS_THOROUGH)
        orders = []
        for k, h in enumerate(hs):
            order = list(range(n))
            if k:
                random.Random(k).shuffle(order)
            orders.append(order)
        with ThreadPoolExecutor(4) as ex:
            outs = list(ex.map(lambda ho: elsewhere([items[i] for i in ho[1]], ho[0]), zip(hs, orders)))
        for h, order, out in zip(hs, orders, outs):
            result["faults"]["fresh_interpreter_other_hash_seed"] += 1
            result["stats"]["ops"] += n
            for i, d in zip(order, out):
                if digests.setdefault(i, (d, h))[0] != d:
                    plan = self.generate(plan_rng(seed, prop, i), tier)
                    plan["hashseeds"] = [h, digests[i][1]]
                    plan["junk"] = []
                    return {"index": i, "cls": "process", "plan": plan, "history": [],
                            "message": "%s gives different results in interpreters with hash seeds %s and %s"
                            % (items[i], h, digests[i][1])}
        return None


WORLD = C13()
