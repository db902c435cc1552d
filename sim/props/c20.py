import random
from collections import Counter

from ..core import Invalid, NoProgress, Violation
from ..world import World
from .. import engine as en, boot

RULES = [
    {"in": ["xy", "xz"], "out": ["xz", "xw", "yw", "zw"]},
    {"in": ["xy"], "out": ["xy", "yz"]},
    {"in": ["xy"], "out": ["yz", "zx"]},
    {"in": ["xx"], "out": ["xy", "yx"]},
    {"in": ["xyz"], "out": ["xyw", "yzw"]},
    {"in": ["x"], "out": ["xy", "x"]},
    {"in": ["xy", "yz"], "out": ["wy", "yz", "zw", "xw"]},
    {"in": ["xyy", "xzu"], "out": ["uvv", "vzy", "xyv"]},
    {"in": ["xy", "zy"], "out": ["xw", "yw", "zw"]},
    {"in": ["xyx"], "out": ["xy"]},
    {"in": ["xy"], "out": ["x"]},
    {"in": ["xy", "yx"], "out": []},
    {"in": ["x", "xy"], "out": ["y", "zxy", "zzz"]},
]


class Budget(Exception):
    pass


def match(pattern, relation, b):
    """The bindings extended so that the pattern is the relation, or None."""
    if len(pattern) != len(relation):
        return None
    b = dict(b)
    for s, x in zip(pattern, relation):
        if b.setdefault(s, x) != x:
            return None
    return b


def explain(before, after, rules, sim):
    """Is `after` the result of replacing disjoint matches in `before`? For a single-relation left-hand side every match has to
    be replaced. Returns True or False; raises Budget if the search gets too long."""
    ins, outs = rules["in"], rules["out"]
    nodes = {x for r in before for x in r}
    left = [3000000]
    after_c = Counter(map(tuple, after))

    def spend():
        left[0] -= 1
        if left[0] < 0:
            raise Budget()

    def place(jobs, produced):
        """Can the produced relations be the outputs of the matches (bindings) in jobs, with fresh distinct new symbols?"""
        todo = [(m, o) for m in range(len(jobs)) for o in range(len(outs))]
        if sum(produced.values()) != len(todo):
            return False
        produced = Counter(produced)
        binds = [dict(b) for b in jobs]
        used = set(nodes)

        def rec(i):
            spend()
            if i == len(todo):
                return True
            m, o = todo[i]
            b = binds[m]
            for r in list(produced):
                if produced[r] <= 0 or len(r) != len(outs[o]):
                    continue
                new = {}
                ok = True
                for s, x in zip(outs[o], r):
                    if s in b:
                        if b[s] != x:
                            ok = False
                            break
                    elif s in new:
                        if new[s] != x:
                            ok = False
                            break
                    elif x in used or x in new.values():
                        ok = False
                        break
                    else:
                        new[s] = x
                if not ok:
                    continue
                produced[r] -= 1
                b.update(new)
                used.update(new.values())
                if rec(i + 1):
                    return True
                used.difference_update(new.values())
                for s in new:
                    del b[s]
                produced[r] += 1
                if not new:
                    # an equal relation is as good as any other
                    break
            return False
        return rec(0)

    def finish(jobs, used_idx):
        kept = Counter(tuple(r) for i, r in enumerate(before) if i not in used_idx)
        produced = after_c - kept
        if sum(kept.values()) + len(jobs) * len(outs) != len(after) or kept - after_c:
            return False
        return place(jobs, produced)

    # the first-match scan, which is what one would do first
    rel = list(range(len(before)))
    jobs, used_idx = [], set()
    while True:
        b, idx = {}, []
        for p in ins:
            for i in rel:
                if i in used_idx or i in idx:
                    continue
                nb = match(p, before[i], b)
                if nb is not None:
                    b, idx = nb, idx + [i]
                    break
        if len(idx) == len(ins):
            jobs.append(b)
            used_idx |= set(idx)
        else:
            break
    if finish(jobs, used_idx):
        return True
    if len(ins) == 1:
        return False
    sim.probe("full_search")

    def all_matches(k, b, idx, taken, start):
        if k == len(ins):
            yield b, idx
            return
        for i in range(start if k == 0 else 0, len(before)):
            if i in taken or i in idx:
                continue
            spend()
            nb = match(ins[k], before[i], b)
            if nb is not None:
                yield from all_matches(k + 1, nb, idx + [i], taken, start)

    def search(jobs, taken, start):
        if finish(jobs, taken):
            return True
        for b, idx in all_matches(0, {}, [], taken, start):
            if search(jobs + [b], taken | set(idx), idx[0] + 1):
                return True
        return False
    return search([], set(), 0)


class C20(World):
    quick_runs = 18000
    thorough_runs = 100000
    rule = ("Random configurations of unary to senary relations (with self-relations, repetitions, more than ten or a hundred relations) under "
            "thirteen rules or random ones; every step is explained by search (or refuted); evolutions are aborted, re-run and resumed "
            "from recorded configurations. Non-trivial: at least one step; distinct by plan.")
    state_measure = "distinct configurations reached"
    real = ["WolframPhysicsModel", "netomaton.evolve"]
    assumptions = ["nodes are non-negative integers; a node that a step introduces is new with respect to the configuration it is added to; "
                   "when a step with several relations on the left-hand side cannot be explained or refuted within the search "
                   "budget it is accepted (counted as a probe)"]

    def generate(self, rng, tier):
        if rng.random() < 0.25:
            sy = "xyzwuv"[:rng.choice([4, 4, 6])]
            longest = rng.choice([3, 3, 4, 5, 6])
            rel = lambda a: "".join(rng.choice(a) for _ in range(rng.choice([1, 2, 2, 2, longest])))
            ins = [rel(sy[:rng.choice([3, 3, len(sy)])]) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
            rules = {"in": ins, "out": [rel(sy) for _ in range(rng.randrange(0, 4))]}
        else:
            rules = rng.choice(RULES)
        arities = sorted({len(r) for r in rules["in"]})
        m, many = rng.randrange(1, 7), rng.random() < 0.015
        if many:
            m = rng.randrange(10, 60)
        # which integers name the nodes
        names = rng.choice([range(1, m + 1), range(1, m + 1), range(m), [1000 * k + 7 for k in range(m)], rng.sample(range(300), m)])
        config = []
        for _ in range(rng.randrange(101, 120) if many else rng.choice([1, 2, 3, 5, 9, 12, 15])):
            a = rng.choice(arities + [1, 2, 2, 3, 4]) if rng.random() < 0.5 else rng.choice(arities)
            if rng.random() < 0.4:
                # a relation that matches a left-hand side, or nearly
                pat = rng.choice(rules["in"])
                b = {s: rng.choice(names) for s in sorted(set(pat))}
                config.append([b[s] for s in pat])
                if rng.random() < 0.5:
                    config[-1][rng.choice([-1, rng.randrange(len(pat))])] = rng.choice(names)
                continue
            config.append([rng.choice(names) for _ in range(a)])
        if config and rng.random() < 0.3:
            config.append(list(rng.choice(config)))
        return {"rules": rules, "config": config, "T": 1 if many else rng.choice([1, 2, 3, 4]), "compression": rng.random() < 0.3,
                "resume": [] if many else [[rng.randrange(4), rng.choice([1, 2, 3]), rng.random() < 0.5] for _ in range(rng.choice([0, 1, 1, 2]))],
                "abort": rng.choice([None, None, rng.randrange(200)])}

    def execute(self, plan, sim):
        ntm = boot.load()
        rules = {"in": [tuple(r) for r in plan["rules"]["in"]], "out": [tuple(r) for r in plan["rules"]["out"]]}
        config = [tuple(r) for r in plan["config"]]
        if not rules["in"] or any(not r for r in rules["in"] + rules["out"] + config) or any(x < 0 for r in config for x in r):
            raise Invalid("rules")
        given = repr((rules, config))
        model = ntm.WolframPhysicsModel(list(config), rules)
        self.round_trip(config, ntm, sim)
        start = model.network

        def grow(network, T, what, expected, m):
            if plan["abort"] is not None and what == "first":
                fault = en.Fault({"where": "line", "at": plan["abort"], "exc": 0}, sim)
                run = Run(lambda: ntm.evolve(network, topology_rule=m.topology_rule, timesteps=T, compression=plan["compression"]))
                en.run_with_fault(run, fault, sim)
            traj = en.guarded("crash", ntm.evolve, network, topology_rule=m.topology_rule, timesteps=T, compression=plan["compression"])
            configs = en.guarded("crash", m.to_configurations, traj)
            if len(configs) != T:
                raise Violation("length", "%s: %d configurations for %d timesteps" % (what, len(configs), T))
            if [tuple(r) for r in configs[0]] != expected:
                raise Violation("round-trip", "%s: the first configuration is %s, not %s" % (what, configs[0], expected))
            for t in range(1, T):
                self.judge([tuple(r) for r in configs[t - 1]], [tuple(r) for r in configs[t]], rules, "%s t=%d" % (what, t), sim)
            return traj, [[tuple(r) for r in c] for c in configs]
        T = plan["T"]
        n_out = max(1, len(rules["out"]))
        while T > 2 and len(config) * n_out ** (T - 1) > 80:
            T -= 1
        traj, configs = grow(start, T, "first", config, model)
        for k, more, fresh in plan["resume"]:
            k = k % len(traj)
            if len(configs[k]) * n_out ** more > 120:
                continue
            sim.fault("resumed")
            if fresh:
                m = ntm.WolframPhysicsModel(list(configs[k]), rules)
                grow(m.network, more + 1, "restarted from the configuration at t=%d" % k, configs[k], m)
            else:
                grow(traj[k].network, more + 1, "resumed from t=%d" % k, configs[k], model)
        if repr((rules, config)) != given:
            raise Violation("rules-altered", "the caller's rules or configuration were altered")

    def judge(self, before, after, rules, what, sim):
        sim.stats["steps"] += 1
        try:
            ok = explain(before, after, rules, sim)
        except Budget:
            sim.probe("search_budget_exhausted")
            ok = True
        if not ok:
            raise Violation("step", "%s: no disjoint application of %s to %s gives %s" % (what, rules, before, after))
        self.round_trip(after, boot.load(), sim)
        sim.state(after)
        sim.log(what, after)

    def round_trip(self, config, ntm, sim):
        if len(config) >= 10:
            sim.probe("ten_or_more_relations")
        m = ntm.WolframPhysicsModel(list(config), {"in": [("x", "y")], "out": [("x", "y")]})
        back = [tuple(r) for r in m.network_to_config(m.network)]
        if back != config:
            raise Violation("round-trip", "the configuration %s comes back as %s" % (config, back))


class Run:
    def __init__(self, fn):
        self.fn, self.trajectory = fn, []

    def run(self):
        self.trajectory = self.fn()


WORLD = C20()
