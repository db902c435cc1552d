import random

import numpy as np

from ..core import Invalid, Violation, crc
from ..world import World
from .. import engine as en, boot, seams
from ..refnet import nkey

MOD = 5


def value(seed, node, acts):
    """The wrapped rule: a new value that always differs from the current one, depending on everything."""
    cur = acts[node]
    return (cur + 1 + crc(seed, nkey(node), en.acts_view(acts)) % (MOD - 1)) % MOD


class Shuffler:
    """Decides the outcome of every shuffle."""

    def __init__(self, kind, seed):
        self.kind, self.rng = kind, random.Random(seed)

    def order(self, n):
        idx = list(range(n))
        if self.kind == "reverse":
            idx.reverse()
        elif self.kind == "rotate":
            idx = idx[1:] + idx[:1]
        elif self.kind == "seeded":
            self.rng.shuffle(idx)
        return idx

    def np_shuffle(self, f, x, *a, **k):
        vals = [x[i] for i in self.order(len(x))]
        for i, v in enumerate(vals):
            x[i] = v

    py_shuffle = np_shuffle

    def np_permutation(self, f, x, *a, **k):
        xs = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
        return np.array([xs[i] for i in self.order(len(xs))])


class Ctx:
    def __init__(self, node, t, acts, net):
        self.node_label, self.timestep, self.activities = node, t, acts
        self.current_activity = acts[node]
        self.neighbour_labels = [i for i in net.inc[node]]
        self.neighbourhood_activities = [acts[i] for i in self.neighbour_labels]
        self.connection_states = net.inc[node]
        self.past_activities, self.input = None, None
        self.added_nodes, self.removed_nodes = [], []

    def activity_of(self, n):
        return self.activities[n]


class C16(World):
    quick_runs = 27000
    thorough_runs = 400000
    rule = ("One to three wrappers (given orders of arbitrary labels, or random ones; fixed or re-randomized; sharing one order list) drive "
            "networks in alternating segments, in the engine or under a scheduler that permutes the visits of each timestep; "
            "an adversary decides every shuffle; in a few runs an honest generator draws 400 orders, in which every node must come up in every place. Non-trivial: at least one step; distinct by plan.")
    state_measure = "distinct (activities, last updated node) pairs"
    real = ["AsynchronousRule", "netomaton.evolve (engine mode)"]
    stub = ["the engine (in the mode where the order of visits is permuted)", "outcomes of shuffles", "the wrapped rule"]
    assumptions = ["the update order has no repetitions and names nodes of the network",
                   "a wrapper is not used again after an evolution it drove has failed"]

    def generate(self, rng, tier):
        if rng.random() < 0.002:
            return {"chance": rng.randrange(1 << 20), "m": rng.randrange(2, 6), "given": rng.random() < 0.5, "labels": rng.choice(en.LABELS)}
        kind = rng.choice(en.LABELS)
        n = rng.randrange(1, 8)
        net = {"n": n, "labels": kind, "edges": [[rng.randrange(n), rng.randrange(n), 0] for _ in range(rng.randrange(2 * n))],
               "order": list(range(n)), "rotation": 0}
        ws = []
        shared = rng.sample(range(n), rng.randrange(1, n + 1))
        for _ in range(rng.choice([1, 1, 2, 3])):
            given = rng.random() < 0.7 or kind != "int"
            ws.append({"order": (shared if rng.random() < 0.4 else rng.sample(range(n), rng.randrange(1, n + 1))) if given else None,
                       "randomize": rng.random() < 0.4, "seed": rng.randrange(1 << 20), "init": [rng.randrange(MOD) for _ in range(n)]})
        return {"net": net, "wrappers": ws, "segments": [[rng.randrange(len(ws)), rng.randrange(1, 12), rng.random() < 0.5]
                                                        for _ in range(rng.choice([1, 2, 3, 5]))],
                "shuffle": [rng.choice(["identity", "reverse", "rotate", "seeded", "seeded"]), rng.randrange(1 << 20)],
                "visits": rng.randrange(1 << 20), "cycles": False}

    def chance(self, plan, sim):
        """Under an honest generator every node comes up in every place of a random order: of ones drawn at the start, and of ones drawn
        for each cycle."""
        ntm = boot.load()
        m, N = plan["m"], 400
        if m < 2:
            raise Invalid("size")
        np.random.seed(plan["chance"])
        random.seed(plan["chance"])
        lab = [en.label(plan["labels"], i) if plan["given"] else i for i in range(m)]

        def updated(rule, acts):
            x = [v for v in lab if en.guarded("crash", rule, Ctx(v, 1, acts, net))]
            if len(x) != 1:
                raise Violation("updates", "%d of the nodes %s were updated in one timestep" % (len(x), lab))
            return x[0]
        net = type("Net", (), {"inc": {v: {} for v in lab}})
        acts = {v: 0 for v in lab}
        seen = {"randomized for each cycle": set(), "drawn at the start": set()}
        one = en.guarded("crash", ntm.AsynchronousRule, activity_rule=lambda ctx: 1, update_order=list(lab) if plan["given"] else None,
                         n=None if plan["given"] else m, randomize_each_cycle=True)
        for k in range(N * m):
            seen["randomized for each cycle"].add((k % m, updated(one, acts)))
        if plan["given"]:
            seen.pop("drawn at the start")
        else:
            for _ in range(N):
                w = en.guarded("crash", ntm.AsynchronousRule, activity_rule=lambda ctx: 1, n=m)
                for k in range(m):
                    seen["drawn at the start"].add((k, updated(w, acts)))
        for what, got in sorted(seen.items()):
            never = [(k, v) for k in range(m) for v in lab if (k, v) not in got]
            if never:
                raise Violation("not-random", "in %d orders %s of the %d nodes %s, node %r was never in place %d" % (N, what, m, lab, never[0][1], never[0][0]))
        sim.stats["steps"] += 1
        sim.fault("shuffle_fair")
        sim.log(sorted(seen))

    def execute(self, plan, sim):
        if "chance" in plan:
            return self.chance(plan, sim)
        ntm = boot.load()
        sim.budget = 40000
        ref = en.build_ref(plan["net"])
        lab = lambda i: en.label(plan["net"]["labels"], i)
        n = plan["net"]["n"]
        seams.S.rng = Shuffler(*plan["shuffle"])
        visits = random.Random(plan["visits"])
        net = en.build_real(ntm, ref)
        lists = {}
        ws = []
        for w in plan["wrappers"]:
            if w["order"] is None:
                if plan["net"]["labels"] != "int":
                    raise Invalid("labels")
                order, given = list(range(n)), None
            else:
                if not w["order"] or len(set(w["order"])) != len(w["order"]) or max(w["order"]) >= n or len(w["init"]) < n:
                    raise Invalid("order")
                order = [lab(i) for i in w["order"]]
                given = lists.setdefault(tuple(w["order"]), list(order))

            def rule(ctx, s=w["seed"]):
                sim.spend()
                return value(s, ctx.node_label, ctx.activities)
            r = en.guarded("crash", ntm.AsynchronousRule, activity_rule=rule, update_order=given, n=None if given else n,
                           randomize_each_cycle=w["randomize"])
            ws.append({"rule": r, "order": order, "given": given is not None, "randomize": w["randomize"], "seed": w["seed"],
                       "acts": {lab(i): w["init"][i] for i in range(n)}, "pos": 0, "seen": []})
        for k, (which, T, engine) in enumerate(plan["segments"]):
            if not ws:
                raise Invalid("wrappers")
            w = ws[which % len(ws)]
            states = self.engine(w, T, net, ntm) if engine else self.direct(w, T, ref, visits)
            for t in range(1, len(states)):
                self.judge(w, states[t - 1], states[t], "segment %d (wrapper %d), t=%d" % (k, which, t), n, sim)
                sim.stats["steps"] += 1
            if len(states) != T + 1:
                raise Violation("length", "segment %d: %d states for %d timesteps" % (k, len(states), T + 1))
            w["acts"] = dict(states[-1])
            sim.probe("engine" if engine else "permuted_visits")
        for key, l in lists.items():
            if l != [lab(i) for i in key]:
                raise Violation("order-altered", "the given update order %s became %s" % ([lab(i) for i in key], l))
        if plan["cycles"]:
            for w in ws:
                m = len(w["order"])
                for c in range(0, len(w["seen"]) - m + 1, m):
                    if len(set(w["seen"][c:c + m])) != m:
                        raise Violation("cycle", "one cycle of a randomized order updated %s of the nodes %s"
                                        % (w["seen"][c:c + m], w["order"]))
        sim.fault("shuffle_" + plan["shuffle"][0])

    def engine(self, w, T, net, ntm):
        traj = en.guarded("crash", ntm.evolve, net, initial_conditions=dict(w["acts"]), activity_rule=w["rule"], timesteps=T + 1)
        return [s.activities for s in traj]

    def direct(self, w, T, ref, visits):
        states = [dict(w["acts"])]
        for t in range(1, T + 1):
            nodes = list(ref.nodes)
            visits.shuffle(nodes)
            prev = states[-1]
            states.append({x: en.plain(en.guarded("crash", w["rule"], Ctx(x, t, prev, ref))) for x in nodes})
        return states

    def judge(self, w, before, after, what, n, sim):
        changed = [x for x in before if before[x] != after[x]]
        if len(changed) != 1:
            raise Violation("updates", "%s: %d nodes were updated (%s); order %s" % (what, len(changed), changed, w["order"]))
        x = changed[0]
        if x not in w["order"]:
            raise Violation("outside-order", "%s: node %r was updated, which is not in the order %s" % (what, x, w["order"]))
        if after[x] != value(w["seed"], x, before):
            raise Violation("value", "%s: node %r took the value %r, the rule says %r" % (what, x, after[x], value(w["seed"], x, before)))
        m = len(w["order"])
        if not w["randomize"]:
            if w["given"]:
                expected = w["order"][w["pos"] % m]
            elif w["pos"] < m:
                expected = x if x not in w["seen"] else None
            else:
                expected = w["seen"][w["pos"] % m]
            if x != expected:
                raise Violation("order", "%s: node %r was updated, expected %r (order %s, update %d, so far %s)"
                                % (what, x, expected, w["order"] if w["given"] else "random", w["pos"], w["seen"][-10:]))
        w["seen"].append(x)
        w["pos"] += 1
        sim.state((en.acts_view(after), x))
        sim.log(what, x)


WORLD = C16()
