import random

from ..core import Invalid, Violation
from ..world import World
from .. import engine as en, boot, seams
from .c16 import Shuffler


class C22(World):
    quick_runs = 7800
    thorough_runs = 120000
    rule = ("Random training sets (single patterns, several patterns, repeated and opposite ones) on 2 to 9 nodes, the net retrained and "
            "evaluated several times; nodes corrupted from outside at any time; every shuffle of the update order decided by an adversary "
            "(identity, reverse, rotation, random) or, when the net must settle, drawn at random. Non-trivial: at least one step; "
            "distinct by plan.")
    state_measure = "distinct (weights, activities) pairs"
    real = ["HopfieldNet", "AsynchronousRule", "from_adjacency_matrix", "netomaton.evolve"]
    stub = ["outcomes of the shuffles"]
    assumptions = ["patterns are bipolar and as long as the net; settling is demanded only under random shuffles (within 6000 steps)"]

    def generate(self, rng, tier):
        n = rng.choice([2, 3, 4, 5, 6, 7, 8, 9] * 4 + [14, 20])
        many = rng.random() < 0.03
        lean = rng.choice([0.02, 0.2]) if many else 0.5     # many patterns that agree make the weights large
        pat = lambda: [1 if rng.random() < lean else -1 for _ in range(n)]
        trainings = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            ps = [pat() for _ in range(rng.choice([140, 200, 300]) if many else rng.choice([1, 1, 2, 3, 5]))]
            if rng.random() < 0.15:
                ps.append(list(ps[0]) if rng.random() < 0.5 else [-x for x in ps[0]])
            trainings.append({"patterns": ps, "array": rng.random() < 0.3, "runs": [self.evaluation(rng, n, ps) for _ in range(rng.choice([1, 1, 2, 3]))]})
        return {"n": n, "trainings": trainings}

    def evaluation(self, rng, n, ps):
        if rng.random() < 0.45:
            p = list(rng.choice(ps))
            m = max(0, (n - 2) // 2)           # m < (n - 1) / 2
            for i in rng.sample(range(n), rng.randrange(m + 1)):
                p[i] = -p[i]
            init = p
        else:
            init = [rng.choice([-1, 1]) for _ in range(n)]
        T = rng.choice([2, 5, 10, 30])
        return {"init": init, "T": T, "shuffle": [rng.choice(["identity", "reverse", "rotate", "seeded"]), rng.randrange(1 << 20)],
                "hits": [[rng.randrange(1, T + 1), rng.randrange(n)] for _ in range(rng.choice([0, 0, 1, 2, 4]))],
                "settle": rng.random() < 0.35}

    def execute(self, plan, sim):
        import numpy as np
        ntm = boot.load()
        n = plan["n"]
        if n < 2:
            raise Invalid("n")
        np.random.seed(1)
        net = en.guarded("crash", ntm.HopfieldNet, n=n)
        for k, tr in enumerate(plan["trainings"]):
            ps = tr["patterns"]
            if not ps or any(len(p) != n or set(p) - {-1, 1} for p in ps):
                raise Invalid("patterns")
            P = [np.array(p) for p in ps] if tr["array"] else [list(p) for p in ps]
            en.guarded("crash", net.train, P)
            if [list(p) for p in P] != ps:
                raise Violation("patterns-altered", "training changed the patterns %s to %s" % (ps, P))
            w = [[0 if i == j else sum(p[i] * p[j] for p in ps) for j in range(n)] for i in range(n)]
            got = [[en.plain(x) for x in row] for row in np.asarray(net.adjacency_matrix)]
            if got != w:
                raise Violation("weights", "patterns %s: the weights are %s, expected %s" % (ps, got, w))
            self.links(net.network, w, n)
            for r, run in enumerate(tr["runs"]):
                self.evaluate(ntm, net, w, ps, run, n, "training %d, evaluation %d" % (k, r), sim)

    def links(self, network, w, n):
        if sorted(network.nodes) != list(range(n)):
            raise Violation("weights", "the nodes of the network are %s" % sorted(network.nodes))
        for j in range(n):
            ins = network.in_edges(j)
            for i in range(n):
                data = [e.get("weight") for e in ins.get(i, [])]
                if sum(data) != w[i][j] or len(data) > 1:
                    raise Violation("weights", "the links %d -> %d have the weights %s, expected %s" % (i, j, data, w[i][j]))

    def evaluate(self, ntm, net, w, ps, run, n, what, sim):
        import numpy as np
        field = lambda s, i: sum(w[j][i] * s[j] for j in range(n) if j != i)
        sign = lambda v: 1 if v >= 0 else -1
        energy = lambda s: -sum(w[i][j] * s[i] * s[j] for i in range(n) for j in range(i))
        stable = lambda s: all(sign(field(s, i)) == s[i] for i in range(n))
        hits = {}
        for t, i in run["hits"]:
            if i >= n:
                raise Invalid("hit")
            hits[(t, i)] = -hits.get((t, i), 1)
        hits = {k for k, v in hits.items() if v < 0}
        seams.S.rng = Shuffler(*run["shuffle"])
        state = list(run["init"])
        if len(state) != n or set(state) - {-1, 1}:
            raise Invalid("init")
        state = self.steps(ntm, net, state, run["T"], hits, n, w, (field, sign, energy), what, sim)
        sim.fault("shuffle_" + run["shuffle"][0])
        if not run["settle"]:
            return
        seams.S.rng = None
        np.random.seed(run["shuffle"][1])
        start, total = list(state), 0
        while not stable(state):
            if total >= 6000:
                raise Violation("unsettled", "%s: not settled %d steps after the last corruption: %s (weights %s)" % (what, total, state, w))
            state = self.steps(ntm, net, state, 60, (), n, w, (field, sign, energy), what + " (settling)", sim)
            total += 60
        after = self.steps(ntm, net, state, 2 * n, (), n, w, (field, sign, energy), what + " (settled)", sim)
        if after != state:
            raise Violation("unsettled", "%s: the settled state %s changed to %s" % (what, state, after))
        sim.probe("settled")
        if all(p == ps[0] for p in ps):
            wrong = sum(a != b for a, b in zip(start, ps[0]))
            if 2 * wrong < n - 1:
                sim.probe("recovery")
                if state != ps[0]:
                    raise Violation("recovery", "%s: %s (%d nodes of %s corrupted) settled to %s" % (what, start, wrong, ps[0], state))

    def steps(self, ntm, net, state, T, hits, n, w, fns, what, sim):
        field, sign, energy = fns
        computed = {}

        def hit(ctx):
            computed[(ctx.timestep, ctx.node_label)] = ctx.node_activity
            if (ctx.timestep, ctx.node_label) in hits:
                sim.fault("node_corrupted")
                return -ctx.node_activity
            return ctx.node_activity
        traj = en.guarded("crash", ntm.evolve, net.network, initial_conditions=list(state), activity_rule=net.activity_rule,
                          timesteps=T + 1, perturbation=hit)
        if len(traj) != T + 1:
            raise Violation("length", "%s: %d states" % (what, len(traj)))
        prev = list(state)
        for t in range(1, T + 1):
            s = [en.plain(computed.get((t, i))) for i in range(n)]
            rec = [en.plain(traj[t].activities[i]) for i in range(n)]
            want = [-x if (t, i) in hits and x is not None else x for i, x in enumerate(s)]
            if rec != want:
                raise Violation("record", "%s t=%d: recorded %s, computed and corrupted %s" % (what, t, rec, want))
            changed = [i for i in range(n) if s[i] != prev[i]]
            if len(changed) > 1:
                raise Violation("updates", "%s t=%d: %d nodes changed at once (%s to %s)" % (what, t, len(changed), prev, s))
            for i in changed:
                if s[i] != sign(field(prev, i)):
                    raise Violation("sign", "%s t=%d: node %d became %r, its weighted input is %d (state %s)" % (what, t, i, s[i], field(prev, i), prev))
            if energy(s) > energy(prev):
                raise Violation("energy", "%s t=%d: the energy rose from %d to %d (%s to %s)" % (what, t, energy(prev), energy(s), prev, s))
            sim.state((w, rec))
            sim.log(what, t, rec)
            prev = rec
        sim.stats["steps"] += T
        return prev


WORLD = C22()
