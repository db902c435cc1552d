import math
import random

import numpy as np

from ..core import Injected, Invalid, Violation
from ..world import World
from .. import engine as en, boot


class C53(World):
    quick_runs = 7500
    thorough_runs = 120000
    rule = ("Random cities (2 to 5), constants and initial potentials; potentials damaged from outside, a crash within a timestep and a restart "
            "from the last recorded state, several nets alternating; every recorded step is compared with the published equation of motion "
            "evaluated on the state before. Final and random matrices are decoded. Non-trivial: at least one step; distinct by plan.")
    state_measure = "distinct rounded potentials"
    real = ["HopfieldTankTSPNet (adjacency matrix, activity rule, permutation matrix, tour graph)", "netomaton.evolve"]
    assumptions = ["two cities at least; finite potentials; agreement to a relative 1e-9"]

    def generate(self, rng, tier):
        nets = []
        for _ in range(rng.choice([1, 1, 2])):
            m = rng.choice([2, 3, 3, 4, 4, 5])
            T = rng.choice([1, 2, 4]) if rng.random() > 0.03 else rng.choice([9, 15])
            points = [[rng.randrange(10) / 10, rng.randrange(10) / 10] for _ in range(m)]
            if rng.random() < 0.15:
                points[1] = list(points[0])         # two cities at one place
            c = {"dt": rng.choice([1.0, 0.1, 1e-5, 1e-6]), "A": rng.choice([500, 100, 0, 1]), "B": rng.choice([500, 90, 0, 1]), "C": rng.choice([200, 110, 0, 1]),
                 "D": rng.choice([500, 80, 0, 1]), "u_0": rng.choice([0.02, 0.5, 1.0]), "n": rng.choice([15, m, m + 1, 4.5])}
            nets.append({"points": points, "T": T, "consts": c if rng.random() < 0.85 else {}, "scale": rng.choice([0.001, 0.02, 0.5, 3.0]),
                         "seed": rng.randrange(1 << 20), "damage": [[rng.randrange(1, T + 1), rng.randrange(m * m), rng.choice([0.0, -5.0, 1.5, 0.01])]
                                                                   for _ in range(rng.choice([0, 0, 1, 3]))],
                         "crash": [rng.randrange(1, T + 1), rng.randrange(m * m)] if rng.random() < 0.3 else None,
                         "order": rng.choice(["AF", "AF", "TF", "SYN"]), "compression": rng.random() < 0.2})
        return {"nets": nets, "tours": [[rng.choice(["permutation", "noisy", "clash", "soft"]), rng.randrange(1 << 20)] for _ in range(rng.randrange(3))],
                "alternate": rng.random() < 0.3}

    def make(self, ntm, p):
        m = len(p["points"])
        if m < 2 or m > 6 or p["scale"] <= 0:
            raise Invalid("points")
        c = {"dt": 1.0, "A": 500, "B": 500, "C": 200, "D": 500, "u_0": 0.02, "n": 15}
        c.update(p["consts"])
        if c["u_0"] <= 0:
            raise Invalid("u_0")
        points = [tuple(x) for x in p["points"]]
        net = ntm.HopfieldTankTSPNet(points, **p["consts"])
        d = [[math.dist(a, b) for b in points] for a in points]
        want = [(i, j, d[i][j]) for i in range(m) for j in range(i + 1, m)]
        got = net.get_distances()
        if len(got) != len(want) or any(tuple(g[:2]) != w[:2] or abs(g[2] - w[2]) > 1e-12 for g, w in zip(got, want)):
            raise Violation("distances", "the distances of %s are given as %s" % (points, got))
        adj = net.adjacency_matrix
        if [list(map(int, r)) for r in adj] != [[1] * (m * m) for _ in range(m * m)]:
            raise Violation("connections", "the net of %d cities isn't fully connected" % m)
        return net, c, np.array(d)

    @staticmethod
    def step(u, c, d):
        """The equation of motion: every unit (X, i) is inhibited by the other positions of its city, by the other cities of
        its position, by the excess of activity in the net, and by the cities next to it in proportion to their distance."""
        m = len(d)
        V = 0.5 * (1 + np.tanh(u / c["u_0"]))
        out = np.empty((m, m))
        size = np.empty((m, m))
        for X in range(m):
            for i in range(m):
                a = sum(V[X, j] for j in range(m) if j != i)
                b = sum(V[Y, i] for Y in range(m) if Y != X)
                e = V.sum() - c["n"]
                near = sum(d[X, Y] * (V[Y, (i + 1) % m] + V[Y, (i - 1) % m]) for Y in range(m))
                du = -u[X, i] - c["A"] * a - c["B"] * b - c["C"] * e - c["D"] * near
                out[X, i] = u[X, i] + c["dt"] * du
                size[X, i] = abs(u[X, i]) + c["dt"] * (abs(u[X, i]) + c["A"] * a + c["B"] * b + c["C"] * (V.sum() + abs(c["n"])) + c["D"] * near)
        return out, size

    def execute(self, plan, sim):
        ntm = boot.load()
        sim.budget = 30000
        made = [self.make(ntm, p) for p in plan["nets"]]
        for i, (p, (net, c, d)) in enumerate(zip(plan["nets"], made)):
            self.run(ntm, p, net, c, d, sim, "net %d" % i, made if plan["alternate"] else None)
        for kind, seed in plan["tours"]:
            self.tour(ntm, plan["nets"][0], made[0], kind, seed, sim)

    def run(self, ntm, p, net, c, d, sim, what, others):
        m, T = len(d), p["T"]
        rng = random.Random(p["seed"])
        u = [rng.uniform(-1, 1) * p["scale"] for _ in range(m * m)]
        damage = {}
        for t, x, v in p["damage"]:
            if x >= m * m:
                raise Invalid("damage")
            damage[(t, x)] = v
        crash = p["crash"]
        network = ntm.topology.from_adjacency_matrix(net.adjacency_matrix)
        states = [u]
        t0 = 0
        while t0 < T:
            def rule(ctx):
                sim.spend()
                if crash and [ctx.timestep + t0, ctx.node_label] == crash:
                    raise Injected("crash")
                if others:
                    other, c2, d2 = others[(ctx.node_label + 1) % len(others)]
                    other.get_distances()
                return net.activity_rule(ctx)
            dies = crash and t0 < crash[0] <= T
            until = crash[0] if dies else T
            go = lambda steps: ntm.evolve(network, initial_conditions=list(states[-1]), activity_rule=rule, timesteps=steps,
                                          compression=p["compression"], update_order=getattr(ntm.UpdateOrder, en.ORDERS[p["order"]]),
                                          perturbation=(lambda x: damage.get((x.timestep + t0, x.node_label), x.node_activity)) if damage else None)
            if dies:
                try:
                    go(until - t0 + 1)
                except Injected:
                    sim.fault("crash_in_timestep")
                    crash = None
                    until -= 1
                else:
                    raise Violation("swallowed", "%s: the rule failed, but the evolution went on" % what)
                if until == t0:
                    continue
            traj = en.guarded("crash", go, until - t0 + 1)
            states += [[s.activities[i] for i in range(m * m)] for s in traj[1:]]
            t0 = until
        for t in range(1, T + 1):
            want, size = self.step(np.array(states[t - 1], dtype=float).reshape(m, m), c, d)
            for x in range(m * m):
                w, tol = want[x // m, x % m], 1e-9 * max(1e-12, size[x // m, x % m])
                g = states[t][x]
                if (t, x) in damage:
                    w = damage[(t, x)]
                    sim.fault("unit_damaged")
                if not (abs(g - w) <= tol):
                    raise Violation("step", "%s t=%d: the unit of city %d at position %d is %r, by the equation of motion %r (%s)"
                                    % (what, t, x // m, x % m, g, w, c))
            sim.state([round(float(v), 6) for v in states[t]])
            sim.log(what, t, [round(float(v), 9) for v in states[t]])
        sim.stats["steps"] += T
        got = net.get_permutation_matrix(states)
        V = 0.5 * (1 + np.tanh(np.array(states[-1], dtype=float).reshape(m, m) / c["u_0"]))
        if np.shape(got) != (m, m) or not np.allclose(got, V, rtol=1e-12, atol=1e-12):
            raise Violation("outputs", "%s: the permutation matrix is %s, the outputs of the last state are %s" % (what, got, V))

    def tour(self, ntm, p, made, kind, seed, sim):
        net, c, d = made
        m = len(d)
        rng = random.Random(seed)
        order = list(range(m))
        rng.shuffle(order)              # order[X] is the position of city X
        clash = kind == "clash"
        if clash:
            order[0] = order[1]
        low = {"permutation": 0.0, "clash": 0.0, "noisy": 0.2, "soft": 0.9}[kind]
        M = [[1.0 if order[X] == i else rng.random() * low for i in range(m)] for X in range(m)]
        if rng.random() < 0.5:
            M = np.array(M)
        points = [tuple(x) for x in p["points"]]
        before = np.array(M).copy()
        if clash:
            sim.fault("position_claimed_twice")
            try:
                net.get_tour_graph(points, M)
            except Exception:
                return
            raise Violation("not-refused", "a matrix in which cities 0 and 1 claim one position was decoded")
        if rng.random() < 0.2:
            sim.fault("wrong_size")
            try:
                net.get_tour_graph(points + [(0, 0)], M)
            except AssertionError:
                pass
            else:
                raise Violation("not-refused", "%d cities and a matrix of %d rows were accepted" % (m + 1, m))
        G, pos, length = en.guarded("crash", net.get_tour_graph, points, M)
        at = [order.index(i) for i in range(m)]
        want = {frozenset((at[i], at[(i + 1) % m])) for i in range(m)}
        total = sum(d[at[i]][at[(i + 1) % m]] for i in range(m))
        got = {frozenset(e) for e in G.edges}
        if sorted(G.nodes) != list(range(m)) or got != want:
            raise Violation("tour", "the tour %s has the links %s" % (at, sorted(map(sorted, got))))
        if abs(length - total) > 1e-9 * (1 + total):
            raise Violation("length", "the tour %s of %s is said to be %r long, it is %r" % (at, points, length, total))
        if {k: tuple(v) for k, v in pos.items()} != dict(enumerate(points)):
            raise Violation("positions", "the cities are drawn at %s instead of %s" % (pos, points))
        if not np.array_equal(before, np.array(M)):
            raise Violation("altered", "decoding altered the matrix")
        sim.probe("tour_" + kind)
        sim.stats["tours"] += 1


WORLD = C53()
