import random

from ..core import Invalid, Violation
from ..world import World
from .. import engine as en, boot, seams
from ..odds import Counts


class Draws:
    """Decides every uniform draw."""
    VALUES = {"low": [0.0], "high": [1 - 2 ** -53], "alternate": [0.0, 1 - 2 ** -53], "edge": [0.25, 1 / 3, 0.5, 1 - 2 ** -53, 0.0]}

    def __init__(self, kind, seed):
        self.kind, self.rng, self.n = kind, random.Random(seed), 0

    def next(self):
        self.n += 1
        v = self.VALUES.get(self.kind)
        return self.rng.random() if v is None else v[self.n % len(v)] if self.kind != "edge" else self.rng.choice(v)

    def np_random(self, f, *a, **k):
        return f(*a, **k) if a or k else self.next()

    np_random_sample = np_rand = np_random

    def py_random(self, f):
        return self.next()

    def np_uniform(self, f, low=0.0, high=1.0, size=None):
        return f(low, high, size) if size is not None else low + (high - low) * self.next()


class C23(World):
    quick_runs = 6600
    thorough_runs = 100000
    rule = ("Random fungal growth models (3 to 6 wide and high, random inocula, resource layers and absorption rates), every draw decided "
            "by an adversary (lowest, highest, alternating, boundary values, random), driven for up to 25 timesteps with crashes inside "
            "the growth or the flow of a timestep followed by a restart from the last recorded state, and droughts (some nodes lose what they hold "
            "between two timesteps); in a few runs an honest generator draws, and the frequency of each kind of growth is held against its "
            "probability (Chernoff bound e^-30). Non-trivial: at least one step; "
            "distinct by plan.")
    state_measure = "distinct (links, living nodes) pairs"
    real = ["FungalGrowthModel", "lattice", "Network", "netomaton.evolve"]
    stub = ["outcomes of the uniform draws"]
    assumptions = ["width and height are at least three; initial resources and absorption rates are not negative; resource is compared to a "
                   "relative precision of 1e-9"]

    def generate(self, rng, tier):
        if rng.random() < 0.004:
            return {"fair": rng.randrange(1 << 20), "w": rng.randrange(10, 14), "h": rng.randrange(10, 14), "every": rng.choice([0.1, 0.3]),
                    "rounds": 40}
        w, h = rng.randrange(3, 7), rng.randrange(3, 7)
        n = w * h
        init = [0.0] * n
        for i in rng.sample(range(n), rng.choice([1, 1, 2, 3, n // 2])):
            init[i] = rng.choice([1, 10.0, 0.125, 500])
        layer = None
        if rng.random() < 0.5:
            layer = [1 if rng.random() < rng.choice([0.1, 0.5]) else 0 for _ in range(n)]
        T = rng.choice([2, 4, 8, 15, 25])
        return {"w": w, "h": h, "init": init, "layer": layer, "rate": rng.choice([0, 1, 10.0, 0.3]), "T": T,
                "draws": [rng.choice(["low", "high", "alternate", "edge", "seeded", "seeded"]), rng.randrange(1 << 20)],
                "crashes": sorted([rng.randrange(1, T + 1), rng.choice([-1, rng.randrange(n)])] for _ in range(rng.choice([0, 0, 1, 2]))),
                "drought": [rng.randrange(1, T + 1), rng.choice([2, 3])] if rng.random() < 0.3 else None,
                "compression": rng.random() < 0.2, "seed": rng.choice([None, None, 0, 5]), "ints": rng.random() < 0.2}

    def fair(self, plan, sim):
        """Growth under an honest generator: how often each kind of pair was linked, and in which direction."""
        import numpy as np
        ntm = boot.load()
        w, h, rng = plan["w"], plan["h"], random.Random(plan["fair"])
        if w < 3 or h < 3 or plan["rounds"] < 1:
            raise Invalid("size")
        n, pairs = w * h, self.pairs(w, h)
        np.random.seed(plan["fair"])
        random.seed(plan["fair"])
        counts = Counts()
        for _ in range(plan["rounds"]):
            init = [rng.choice([0.5, 1.0, 8.0]) if rng.random() < plan["every"] else 0.0 for _ in range(n)]
            if not any(init):
                continue
            m = en.guarded("crash", ntm.FungalGrowthModel, 1, w, h, list(init), verbose=False)
            traj = en.guarded("crash", ntm.evolve, m.network, initial_conditions=list(init), activity_rule=m.activity_rule,
                              topology_rule=m.topology_rule, timesteps=4, update_order=m.update_order, copy_network=m.copy_network)
            links, held = [[]] + [[(i, j) for i, j, _ in s.network.edges] for s in traj[1:]], [s.activities for s in traj]
            for t in range(1, len(traj)):
                deg = [0] * n
                for i, j in links[t - 1]:
                    deg[i] += 1
                    deg[j] += 1
                s0, s1 = set(links[t - 1]), set(links[t])
                for i, j in pairs:
                    if (i, j) in s0 or (j, i) in s0:
                        continue
                    if held[t - 1][i] > 0 and held[t - 1][j] > 0:
                        for kind, of in (("either direction", True), ("the direction along the lattice", None)):
                            if of or abs(i - j) in (1, w):
                                counts.trial(kind, 0.5, (i, j) in s1)
                        if held[t - 1][i] != held[t - 1][j]:
                            rich = (i, j) if held[t - 1][i] > held[t - 1][j] else (j, i)
                            counts.trial("a link from the richer of two nodes", 0.5, rich in s1)
                    elif held[t - 1][i] > 0 or held[t - 1][j] > 0:
                        a, b = (i, j) if held[t - 1][i] > 0 else (j, i)
                        outs = sum(1 for x, _ in links[t - 1] if x == a)
                        counts.trial("growth from a node with %d links" % deg[a], 1 / (4 - deg[a]), (a, b) in s1)
                        counts.trial("growth from a node with %d links, %d of them outgoing" % (deg[a], outs), 1 / (4 - deg[a]), (a, b) in s1)
                        counts.trial("growth %s from a node with %d links" % ("up" if b > a else "down", deg[a]), 1 / (4 - deg[a]), (a, b) in s1)
                sim.stats["steps"] += 1
        counts.judge("%d x %d" % (w, h), sim)
        sim.fault("draws_fair")
        sim.state(sorted(counts.trials.items()))

    @staticmethod
    def pairs(w, h):
        return sorted({tuple(sorted((r * w + c, x))) for r in range(h) for c in range(w) for x in ((r + 1) % h * w + c, r * w + (c + 1) % w)})

    def execute(self, plan, sim):
        if "fair" in plan:
            return self.fair(plan, sim)
        ntm = boot.load()
        w, h = plan["w"], plan["h"]
        n = w * h
        if w < 3 or h < 3 or len(plan["init"]) < n or (plan["layer"] is not None and len(plan["layer"]) < n) or plan["T"] < 1:
            raise Invalid("size")
        init = plan["init"][:n]
        if plan["ints"]:
            init = [int(x) if x >= 1 else int(x > 0) for x in init]
        if not any(init) or min(init) < 0 or plan["rate"] < 0:
            raise Invalid("resource")
        layer = plan["layer"][:n] if plan["layer"] is not None else None
        import numpy as np
        np.random.seed(3)
        m = en.guarded("crash", ntm.FungalGrowthModel, plan["rate"], w, h, list(init), resource_layer=list(layer) if layer is not None else None,
                       seed=plan["seed"], verbose=False)
        sites = layer if layer else [1 if x else 0 for x in init]
        pairs = {frozenset(p) for p in self.pairs(w, h)}
        self.lattice(pairs, w, h)
        seams.S.rng = Draws(*plan["draws"])
        net, acts = m.network, list(init)
        if list(net.edges) or sorted(net.nodes) != list(range(n)):
            raise Violation("start", "the initial network has nodes %s and links %s" % (sorted(net.nodes), list(net.edges)))
        crashes = [tuple(x) for x in plan["crashes"]]
        states = [(self.view(net), list(init))]
        t0, T = 0, plan["T"]
        drought, dried = plan.get("drought"), None
        seen = {}
        while t0 < T:
            crash = next((x for x in crashes if t0 < x[0] <= T), None)

            def topology(ctx):
                self.keep(seen, ctx.timestep - 1 + t0, ctx.network)
                if crash and crash == (ctx.timestep + t0, -1):
                    m.topology_rule(ctx)
                    raise en.Injected("crash")
                return m.topology_rule(ctx)

            def activity(ctx):
                if crash and crash == (ctx.timestep + t0, ctx.node_label):
                    raise en.Injected("crash")
                return m.activity_rule(ctx)

            def go(steps):
                return ntm.evolve(net, initial_conditions=list(acts), activity_rule=activity, topology_rule=topology, timesteps=steps + 1,
                                  update_order=m.update_order, copy_network=m.copy_network, compression=plan["compression"])
            until = T
            dry = drought and t0 < drought[0] < T and (not crash or crash[0] > drought[0])
            if dry:
                until = drought[0]
            elif crash and crash[1] < n:
                try:
                    go(T - t0)
                except en.Injected:
                    sim.fault("crash_in_growth" if crash[1] < 0 else "crash_in_flow")
                else:
                    raise Violation("swallowed", "a callback failed at %s, but the evolution went on" % (crash,))
                until = crash[0] - 1
                seen = {}
            if not dry:
                crashes = [x for x in crashes if x != crash]
            crash = None
            if until == t0:
                continue
            traj = en.guarded("crash", go, until - t0)
            for k, s in enumerate(traj):
                if k == 0:
                    continue
                a = s.activities
                if sorted(a) != list(range(n)):
                    raise Violation("nodes", "activities of %s" % sorted(a))
                states.append((self.view(s.network), [en.plain(a[i]) for i in range(n)]))
            net, acts, t0 = traj[-1].network, states[-1][1], until
            if dry:
                acts = [0.0 if (i + plan["draws"][1]) % drought[1] == 0 else a for i, a in enumerate(acts)]
                dried = (until, list(acts))
                sim.fault("drought")
        for t in sorted(seen):
            if t < len(states) and seen[t] != states[t][0]:
                raise Violation("rewritten", "the network of timestep %d was %s, and is recorded as %s" % (t, seen[t], states[t][0]))
        for t in range(1, len(states)):
            before = (states[t - 1][0], dried[1]) if dried and dried[0] == t - 1 else states[t - 1]
            self.judge(t, before, states[t], pairs, sites, plan, n, sim)
        sim.stats["steps"] += len(states) - 1
        sim.fault("draws_" + plan["draws"][0])

    def lattice(self, pairs, w, h):
        assert len(pairs) == 2 * w * h

    @staticmethod
    def view(net):
        return sorted([i, j, en.plain(d.get("weight"))] for i, j, d in net.edges)

    def keep(self, seen, t, net):
        seen.setdefault(t, self.view(net))

    def judge(self, t, before, after, pairs, sites, plan, n, sim):
        (e0, a0), (e1, a1) = before, after
        l0, l1 = [(i, j) for i, j, _ in e0], [(i, j) for i, j, _ in e1]
        if len(set(l1)) != len(l1):
            raise Violation("double-link", "t=%d: %s" % (t, l1))
        s0, s1 = set(l0), set(l1)
        if s0 - s1:
            raise Violation("link-lost", "t=%d: the links %s disappeared" % (t, sorted(s0 - s1)))
        for i, j in s1 - s0:
            if frozenset((i, j)) not in pairs:
                raise Violation("not-lattice", "t=%d: %d and %d were linked, which are not neighbours on the lattice" % (t, i, j))
            if not (a0[i] > 0 or a0[j] > 0):
                raise Violation("dead-link", "t=%d: %d and %d were linked, neither held resource" % (t, i, j))
        for i, j in s1:
            if (j, i) in s1:
                raise Violation("two-way", "t=%d: %d and %d are linked both ways" % (t, i, j))
        deg0 = [0] * n
        for i, j in l0:
            deg0[i] += 1
            deg0[j] += 1
        for p in pairs:
            i, j = tuple(p)
            for x, y in ((i, j), (j, i)):
                if a0[x] > 0 and a0[y] <= 0 and deg0[x] == 3 and not s1 & {(i, j), (j, i)}:
                    raise Violation("missing-growth", "t=%d: %d had one free place for a link, and didn't grow to %d" % (t, x, y))
            if a0[i] > 0 and a0[j] > 0 and (i, j) not in s1 and (j, i) not in s1:
                raise Violation("missing-link", "t=%d: %d and %d both held resource and are not linked" % (t, i, j))
        deg, out = [0] * n, {}
        for i, j, wgt in e1:
            deg[i] += 1
            deg[j] += 1
            out.setdefault(i, []).append(wgt)
        if max(deg) > 4:
            raise Violation("degree", "t=%d: node %d has %d links" % (t, deg.index(max(deg)), max(deg)))
        for i, ws in out.items():
            if max(ws) != min(ws) or abs(sum(ws) - 1) > 1e-9:
                raise Violation("weights", "t=%d: the outgoing links of %d have the weights %s" % (t, i, ws))
        for x in range(n):
            ins = [(i, wgt) for i, j, wgt in e1 if j == x]
            want = sum(a0[i] * wgt for i, wgt in ins) if ins else a0[x]
            if a0[x] > 0 and sites[x]:
                want += plan["rate"]
            if abs(want - a1[x]) > 1e-9 * max(1.0, abs(want)):
                raise Violation("resource", "t=%d: node %d holds %r, expected %r (held %r, received along %s)" % (t, x, a1[x], want, a0[x], ins))
        sim.state((l1, [i for i in range(n) if a1[i] > 0]))
        sim.log(t, l1, [round(x, 6) for x in a1])


WORLD = C23()
