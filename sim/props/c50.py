import numpy as np

from ..core import Invalid, Violation
from ..world import World
from .. import engine as en, boot, grids


class C50(World):
    quick_runs = 7500
    thorough_runs = 200000
    rule = ("Random elementary, binary (either numbering, radius 1 to 3), totalistic, table, Game of Life and Wireworld automata on rings and "
            "tori of all neighbourhoods; cells damaged from outside at random places and times, crashes within a timestep followed by a "
            "restart from the last recorded state, inner evolutions of another automaton in the middle; memoized or not, several evolutions "
            "with one rule object; every cell of every state is compared with an explicit grid. Non-trivial: at least one step; distinct by plan.")
    state_measure = "distinct configurations (automaton, cells)"
    real = ["binary_ca_rule, nks_ca_rule, totalistic_ca, table_rule, game_of_life_rule, wireworld_rule", "cellular_automaton, cellular_automaton2d",
            "netomaton.evolve"]
    assumptions = ["2r+1 cells at least on a ring, three rows and columns at least (and 2r+1) on a torus, hexagonal grids of radius 1",
                   "cells hold values of the automaton's states"]

    def generate(self, rng, tier):
        kind = rng.choice(["elementary", "elementary", "binary", "binary", "totalistic", "totalistic", "table", "life", "life", "wireworld"])
        p = {"kind": kind, "rows": 0, "cols": 0, "r": 1, "shape": "ring", "k": 2, "rule": 0, "nks": True, "seed": rng.randrange(1 << 20)}
        if kind in ("life", "wireworld"):
            p.update({"shape": "Moore", "rows": rng.randrange(3, 7), "cols": rng.randrange(3, 7), "k": 2 if kind == "life" else 4})
        elif kind == "totalistic" and rng.random() < 0.5:
            p["shape"] = rng.choice(["Moore", "von Neumann", "Hex"])
            p["r"] = 1 if p["shape"] == "Hex" else rng.choice([1, 1, 2])
            if p["shape"] == "von Neumann" and rng.random() < 0.3 or rng.random() < 0.02:
                p["r"] = rng.choice([3, 4]) if p["shape"] == "von Neumann" else 3 if p["shape"] == "Moore" else 1
            low = 2 * p["r"] + 1
            p["rows"], p["cols"] = rng.randrange(low, low + 3), rng.randrange(low, low + 3)
            if p["shape"] == "Hex" and p["rows"] % 2:
                p["rows"] += 1
        else:
            p["r"] = rng.choice([1, 1, 2, 3]) if kind in ("binary", "totalistic") else rng.choice([1, 1, 2]) if kind == "table" else 1
            if kind == "totalistic" and rng.random() < 0.1:
                p["r"] = rng.choice([4, 5, 8])
            p["cols"] = rng.randrange(2 * p["r"] + 1, 2 * p["r"] + 9)
            if rng.random() < 0.03:
                p["cols"] = rng.choice([17, 24, 40])
        if kind in ("totalistic", "table"):
            p["k"] = rng.choice([2, 3, 4, 5, 16, 36, 36] if kind == "totalistic" and p["shape"] == "ring" else
                                [2, 3, 4, 12, 36] if kind == "totalistic" else [2, 3, 4])
        if kind == "table" and p["r"] == 1 and rng.random() < 0.15:
            p["k"] = rng.choice([10, 11, 12])
        n = p["cols"] * max(1, p["rows"])
        size = self.seen(p)
        if kind == "elementary":
            p["rule"] = rng.choice([0, 255, 30, 90, 110, 184, rng.randrange(256), rng.randrange(256)])
        elif kind == "binary":
            p["rule"], p["nks"] = rng.choice([rng.randrange(1 << (1 << size)), rng.randrange(256), 1 << ((1 << size) - 1)]), rng.random() < 0.6
        elif kind == "totalistic":
            top = p["k"] ** (size * (p["k"] - 1) + 1)
            p["rule"] = rng.choice([rng.randrange(top), rng.randrange(top), min(777, top - 1), top - 1])
        p["cells"] = [rng.randrange(p["k"]) for _ in range(n)]
        if kind == "totalistic" and rng.random() < 0.3:
            p["cells"] = [max(0, p["k"] - 1 - rng.choice([0, 0, 0, 1, 2])) for _ in range(n)]      # sums at the top of the range
        if kind == "wireworld":
            of = rng.choice([[0, 1, 2, 3, 3, 3, 3], [0, 1, 2, 3, 3, 3, 3], [1, 1, 1, 1, 3], [1, 3], [0, 1, 2, 3], [0, 0, 3, 3, 3, 3, 1]])
            p["cells"] = [rng.choice(of) for _ in range(n)]
        if kind == "life" or p["k"] == 2:
            density = rng.choice([0.5, 0.5, 0.9, 0.2])
            p["cells"] = [int(rng.random() < density) for _ in range(n)]
        runs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            T = rng.choice([1, 2, 3, 5, 8]) if rng.random() > 0.02 or n > 30 else rng.choice([20, 35, 60])
            runs.append({"T": T, "damage": [[rng.randrange(1, T + 1), rng.randrange(n), rng.randrange(p["k"])]
                                            for _ in range(rng.choice([0, 0, 1, 3, 8]))],
                         "crash": [rng.randrange(1, T + 1), rng.randrange(n)] if rng.random() < 0.3 else None,
                         "nest": [rng.randrange(1, T + 1), rng.randrange(n), rng.choice([0, 1, 2, 3])] if rng.random() < 0.15 else None,
                         "memo": rng.random() < 0.4, "compression": rng.random() < 0.15, "network": rng.random() < 0.85,
                         "order": rng.choice(["AF", "AF", "TF", "SYN"]), "form": rng.choice(["list", "list", "array", "dict"]),
                         "fresh": rng.random() < 0.3, "ordered": rng.random() < 0.8})
        p["runs"] = runs
        p["beyond"] = rng.random() < 0.03
        return p

    def seen(self, p):
        if p["shape"] == "ring":
            return 2 * p["r"] + 1
        return len(grids.torus(9, 9, p["shape"], p["r"])[40])

    def table(self, p):
        """The outcome for every neighbourhood, as the caller writes it down."""
        import itertools
        import random
        rng = random.Random(p["seed"])
        return {"".join("0123456789AB"[x] for x in c): rng.randrange(p["k"]) for c in itertools.product(range(p["k"]), repeat=2 * p["r"] + 1)}

    def setup(self, p):
        low = 2 * p["r"] + 1
        if p["r"] < 1 or p["cols"] < low or (p["shape"] != "ring" and (p["rows"] < low or p["r"] > 4)) or p["k"] < 2:
            raise Invalid("grid")
        if p["shape"] == "Hex" and (p["rows"] % 2 or p["r"] != 1):
            raise Invalid("hexagonal grid")
        if p["kind"] in ("life", "wireworld") and (p["shape"] != "Moore" or p["r"] != 1 or p["k"] != (2 if p["kind"] == "life" else 4)):
            raise Invalid("kind")
        if p["kind"] in ("elementary", "binary") and p["k"] != 2:
            raise Invalid("k")
        if p["kind"] == "table" and (p["k"] > 12 or p["k"] ** (2 * p["r"] + 1) > 2000):
            raise Invalid("table")
        n = p["cols"] * (p["rows"] if p["shape"] != "ring" else 1)
        if len(p["cells"]) < n or not all(0 <= c < p["k"] for c in p["cells"]):
            raise Invalid("cells")
        size = self.seen(p)
        if p["rule"] < 0 or (p["kind"] in ("elementary", "binary") and p["rule"] >= 1 << (1 << size)) or \
                (p["kind"] == "totalistic" and p["rule"] >= p["k"] ** (size * (p["k"] - 1) + 1)):
            raise Invalid("rule")
        sees = grids.ring(n, p["r"]) if p["shape"] == "ring" else grids.torus(p["rows"], p["cols"], p["shape"], p["r"])
        kind = p["kind"]
        if kind in ("elementary", "binary"):
            step = grids.binary(p["rule"], kind == "elementary" or p["nks"])
        elif kind == "totalistic":
            step = grids.totalistic(p["k"], p["rule"])
        elif kind == "table":
            table = self.table(p)
            step = lambda seen, me: table["".join("0123456789AB"[x] for x in seen)]
        else:
            step = {"life": grids.life, "wireworld": grids.wireworld}[kind]
        return n, sees, step

    def make_rule(self, ntm, p):
        r = ntm.rules
        if p["kind"] == "elementary":
            return r.nks_ca_rule(p["rule"])
        if p["kind"] == "binary":
            return r.binary_ca_rule(p["rule"], scheme="nks") if p["nks"] else r.binary_ca_rule(p["rule"])
        if p["kind"] == "totalistic":
            return r.totalistic_ca(p["k"], p["rule"])
        if p["kind"] == "table":
            return ntm.table_rule(self.table(p))
        return r.game_of_life_rule if p["kind"] == "life" else r.wireworld_rule

    def make_net(self, ntm, p, ordered):
        if p["shape"] == "ring":
            return ntm.topology.cellular_automaton(p["cols"], r=p["r"])
        if p["kind"] in ("totalistic", "life", "wireworld") and not ordered:
            return ntm.topology.cellular_automaton2d(p["rows"], p["cols"], r=p["r"], neighbourhood=p["shape"], ordered=False)
        return ntm.topology.cellular_automaton2d(p["rows"], p["cols"], r=p["r"], neighbourhood=p["shape"])

    def check_net(self, p, net, n, sees):
        if sorted(net.nodes) != list(range(n)):
            raise Violation("cells", "the network of %d cells has the nodes %s" % (n, en.short(list(net.nodes))))
        for c in range(n):
            inc = net.in_edges(c)
            if sorted(inc) != sorted(set(sees[c])):
                raise Violation("neighbourhood", "cell %d (%s, r=%d, %dx%d) is connected with %s, by definition with %s"
                                % (c, p["shape"], p["r"], p["rows"], p["cols"], sorted(inc), sorted(set(sees[c]))))
            if any(len(es) != 1 for es in inc.values()):
                raise Violation("neighbourhood", "cell %d has parallel connections: %s" % (c, inc))
        rot = net.rotation_system
        if p["shape"] == "ring":
            for c in range(n):
                if list(rot[c]) != sees[c]:
                    raise Violation("neighbourhood", "cell %d of %d (r=%d) looks at %s, by definition at %s" % (c, n, p["r"], list(rot[c]), sees[c]))
        elif rot is not None:
            for c in range(n):
                if sorted(rot[c]) != sees[c]:
                    raise Violation("neighbourhood", "cell %d looks at %s, by definition at %s" % (c, list(rot[c]), sees[c]))

    def execute(self, plan, sim):
        ntm = boot.load()
        sim.budget = 60000
        p = plan
        n, sees, step = self.setup(p)
        rule = self.make_rule(ntm, p)
        grid = list(p["cells"][:n])
        nets = {}
        for i, run in enumerate(p["runs"]):
            if run["fresh"]:
                rule = self.make_rule(ntm, p)
            if run["ordered"] not in nets:
                nets[run["ordered"]] = self.make_net(ntm, p, run["ordered"])
                self.check_net(p, nets[run["ordered"]], n, sees)
            grid = self.run(ntm, rule, nets[run["ordered"]], grid, run, p, (n, sees, step), "evolution %d" % i, sim)
        if p["beyond"] and p["kind"] == "totalistic":
            self.beyond(ntm, p, n, sim)
        sim.probe(p["kind"])
        sim.probe("shape_" + p["shape"])

    def beyond(self, ntm, p, n, sim):
        """A rule number that needs more digits than there are sums is refused."""
        rule = ntm.rules.totalistic_ca(p["k"], p["k"] ** (self.seen(p) * (p["k"] - 1) + 1))
        try:
            ntm.evolve(self.make_net(ntm, p, True), initial_conditions=[0] * n, activity_rule=rule, timesteps=2)
        except Exception:
            sim.probe("rule_out_of_range_refused")
            return
        raise Violation("not-refused", "a totalistic rule number beyond the %d-colour range was accepted" % p["k"])

    def run(self, ntm, rule, net, grid, run, p, spec, what, sim):
        n, sees, step = spec
        damage = {}
        for t, cell, v in run["damage"]:
            if cell >= n or not 0 <= v < p["k"]:
                raise Invalid("damage")
            damage[(t, cell)] = v
        T, t0 = run["T"], 0
        want = [list(grid)]
        for t in range(1, T + 1):
            old = want[-1]
            want.append([damage.get((t, c), step([old[x] for x in sees[c]], old[c])) for c in range(n)])
        got = [want[0]]
        crash, nest = run["crash"], run["nest"]
        if run["memo"] and p["kind"] == "life":
            memo = {"memoize": True, "memoization_key": self.life_key(ntm)}
        elif run["memo"] and p["kind"] != "wireworld":
            memo = {"memoize": True}
        else:
            memo = {}
        if crash and memo:
            crash = None        # a memoized rule is not invoked at every cell
        while t0 < T:
            def wrapped(ctx):
                sim.spend()
                t = ctx.timestep + t0
                if crash and [t, ctx.node_label] == crash:
                    raise en.Injected("crash")
                if nest and [t, ctx.node_label] == nest[:2]:
                    # another automaton with the same rule object evolves meanwhile
                    sim.fault("nested_evolution")
                    self.nested(ntm, p, rule, net, spec, nest[2], grid, memo, sim)
                return rule(ctx)

            def hit(ctx):
                key = (ctx.timestep + t0, ctx.node_label)
                if key in damage:
                    sim.fault("cell_damaged")
                    return damage[key] if key[1] % 2 else np.int64(damage[key])
                return ctx.node_activity
            dies = crash and t0 < crash[0] <= T
            until = crash[0] if dies else T
            ic = list(got[-1])
            if run["form"] == "array":
                ic = np.array(ic)
            elif run["form"] == "dict":
                ic = dict(enumerate(ic))

            def go(steps):
                return ntm.evolve(net, initial_conditions=ic, activity_rule=wrapped, timesteps=steps,
                                  perturbation=hit if damage else None, compression=run["compression"], persist_network=run["network"],
                                  update_order=getattr(ntm.UpdateOrder, en.ORDERS[run["order"]]), **memo)
            if dies:
                try:
                    go(until - t0 + 1)
                except en.Injected:
                    sim.fault("crash_in_timestep")
                    crash = None
                    until -= 1
                else:
                    raise Violation("swallowed", "%s: the activity rule failed at %s, but the evolution went on" % (what, crash))
                if until == t0:
                    continue
            traj = en.guarded("crash", go, until - t0 + 1)
            if len(traj) != until - t0 + 1:
                raise Violation("length", "%s: %d states for %d timesteps" % (what, len(traj), until - t0 + 1))
            for s in traj[1:]:
                a = s.activities
                if sorted(a) != list(range(n)):
                    raise Violation("cells", "%s: activities of %s" % (what, sorted(a)))
                got.append([a[i] for i in range(n)])
            t0 = until
        for t, (g, w) in enumerate(zip(got, want)):
            for c in range(n):
                if g[c] != w[c] or type(g[c]) is not int:
                    old = got[t - 1] if t else g
                    raise Violation("cell", "%s t=%d: cell %d is %r, by definition %r (it saw %s; %s)"
                                    % (what, t, c, g[c], w[c], [old[x] for x in sees[c]],
                                       {k: p[k] for k in ("kind", "rule", "nks", "k", "r", "shape", "rows", "cols")}))
            sim.state((p["kind"], p["rule"], g))
            sim.log(what, t, g)
        sim.stats["steps"] += T
        sim.stats["cells"] += T * n
        return got[-1]

    def nested(self, ntm, p, rule, net, spec, r, grid, memo, sim):
        """An evolution with the same rule object on this network or, if the rule number has a meaning there, a ring of another radius."""
        n, sees, step = spec
        size = 2 * r + 1
        if r and ((p["kind"] in ("elementary", "binary") and p["rule"] < 1 << (1 << size)) or
                  (p["kind"] == "totalistic" and p["rule"] < p["k"] ** (size * (p["k"] - 1) + 1))):
            n = size + len(grid) % 5
            net, sees = ntm.topology.cellular_automaton(n, r=r), grids.ring(n, r)
            sim.probe("rule_on_another_ring")
        cells = [(grid[i % len(grid)] + 1 + i // len(grid)) % p["k"] for i in range(n)]
        traj = ntm.evolve(net, initial_conditions=cells, activity_rule=rule, timesteps=2, **memo)
        for c in range(n):
            want = step([cells[x] for x in sees[c]], cells[c])
            if traj[1].activities[c] != want:
                raise Violation("cell", "an evolution with the same rule object on %d cells: cell %d is %r, by definition %r (it saw %s; %s)"
                                % (n, c, traj[1].activities[c], want, [cells[x] for x in sees[c]], {k: p[k] for k in ("kind", "rule", "nks", "k")}))

    def life_key(self, ntm):
        class Key(ntm.MemoizationKey):
            def to_key(self, ctx):
                return ctx.current_activity, sum(ctx.neighbourhood_activities)
        return Key()


WORLD = C50()
