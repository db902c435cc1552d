from ..core import Invalid, Violation
from ..world import World
from .. import engine as en, boot


class C21(World):
    quick_runs = 6000
    thorough_runs = 120000
    rule = ("Random sandpiles (3 to 8 rows and columns, open or closed) with random heaps, grains dropped from outside at random places "
            "and times, crashes in the middle of a timestep followed by a restart from the last recorded state, and the same pile "
            "object used again; every cell of every state is compared with an exact integer grid. Non-trivial: at least one step; "
            "distinct by plan.")
    state_measure = "distinct grain configurations"
    real = ["Sandpile", "cellular_automaton2d", "netomaton.evolve"]
    assumptions = ["grids have at least three rows and columns; grains are non-negative integers"]

    def generate(self, rng, tier):
        rows, cols = rng.randrange(3, 9), rng.randrange(3, 9)
        heavy = rng.choice([0.05, 0.2, 0.6])
        heights = rng.choice([[4, 5, 7, 12, 30]] * 5 + [[50, 127, 130, 260, 1000]])
        cells = [rng.choice(heights) if rng.random() < heavy else rng.randrange(4) for _ in range(rows * cols)]
        runs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            T = rng.choice([1, 2, 3, 5, 10, 20])
            runs.append({"T": T, "drops": [[rng.randrange(1, T + 1), rng.randrange(rows * cols), rng.choice([1, 1, 2, 4, 9] * 3 + [100, 300])]
                                           for _ in range(rng.choice([0, 1, 2, 5, 10]))],
                         "crash": [rng.randrange(1, T + 1), rng.randrange(rows * cols)] if rng.random() < 0.3 else None,
                         "fresh": rng.random() < 0.3, "compression": rng.random() < 0.15, "network": rng.random() < 0.8})
        return {"rows": rows, "cols": cols, "closed": rng.random() < 0.6, "cells": cells, "runs": runs, "array": rng.random() < 0.3,
                "settle": rng.random() < 0.3}

    @staticmethod
    def topple(grid, rows, cols, closed):
        new = list(grid)
        for i, v in enumerate(grid):
            if v >= 4:
                r, c = divmod(i, cols)
                new[i] -= 4
                for rr, cc in ((r - 1, c), (r + 1, c), (r, c - 1), (r, c + 1)):
                    new[(rr % rows) * cols + cc % cols] += 1
        if closed:
            for i in range(len(new)):
                r, c = divmod(i, cols)
                if r in (0, rows - 1) or c in (0, cols - 1):
                    new[i] = 0
        return new

    def execute(self, plan, sim):
        ntm = boot.load()
        rows, cols, closed = plan["rows"], plan["cols"], plan["closed"]
        if rows < 3 or cols < 3 or len(plan["cells"]) < rows * cols or min(plan["cells"]) < 0:
            raise Invalid("grid")
        make = lambda: ntm.Sandpile(rows=rows, cols=cols, is_closed_boundary=closed)
        pile = make()
        grid = plan["cells"][:rows * cols]
        for i, run in enumerate(plan["runs"]):
            if run["fresh"]:
                pile = make()
            grid = self.run(ntm, pile, grid, run, plan, "evolution %d" % i, sim)
        if plan["settle"] and closed:
            n = 1
            g = grid
            while max(g) >= 4 and n < 400:
                g = self.topple(g, rows, cols, closed)
                n += 1
            if max(g) < 4:
                # one more state shows that it has come to rest
                grid = self.run(ntm, pile, grid, {"T": n, "drops": [], "crash": None, "compression": False, "network": False}, plan, "settling", sim)
                if max(grid) >= 4:
                    raise Violation("unsettled", "%d grains on one cell after %d timesteps" % (max(grid), n))
                sim.probe("settled")

    def run(self, ntm, pile, grid, run, plan, what, sim):
        rows, cols, closed = plan["rows"], plan["cols"], plan["closed"]
        drops = {}
        for t, cell, k in run["drops"]:
            if cell >= rows * cols or k < 0:
                raise Invalid("drop")
            drops[(t, cell)] = drops.get((t, cell), 0) + k
        T, t0 = run["T"], 0
        want = [list(grid)]
        for t in range(1, T + 1):
            g = self.topple(want[-1], rows, cols, closed)
            for cell in range(rows * cols):
                g[cell] += drops.get((t, cell), 0)
            want.append(g)
        got = [want[0]]
        crash = run["crash"]
        while t0 < T:
            def rule(ctx):
                t = ctx.timestep + t0
                if crash and [t, ctx.node_label] == crash:
                    raise en.Injected("crash")
                return pile.activity_rule(ctx)

            def drop(ctx):
                k = drops.get((ctx.timestep + t0, ctx.node_label), 0)
                if k:
                    sim.fault("grains_dropped")
                return ctx.node_activity + k
            # the process dies at a random cell: only the states of completed timesteps survive
            until = T if not crash or crash[0] > T or crash[0] <= t0 else crash[0]
            ic = list(got[-1])
            if plan["array"]:
                import numpy as np
                ic = np.array(ic)

            def go(T):
                return ntm.evolve(pile.network, initial_conditions=ic, activity_rule=rule, timesteps=T,
                                  perturbation=drop if drops else None, compression=run["compression"], persist_network=run["network"])
            if crash and t0 < crash[0] <= T:
                try:
                    go(until - t0 + 1)
                except en.Injected:
                    sim.fault("crash_in_timestep")
                    crash = None
                    until -= 1
                else:
                    raise Violation("swallowed", "%s: the activity rule failed at %s, but the evolution went on" % (what, crash))
                if until == t0:
                    continue
            traj = en.guarded("crash", go, until - t0 + 1)
            if len(traj) != until - t0 + 1:
                raise Violation("length", "%s: %d states for %d timesteps" % (what, len(traj), until - t0 + 1))
            for s in traj[1:]:
                a = s.activities
                if sorted(a) != list(range(rows * cols)):
                    raise Violation("cells", "%s: activities of %s" % (what, sorted(a)))
                got.append([en.plain(a[i]) for i in range(rows * cols)])
            t0 = until
        for t, (g, w) in enumerate(zip(got, want)):
            for cell in range(rows * cols):
                if g[cell] != w[cell]:
                    raise Violation("grains", "%s t=%d: cell (%d, %d) holds %r grains, the rule says %r (%s boundary, %dx%d)"
                                    % (what, t, cell // cols, cell % cols, g[cell], w[cell], "closed" if closed else "open", rows, cols))
            if t and not closed and sum(g) != sum(got[t - 1]) + sum(k for (tt, c), k in drops.items() if tt == t):
                raise Violation("conservation", "%s t=%d: %d grains after %d" % (what, t, sum(g), sum(got[t - 1])))
            sim.state(g)
            sim.log(what, t, g)
        sim.stats["steps"] += T
        return got[-1]


WORLD = C21()
