import copy
import random

from ..core import Invalid, Violation
from ..world import World
from .. import engine as en, boot, grids

KINDS = ["timesteps", "conditions", "order", "no-network", "edge", "rotation", "ring", "torus", "async", "tm", "direction", "substitution",
         "table", "fungal", "tour", "history", "plot", "ncr", "callback", "head", "random"]
JUNK = ["sync", "ACTIVITIES_FIRST", 17, 2.5]


class Boom(Exception):
    pass


class C28(World):
    quick_runs = 12000
    thorough_runs = 300000
    rule = ("Sessions of requests that can't be met (neither timesteps nor input, wrong numbers of initial conditions, unknown update orders, "
            "boundaries, neighbourhoods, layouts and directions, links and nodes that don't exist, sizes that don't match, missing table entries, "
            "topology rules without a result, ... - at the start or at any timestep of an evolution, in any mode), each with its arguments then "
            "compared to what they were, and followed (sometimes also preceded) by the same request put right. Non-trivial: at least one "
            "request refused; distinct by plan.")
    time_unit = "requests"
    state_measure = "distinct (request, result) pairs"
    real = ["netomaton.evolve", "Network", "topology", "models, rules, rule tables, analysis and plots at their refusals"]
    stub = ["the display backend"]
    assumptions = ["what can't be met is what documentation or code declare as such", "a Network whose node labels are integers or strings"]

    def generate(self, rng, tier):
        ops = []
        for _ in range(rng.choice([1, 2, 4, 7])):
            T = rng.choice([2, 3, 5, 9])
            ops.append({"kind": rng.choice(KINDS), "seed": rng.randrange(1 << 20), "T": T, "at": rng.randrange(1, T), "first": rng.random() < 0.3,
                        "n": rng.randrange(1, 7), "pick": rng.randrange(1 << 12), "form": rng.choice(["list", "dict", "array"]),
                        "options": {k: True for k in ("memoize", "compression") if rng.random() < 0.3}})
        return {"ops": ops}

    def execute(self, plan, sim):
        ntm = boot.load()
        sim.budget = 20000
        for i, op in enumerate(plan["ops"]):
            if op["kind"] not in KINDS + ["periodic"] or op["n"] < 1 or op["T"] < 2 or not 1 <= op["at"] < op["T"] or op["form"] not in ("list", "dict", "array"):
                raise Invalid("op")
            if not isinstance(op["options"], dict) or set(op["options"]) - {"memoize", "compression"}:
                raise Invalid("options")
            bad, good, inputs, what = getattr(self, "make_" + op["kind"].replace("-", "_"))(ntm, op, random.Random(op["seed"]))
            what = "request %d (%s): %s" % (i, op["kind"], what)
            before = repr([f() for f in inputs])
            if op["first"]:
                self.put_right(good, what, sim)
                before = repr([f() for f in inputs])
            try:
                got = bad()
            except (Violation, Invalid):
                raise
            except Exception as e:
                if isinstance(e, (MemoryError, RecursionError, NameError, UnboundLocalError)):
                    raise Violation("crash", "%s: %s: %s" % (what, type(e).__name__, e))
                sim.fault(op["kind"])
                sim.log(what, "refused")
                if op["kind"] == "callback" and not isinstance(e, Boom):
                    raise Violation("swallowed", "%s: the callback's error became %r" % (what, e))
            else:
                raise Violation("not-refused", "%s: gave %s" % (what, en.short(repr(got), 300)))
            after = repr([f() for f in inputs])
            if after != before:
                raise Violation("trace", "%s: refused, but left %s of %s" % (what, en.short(after), en.short(before)))
            self.put_right(good, what, sim)
            sim.stats["steps"] += 1

    def put_right(self, good, what, sim):
        if good is None:
            return
        call, want = good
        got = en.guarded("crash", call)
        if got != want:
            raise Violation("wrong", "%s: put right it gives %s, by definition %s" % (what, en.short(repr(got)), en.short(repr(want))))
        sim.state((what.split(":")[0], repr(want)))
        sim.log(want)

    # ---- evolutions -------------------------------------------------------------------------------------------------------
    @staticmethod
    def system(ntm, op, rng):
        """A random network, a rule, and the activities the rule must give it."""
        n = op["n"]
        lab = [i if op["pick"] % 3 else "n%d" % i for i in range(n)] if op["form"] == "dict" else list(range(n))
        links = sorted({(rng.randrange(n), rng.randrange(n)) for _ in range(2 * n)})
        net = ntm.Network()
        for x in lab:
            net.add_node(x)
        for i, j in links:
            net.add_edge(lab[i], lab[j])
        init = [rng.randrange(5) for _ in range(n)]
        rows = [list(init)]
        for _ in range(1, op["T"]):
            a = rows[-1]
            rows.append([(sum(a[i] for i, j in links if j == x) + 1) % 5 for x in range(n)])

        def rule(ctx):
            return (sum(ctx.neighbourhood_activities) + 1) % 5
        form = {"list": lambda v: list(v), "dict": lambda v: {(lab[i] if i < n else "x%d" % i): x for i, x in enumerate(v)},
                "array": lambda v: __import__("numpy").array(v)}[op["form"]]
        rows = [dict(zip(lab, r)) for r in rows]
        run = lambda **k: [{x: en.plain(v) for x, v in s.activities.items()} for s in ntm.evolve(net, **dict(op["options"], **k))]
        view = lambda: (list(net.nodes), sorted((repr(a), repr(b)) for a, b, _ in net.edges), repr(net.rotation_system))
        return net, lab, init, rows, rule, form, run, view

    def make_timesteps(self, ntm, op, rng):
        net, lab, init, rows, rule, form, run, view = self.system(ntm, op, rng)
        start = form(init)
        return (lambda: run(initial_conditions=start, activity_rule=rule),
                (lambda: run(initial_conditions=start, activity_rule=rule, timesteps=op["T"]), rows),
                [view, lambda: start], "evolve without timesteps and input")

    def make_conditions(self, ntm, op, rng):
        net, lab, init, rows, rule, form, run, view = self.system(ntm, op, rng)
        m = rng.choice([k for k in (0, op["n"] - 1, op["n"] + 1, 2 * op["n"]) if k != op["n"]])
        start, wrong = form(init), form([rng.randrange(5) for _ in range(m)])
        calls = []

        def counted(ctx):
            calls.append(ctx.node_label)
            return rule(ctx)
        return (lambda: run(initial_conditions=wrong, activity_rule=counted, timesteps=op["T"]),
                (lambda: run(initial_conditions=start, activity_rule=rule, timesteps=op["T"]), rows),
                [view, lambda: start, lambda: wrong, lambda: len(calls)], "%d initial conditions (%s) for %d nodes" % (m, op["form"], op["n"]))

    def make_order(self, ntm, op, rng):
        net, lab, init, rows, rule, form, run, view = self.system(ntm, op, rng)
        start, order = form(init), JUNK[op["pick"] % len(JUNK)]
        right = rng.choice([ntm.UpdateOrder.ACTIVITIES_FIRST, ntm.UpdateOrder.TOPOLOGY_FIRST, ntm.UpdateOrder.SYNCHRONOUS])
        return (lambda: run(initial_conditions=start, activity_rule=rule, timesteps=op["T"], update_order=order),
                (lambda: run(initial_conditions=start, activity_rule=rule, timesteps=op["T"], update_order=right), rows),
                [view, lambda: start], "the update order %r" % (order,))

    def make_no_network(self, ntm, op, rng):
        net, lab, init, rows, rule, form, run, view = self.system(ntm, op, rng)
        start = form(init)
        order = rng.choice([ntm.UpdateOrder.ACTIVITIES_FIRST, ntm.UpdateOrder.TOPOLOGY_FIRST, ntm.UpdateOrder.SYNCHRONOUS])
        act = rng.random() < 0.7

        def nothing(ctx):
            return None if ctx.timestep == op["at"] else ctx.network
        k = dict(initial_conditions=start, activity_rule=rule, timesteps=op["T"], update_order=order) if act else dict(timesteps=op["T"], update_order=order)
        if not act and op["options"].get("memoize"):
            del op["options"]["memoize"]
        return (lambda: run(topology_rule=nothing, **k), (lambda: run(topology_rule=lambda ctx: ctx.network, **k), rows if act else [{}] * op["T"]),
                [view, lambda: start], "a topology rule that returns nothing at t=%d (%s)" % (op["at"], order))

    def make_callback(self, ntm, op, rng):
        """A callback fails: its error comes out, and the same evolution succeeds afterwards."""
        net, lab, init, rows, rule, form, run, view = self.system(ntm, op, rng)
        start = form(init)
        which = rng.choice(["activity_rule", "topology_rule", "perturbation", "input"])
        if op["options"].get("memoize") and which == "activity_rule":
            del op["options"]["memoize"]       # remembered results need no call
        broken = [True]

        def tick(ctx, t, x):
            if broken[0] and t == op["at"]:
                raise Boom(which)
            return x
        k = dict(initial_conditions=start, activity_rule=rule, timesteps=op["T"])
        if which == "activity_rule":
            k["activity_rule"] = lambda ctx: tick(ctx, ctx.timestep, rule(ctx))
        elif which == "topology_rule":
            k["topology_rule"] = lambda ctx: tick(ctx, ctx.timestep, ctx.network)
        elif which == "perturbation":
            k["perturbation"] = lambda ctx: tick(ctx, ctx.timestep, ctx.node_activity)
        else:
            k.pop("timesteps")
            k["input"] = lambda t, a, n: tick(None, t, {x: 0 for x in lab} if t < op["T"] else None)

        def right():
            broken[0] = False
            try:
                return run(**k)
            finally:
                broken[0] = True
        return lambda: run(**k), (right, rows), [view, lambda: start], "%s fails at t=%d" % (which, op["at"])

    def make_edge(self, ntm, op, rng):
        net, lab, init, rows, rule, form, run, view = self.system(ntm, op, rng)
        n, have = op["n"], {(a, b) for a, b, _ in net.edges}
        pairs = [(a, b) for a in lab + ["nobody"] for b in lab + ["nobody"] if (a, b) not in have]
        a, b = rng.choice(pairs)
        full = lambda: (list(net.nodes), [(x, y, sorted(d.items())) for x, y, d in net.edges])
        i, j = rng.choice(sorted(have, key=repr)) if have else (None, None)

        def right():
            net.update_edge(i, j, weight=3)
            return [d for x, y, d in net.edges if (x, y) == (i, j)]
        return lambda: net.update_edge(a, b, weight=2), (right, [{"weight": 3}]) if have else None, [full], "updating the link %r -> %r" % (a, b)

    def make_rotation(self, ntm, op, rng):
        net, lab, init, rows, rule, form, run, view = self.system(ntm, op, rng)
        around = {x: list(net.in_edges(x)) for x in lab}
        for v in around.values():
            rng.shuffle(v)
        wrong = {x: list(v) for x, v in around.items()}
        x = rng.choice(lab)
        if rng.random() < 0.5:
            wrong["nobody"] = []
        else:
            wrong[x].insert(rng.randrange(len(wrong[x]) + 1), "nobody")

        def right():
            net.rotation_system = around
            try:
                return {k: list(v) for k, v in net.rotation_system.items()}
            finally:
                pass

        def set_wrong():
            net.rotation_system = wrong
        return set_wrong, (right, {k: list(v) for k, v in around.items()}), [view, lambda: wrong], "the rotation system %s" % wrong

    # ---- builders ---------------------------------------------------------------------------------------------------------
    def make_ring(self, ntm, op, rng):
        n, r = rng.randrange(3, 8), 1
        t = ntm.topology
        links = lambda net: sorted((a, b) for a, b, _ in net.edges)
        matrix = lambda m: sorted((i, j) for i, row in enumerate(m) for j, v in enumerate(row) if v)
        want = sorted((j, i) for i, seen in grids.ring(n, r).items() for j in set(seen))
        case = op["pick"] % 3
        if case == 0:
            m = rng.choice([0, 1, 2, 2])
            return lambda: t.cellular_automaton(m), (lambda: links(t.cellular_automaton(n)), want), [], "a ring of %d cells" % m
        if case == 1:
            m = rng.choice([0, 1, 2, 2])
            return lambda: t.adjacency.cellular_automaton(m), (lambda: matrix(t.adjacency.cellular_automaton(n)), want), [], "the matrix of a ring of %d cells" % m
        b = rng.choice(["open", "fixed", "Periodic", "", None])
        return (lambda: t.adjacency.cellular_automaton(n, r, b), (lambda: matrix(t.adjacency.cellular_automaton(n, r, "periodic")), want), [],
                "the boundary %r" % (b,))

    def make_torus(self, ntm, op, rng):
        rows, cols = rng.choice([(3, 3), (3, 4), (4, 3), (1, 9), (9, 1), (2, 5)])
        t, shape = ntm.topology, rng.choice(["Moore", "von Neumann"])
        links = lambda net: sorted((a, b) for a, b, _ in net.edges)
        matrix = lambda m: sorted((i, j) for i, row in enumerate(m) for j, v in enumerate(row) if v)
        want = sorted((j, i) for i, seen in grids.torus(rows, cols, shape).items() for j in seen)
        f, g = (t.cellular_automaton2d, links) if op["pick"] % 2 else (t.adjacency.cellular_automaton2d, matrix)
        good = (lambda: g(f(rows, cols, 1, shape)), want)
        case = rng.randrange(3)
        if case == 0:
            a, b = rng.choice([(1, 1), (2, 4), (4, 2), (1, 8), (8, 1), (2, 3), (0, 9), (0, 0), (2, 2)])
            return lambda: f(a, b, 1, shape), good, [], "a grid of %d x %d cells" % (a, b)
        if case == 1:
            s = rng.choice(["moore", "VonNeumann", "von neumann", "hex", "", None, "Triangular"])
            return lambda: f(rows, cols, 1, s), good, [], "the neighbourhood %r" % (s,)
        b = rng.choice(["open", "fixed", "Periodic", "", None])
        return lambda: t.adjacency.cellular_automaton2d(rows, cols, 1, shape, b), good, [], "the boundary %r" % (b,)

    def make_periodic(self, ntm, op, rng):
        """Rings and grids without glued edges aren't supported (known finding K4)."""
        t = ntm.topology
        call = (lambda: t.cellular_automaton(5, periodic=False)) if op["pick"] % 2 else (lambda: t.cellular_automaton2d(3, 3, periodic=False))
        return lambda: sorted((a, b) for a, b, _ in call().edges), None, [], "an automaton that isn't periodic"

    # ---- models -----------------------------------------------------------------------------------------------------------
    def make_async(self, ntm, op, rng):
        n = op["n"]
        order = list(range(n))
        rng.shuffle(order)

        def right():
            w = ntm.AsynchronousRule(activity_rule=lambda ctx: 1, update_order=list(order))
            s = ntm.evolve(ntm.topology.disconnected(list(range(n))), initial_conditions=[0] * n, activity_rule=w, timesteps=n + 1)
            return [[x for x in range(n) if s[t].activities[x] != s[t - 1].activities[x]] for t in range(1, n + 1)]
        return (lambda: ntm.AsynchronousRule(activity_rule=lambda ctx: 1, randomize_each_cycle=rng.random() < 0.5), (right, [[x] for x in order]), [],
                "an asynchronous rule without order and size")

    def make_tm(self, ntm, op, rng):
        table = {0: {0: [0, 1, 2]}}
        tape = [0] * (op["T"] + 1)

        def right():
            m = ntm.HeadCentricTuringMachine(list(tape), table, 0, 0, max_timesteps=op["T"])
            s = ntm.evolve(m.network, initial_conditions=m.initial_conditions, activity_rule=m.activity_rule, input=m.input_function)
            return [tuple(x.activities[0]) for x in s]
        return (lambda: ntm.HeadCentricTuringMachine(list(tape), table, 0, 0), (right, [(0, i) for i in range(op["T"])]), [lambda: table],
                "a Turing machine that need not end")

    def make_direction(self, ntm, op, rng):
        bad = rng.choice([3, -1, -2, -3, "L", None, 1.5])
        at, T = op["at"], op["T"]
        table = {i: {0: [i + 1, 1, 2]} for i in range(T)}
        wrong = copy.deepcopy(table)
        wrong[at - 1][0][2] = bad

        run, want = self.machine(ntm, op)
        return lambda: run(wrong), (lambda: run(table), want), [lambda: wrong, lambda: table], "the direction %r at t=%d" % (bad, at)

    def machine(self, ntm, op):
        """Either machine, and what it does with rules to write ones to the right, for ever, in a new state each time."""
        T = op["T"]
        if op["pick"] % 2:
            def run(tb):
                m = ntm.HeadCentricTuringMachine([0] * (T + 1), tb, 0, 0, max_timesteps=T)
                s = ntm.evolve(m.network, initial_conditions=m.initial_conditions, activity_rule=m.activity_rule, input=m.input_function)
                return [tuple(x.activities[0]) for x in s]
            return run, [(i, i) for i in range(T)]

        def run(tb):
            m = ntm.TapeCentricTuringMachine(T + 1, tb, 0, 0)
            s = ntm.evolve(m.network, initial_conditions=[0] * (T + 1), activity_rule=m.activity_rule, timesteps=T, **self.mode(op))
            return [[en.plain(x.activities[i]) for i in range(T + 1)] for x in s]
        return run, [[1 if i < t else 0 for i in range(T + 1)] for t in range(T)]

    def make_head(self, ntm, op, rng):
        """A machine that meets a situation for which there is no rule, after some steps for which there was one."""
        T, at = op["T"], op["at"]
        table = {i: {0: [i + 1, 1, ntm.TuringMachine.RIGHT], 1: [0, 0, ntm.TuringMachine.STAY]} for i in range(T)}
        gap = copy.deepcopy(table)
        if rng.random() < 0.5:
            del gap[at - 1]
        else:
            del gap[at - 1][0]
        run, want = self.machine(ntm, op)
        return lambda: run(gap), (lambda: run(table), want), [lambda: gap, lambda: table], "a machine without a rule at t=%d" % at

    @staticmethod
    def mode(op):
        return {"compression": True} if op["options"].get("compression") else {}

    def make_random(self, ntm, op, rng):
        n = op["n"]
        m = rng.choice([-1, -n, n + 1, 2 * n])
        v = rng.randrange(5)

        def right():
            x = ntm.init_random(n, k=rng.choice([2, 3]), n_randomized=0, empty_value=v)
            return [en.plain(y) for y in x]
        return lambda: ntm.init_random(n, n_randomized=m), (right, [v] * n), [], "%d random places of %d" % (m, n)

    def make_substitution(self, ntm, op, rng):
        keys = rng.choice([["1", "0"], ["11", "10", "01", "00"]])
        rules = {k: rng.choice(["1", "0", "10", "01"]) for k in keys}
        wrong = dict(rules)
        wrong[rng.choice(["111", "000", "", "01" if len(keys[0]) == 1 else "0"])] = "1"
        items = list(wrong.items())
        rng.shuffle(items)
        wrong = dict(items)
        start = "".join(rng.choice("01") for _ in range(rng.randrange(2, 5)))
        want, m = [start], len(keys[0])
        for _ in range(2):
            s = want[-1]
            want.append("".join(rules[s[i:i + m]] for i in range(len(s) - m + 1)))

        def right():
            x = ntm.SubstitutionSystem(start, rules)
            t = ntm.evolve(initial_conditions=x.initial_conditions, network=x.network, activity_rule=x.activity_rule, timesteps=3)
            return ["".join(str(v) for _, v in sorted(s.activities.items())) for s in t]
        if any(len(s) < m for s in want):
            right = None
        return (lambda: ntm.SubstitutionSystem(start, wrong), (right, want) if right else None, [lambda: wrong, lambda: rules],
                "rules for parts of different lengths %s" % sorted(wrong))

    def make_table(self, ntm, op, rng):
        n, T = op["n"] + 2, op["T"]
        full = {"{:03b}".format(i): rng.randrange(2) for i in range(8)}
        init = [rng.randrange(2) for _ in range(n)]
        rows, used = [list(init)], []
        for t in range(1, T):
            a = rows[-1]
            seen = ["%d%d%d" % (a[i - 1], a[i], a[(i + 1) % n]) for i in range(n)]
            used.append(seen)
            rows.append([full[s] for s in seen])
        missing = rng.choice(used[op["at"] - 1])
        short = {k: v for k, v in full.items() if k != missing}
        net = ntm.topology.cellular_automaton(n)

        def run(tb):
            s = ntm.evolve(net, initial_conditions=list(init), activity_rule=ntm.table_rule(tb), timesteps=T, **op["options"])
            return [[en.plain(x.activities[i]) for i in range(n)] for x in s]
        return lambda: run(short), (lambda: run(full), rows), [lambda: short, lambda: full], "a table without the state %s" % missing

    def make_fungal(self, ntm, op, rng):
        w, h = rng.randrange(3, 6), rng.randrange(3, 6)
        n = w * h
        m = rng.choice([k for k in (1, n - 1, n + 1, w, 2 * n) if k != n])
        init = [0.0] * n
        init[rng.randrange(n)] = 1.0
        layer = [rng.randrange(2) for _ in range(m)]
        f = lambda l: ntm.FungalGrowthModel(1, w, h, list(init), resource_layer=l, verbose=False)
        return (lambda: f(layer), (lambda: sorted(f([1] * n).network.nodes), list(range(n))), [lambda: layer],
                "a resource layer of %d for %d x %d agents" % (m, w, h))

    def make_tour(self, ntm, op, rng):
        import numpy as np
        n = rng.randrange(3, 6)
        points = [(rng.random(), rng.random()) for _ in range(n)]
        order = list(range(n))
        rng.shuffle(order)
        rows = [[1.0 if order[i] == j else 0.0 for j in range(n)] for i in range(n)]
        case = op["pick"] % 3
        if case == 0:
            wrong, what = (rows[:-1] if rng.random() < 0.5 else rows + [rows[0]]), "a wrong number of rows"
        elif case == 1:
            wrong, what = ([r[:-1] for r in rows] if rng.random() < 0.5 else [r + [0.0] for r in rows]), "a wrong number of columns"
        else:
            a, b = rng.sample(range(n), 2)
            wrong, what = [list(r) for r in rows], "two cities in one place"
            wrong[a] = list(rows[b])
        if rng.random() < 0.5:
            wrong = np.array(wrong)
        net = ntm.HopfieldTankTSPNet(points, dt=1e-05, A=500, B=500, C=200, D=500, n=15, u_0=0.02)
        at = {order[i]: i for i in range(n)}
        want = sorted(tuple(sorted((at[k], at[(k + 1) % n]))) for k in range(n))
        return (lambda: net.get_tour_graph(points, wrong), (lambda: sorted(tuple(sorted(e)) for e in net.get_tour_graph(points, rows)[0].edges), want),
                [lambda: points, lambda: wrong], what)

    # ---- measures and plots -----------------------------------------------------------------------------------------------
    def make_history(self, ntm, op, rng):
        T = op["T"]
        rows = [[rng.randrange(2)] for _ in range(T)]
        case = op["pick"] % 3
        if case == 0:
            empty = rng.choice([[], ()])
            f = rng.choice([ntm.average_node_entropy, ntm.average_mutual_information])
            return lambda: f(empty), None, [], "%s of no activities" % f.__name__
        d = rng.choice([0, -1, -T, T, T + 3])
        return lambda: ntm.average_mutual_information(rows, temporal_distance=d), None, [lambda: rows], "a distance of %d for %d timesteps" % (d, T)

    def make_ncr(self, ntm, op, rng):
        n, r = rng.randrange(0, 9), rng.randrange(0, 9)
        a, b = rng.choice([(-1, r), (n, -1), (-3, -3), (n + 0.5, r), (n, float(r)), ("%d" % n, r), (None, r), (n, None)])
        import math
        return lambda: ntm.ncr(a, b), (lambda: ntm.ncr(n, r), math.comb(n, r)), [], "ncr(%r, %r)" % (a, b)

    def make_plot(self, ntm, op, rng):
        import matplotlib.pyplot as plt
        from .. import display
        rows, cols, T = rng.randrange(1, 4), rng.randrange(2, 5), op["T"]
        acts = [[rng.randrange(2) for _ in range(rows * cols)] for _ in range(T)]
        shown = []

        def showing(f):
            def call():
                display.install()
                display.Clock.loop = lambda: shown.append(len(plt.get_fignums()))
                try:
                    f()
                    return "shown" if shown else "not shown"
                finally:
                    display.Clock.loop = None
                    display.uninstall()
                    plt.switch_backend("Agg")
                    plt.close("all")
                    del shown[:]
            return call
        case = op["pick"] % 6
        net = ntm.topology.cellular_automaton(4)
        if case == 0:
            f = rng.choice([ntm.plot_activities, ntm.animate_activities])
            k = {"shape": (rows, cols)}
            bad, good, what = lambda: f([], **k), lambda: ntm.plot_activities(acts, **k), "%s of no activities" % f.__name__
        elif case == 1:
            l = rng.choice(["circle", "Shell", "", None, 5])
            bad, good, what = lambda: ntm.plot_network(net, layout=l), lambda: ntm.plot_network(net, layout="shell"), "the layout %r" % (l,)
        elif case == 2:
            y = rng.choice([[[1, 2, 3]], [], [[1, 2, 3], 4], [1, 2, 3], [[1, 2, 3], None]])
            bad, good, what = lambda: ntm.plot1D([1, 2, 3], y, twinx=True), lambda: ntm.plot1D([1, 2, 3], [[1, 2, 3], [3, 2, 1]], twinx=True), "two axes for %s" % y
        elif case == 3:
            s = rng.choice([(rows * cols + 1,), (rows * cols - 1,)])
            bad, good, what = (lambda: ntm.animate_activities(acts, shape=s)), (lambda: ntm.plot_activities(acts)), "the shape %s for %d cells" % (s, rows * cols)
        elif case == 4:
            s = rng.choice([(1, rows, cols), ()])
            bad, good, what = (lambda: ntm.animate_activities(acts, shape=s)), (lambda: ntm.plot_activities(acts)), "the shape %s" % (s,)
        else:
            s = rng.choice([(rows, cols + 1), (rows + 1, cols)])
            f = rng.choice([ntm.plot_activities, ntm.animate_activities])
            bad, good, what = (lambda: f(acts, shape=s)), (lambda: ntm.plot_activities(acts, shape=(rows, cols))), "the shape %s for %d cells (%s)" % (s, rows * cols, f.__name__)
        return showing(bad), (showing(good), "shown"), [lambda: acts, lambda: [(a, b) for a, b, _ in net.edges]], what


WORLD = C28()
