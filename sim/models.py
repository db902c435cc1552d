"""The library's own models as parts of a simulated system: every entry describes one model, the objects a user supplies to
it, and how to evolve it. The worlds that inject faults, share models between threads or resume evolutions use them."""
import copy
import random

import numpy as np

from . import boot, engine as en
from .core import Invalid


class Model:
    """One model: `supplied` are the caller's own objects; `make()` builds a rule from them and returns an instance, a dict with
    the network and the keyword arguments of evolve (apart from those that say how long to run)."""
    pure = True         # the rule keeps no state between calls: one instance serves any number of evolutions
    random = False      # draws from the global random number generators
    resumable = True    # an evolution can go on from a recorded state (with the same instance)
    floats = False

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.ntm = boot.load()
        self.supplied = {}
        self.hook = None        # called before every invocation of a rule that the model wraps
        self.setup(self.rng)

    def watch(self, rule):
        def watched(ctx):
            if self.hook is not None:
                self.hook("inner", ctx.timestep, ctx.node_label)
            return rule(ctx)
        return watched

    def setup(self, rng):
        raise NotImplementedError

    def make(self):
        raise NotImplementedError

    def other(self, seed):
        """Another network and other initial conditions for the very same rule, or nothing if it is made for one network."""
        return {}

    def frozen(self):
        return {k: repr(v) for k, v in self.supplied.items()}

    def evolve(self, inst, T, **over):
        """Evolves an instance; `over` replaces keyword arguments."""
        kw = dict(inst)
        net = kw.pop("network")
        extra = kw.pop("extra", None)
        if "input" not in kw:
            kw["timesteps"] = T
        kw.update(over)
        net = kw.pop("network", net)
        return self.ntm.evolve(net, **kw)


def data(traj):
    from .scenarios import net_data
    return [(en.canon(s.activities), net_data(s.network) if s.network is not None else None) for s in traj]


class Elementary(Model):
    def setup(self, rng):
        n, r = rng.choice([(3, 1), (5, 1), (6, 1), (7, 2), (8, 1)])
        self.supplied = {"init": [rng.randrange(2) for _ in range(n)],
                         "network": self.ntm.topology.cellular_automaton(n, r=r)}
        self.rule = (rng.choice([self.ntm.rules.nks_ca_rule, self.ntm.rules.binary_ca_rule]), rng.randrange(256 if r == 1 else 1 << 32))
        self.memo = rng.random() < 0.4

    def other(self, seed):
        rng = random.Random(seed)
        n, r = rng.choice([(5, 2), (7, 2), (9, 2)] if self.rule[1] >= 256 else [(4, 1), (6, 2), (7, 3)])
        return {"initial_conditions": [rng.randrange(2) for _ in range(n)], "network": self.ntm.topology.cellular_automaton(n, r=r)}

    def make(self):
        return {"network": self.supplied["network"], "initial_conditions": self.supplied["init"],
                "activity_rule": self.rule[0](self.rule[1]), "memoize": self.memo}


class Totalistic(Model):
    def setup(self, rng):
        n, k = rng.randrange(3, 8), rng.choice([2, 3, 4])
        self.supplied = {"init": [rng.randrange(k) for _ in range(n)], "network": self.ntm.topology.cellular_automaton(n)}
        self.k, self.rule = k, rng.randrange(k ** (3 * k - 2))
        self.memo = rng.random() < 0.4

    def other(self, seed):
        rng = random.Random(seed)
        n, r = rng.choice([(4, 1), (5, 2), (6, 2), (7, 3)])
        return {"initial_conditions": [rng.randrange(self.k) for _ in range(n)], "network": self.ntm.topology.cellular_automaton(n, r=r)}

    def make(self):
        return {"network": self.supplied["network"], "initial_conditions": self.supplied["init"],
                "activity_rule": self.ntm.rules.totalistic_ca(self.k, self.rule), "memoize": self.memo}


class Grid(Model):
    def setup(self, rng):
        rows, cols = rng.choice([(3, 3), (3, 4), (4, 4), (4, 3)])
        self.states = 2
        self.dim = (rows, cols)
        self.details(rng)
        self.supplied["init"] = [rng.randrange(self.states) for _ in range(rows * cols)]
        self.supplied["network"] = self.ntm.topology.cellular_automaton2d(rows, cols, neighbourhood=self.neighbourhood)

    neighbourhood = "Moore"

    def details(self, rng):
        pass

    def other(self, seed):
        rng = random.Random(seed)
        rows, cols = rng.choice([(3, 5), (4, 4), (5, 3)])
        if type(self) not in (Life, Wireworld):
            return {}       # made for one grid
        return {"initial_conditions": [rng.randrange(self.states) for _ in range(rows * cols)],
                "network": self.ntm.topology.cellular_automaton2d(rows, cols, r=rng.choice([1, 2]), neighbourhood=rng.choice(["Moore", "von Neumann"]))}


class Life(Grid):
    def make(self):
        return {"network": self.supplied["network"], "initial_conditions": self.supplied["init"],
                "activity_rule": self.ntm.rules.game_of_life_rule}


class Wireworld(Grid):
    def details(self, rng):
        self.states = 4

    def make(self):
        return {"network": self.supplied["network"], "initial_conditions": self.supplied["init"],
                "activity_rule": self.ntm.rules.wireworld_rule}


class Table(Model):
    def setup(self, rng):
        n, k = rng.randrange(3, 8), rng.choice([2, 3])
        table = {np.base_repr(i, k).zfill(3): rng.randrange(k) for i in range(k ** 3)}
        self.supplied = {"init": [rng.randrange(k) for _ in range(n)], "network": self.ntm.topology.cellular_automaton(n),
                         "rule table": table}
        self.memo = rng.random() < 0.4

    def make(self):
        return {"network": self.supplied["network"], "initial_conditions": self.supplied["init"],
                "activity_rule": self.ntm.table_rule(self.supplied["rule table"]), "memoize": self.memo}


def symmetric_table(rng, k):
    """A rotation-symmetric table with one representative for each class of rotated neighbourhoods."""
    import itertools
    table = {}
    for c in range(k):
        done = set()
        for trbl in itertools.product(range(k), repeat=4):
            rots = [trbl[i:] + trbl[:i] for i in range(4)]
            if min(rots) not in done:
                done.add(min(rots))
                table[(c,) + rng.choice(rots)] = rng.randrange(k)
    return table


class Ctrbl(Model):
    def setup(self, rng):
        k = 2
        self.dim = rng.choice([(3, 3), (3, 4), (4, 3)])
        self.rotate = rng.random() < 0.7
        import itertools
        table = symmetric_table(rng, k) if self.rotate else {x: rng.randrange(k) for x in itertools.product(range(k), repeat=5)}
        self.supplied = {"init": [rng.randrange(k) for _ in range(self.dim[0] * self.dim[1])], "rule table": table}
        self.memo = rng.random() < 0.4

    def make(self):
        rule = self.ntm.CTRBLRule(self.dim, self.supplied["rule table"], add_rotations=self.rotate)
        return {"network": rule.network, "initial_conditions": self.supplied["init"], "activity_rule": rule.activity_rule,
                "memoize": self.memo}


class Sandpile(Model):
    def setup(self, rng):
        self.dim = rng.choice([(3, 3), (3, 4), (4, 4)])
        self.closed = rng.random() < 0.5
        self.supplied = {"init": [rng.randrange(9) for _ in range(self.dim[0] * self.dim[1])]}

    def make(self):
        s = self.ntm.Sandpile(self.dim[0], self.dim[1], is_closed_boundary=self.closed)
        return {"network": s.network, "initial_conditions": self.supplied["init"], "activity_rule": s.activity_rule}


class Reversible(Model):
    resumable = False     # needs the past: C17 decides its going back and forth

    def setup(self, rng):
        n = rng.randrange(3, 8)
        self.supplied = {"init": [rng.randrange(2) for _ in range(n)], "past": [[rng.randrange(2) for _ in range(n)]],
                         "network": self.ntm.topology.cellular_automaton(n)}
        self.rule = rng.randrange(256)

    def make(self):
        return {"network": self.supplied["network"], "initial_conditions": self.supplied["init"],
                "past_conditions": self.supplied["past"],
                "activity_rule": self.ntm.ReversibleRule(self.watch(self.ntm.rules.nks_ca_rule(self.rule)))}


class Tsp(Model):
    floats = True

    def setup(self, rng):
        n = rng.choice([2, 3])
        self.supplied = {"points": [(rng.random(), rng.random()) for _ in range(n)],
                         "init": [rng.uniform(-0.03, 0.03) for _ in range(n * n)]}
        self.n = n

    def make(self):
        h = self.ntm.HopfieldTankTSPNet(self.supplied["points"], dt=1e-5, n=self.n)
        return {"network": self.ntm.topology.from_adjacency_matrix(h.adjacency_matrix), "initial_conditions": self.supplied["init"],
                "activity_rule": h.activity_rule}


class Tape(Model):
    pure = resumable = False

    def setup(self, rng):
        n = rng.randrange(3, 7)
        self.supplied = {"rule table": {s: {c: [rng.choice("pq"), rng.choice([0, 1]), rng.choice([0, 1, 2])] for c in (0, 1)} for s in "pq"},
                         "tape": [rng.randrange(2) for _ in range(n)]}
        self.at, self.n = rng.randrange(n), n

    def make(self):
        m = self.ntm.TapeCentricTuringMachine(self.n, self.supplied["rule table"], "p", self.at)
        return {"network": m.network, "initial_conditions": self.supplied["tape"], "activity_rule": m.activity_rule, "extra": m}


class Head(Tape):
    def setup(self, rng):
        super().setup(rng)
        self.most = rng.randrange(2, 9)

    def make(self):
        m = self.ntm.HeadCentricTuringMachine(self.supplied["tape"], self.supplied["rule table"], "p", self.at, max_timesteps=self.most)
        return {"network": m.network, "initial_conditions": m.initial_conditions, "activity_rule": m.activity_rule,
                "input": m.input_function, "extra": m}


class Substitution(Model):
    pure = resumable = False

    def setup(self, rng):
        size = rng.choice([1, 1, 2])
        if size == 1:
            rules = {"A": rng.choice(["AB", "B", "BA"]), "B": rng.choice(["A", "AB", "C"])}
            constants = rng.choice([["C"], ["C", "+"]])
        else:
            rules = {a + b: rng.choice(["A", "B", "AB"]) for a in "AB" for b in "AB"}
            constants = None
        self.supplied = {"rules": rules, "constants": constants, "axiom": rng.choice(["ABA", "AB", "BAAB"])}

    def make(self):
        s = self.supplied
        m = self.ntm.SubstitutionSystem(s["axiom"], s["rules"], s["constants"])
        return {"network": m.network, "initial_conditions": m.initial_conditions, "activity_rule": m.activity_rule, "extra": m}


class Wolfram(Model):
    pure = resumable = False

    def setup(self, rng):
        rules = rng.choice([{"in": [("x", "y"), ("x", "z")], "out": [("x", "z"), ("x", "w"), ("y", "w"), ("z", "w")]},
                            {"in": [("x", "y")], "out": [("x", "y"), ("y", "z")]},
                            {"in": [("x", "y", "z")], "out": [("x", "y", "w"), ("y", "w", "z")]}])
        width = 3 if len(rules["in"][0]) == 3 else 2
        self.supplied = {"configuration": [tuple(rng.randrange(1, 5) for _ in range(width)) for _ in range(rng.randrange(1, 4))],
                         "rules": rules}

    def make(self):
        m = self.ntm.WolframPhysicsModel(self.supplied["configuration"], self.supplied["rules"])
        return {"network": m.network, "topology_rule": m.topology_rule, "extra": m}


class Asynchronous(Model):
    pure = resumable = False

    def setup(self, rng):
        n = rng.randrange(3, 7)
        self.supplied = {"init": [rng.randrange(2) for _ in range(n)], "network": self.ntm.topology.cellular_automaton(n),
                         "update order": rng.sample(range(n), rng.randrange(1, n + 1))}
        self.rule = rng.randrange(256)

    shuffles = False

    def make(self):
        rule = self.ntm.AsynchronousRule(activity_rule=self.watch(self.ntm.rules.nks_ca_rule(self.rule)), update_order=self.supplied["update order"],
                                         randomize_each_cycle=self.shuffles)
        return {"network": self.supplied["network"], "initial_conditions": self.supplied["init"], "activity_rule": rule}


class Shuffled(Asynchronous):
    random = shuffles = True


class Hopfield(Model):
    pure = resumable = False
    random = True

    def setup(self, rng):
        n = rng.randrange(3, 6)
        self.n = n
        self.supplied = {"patterns": [[rng.choice([-1, 1]) for _ in range(n)] for _ in range(rng.randrange(1, 4))],
                         "init": [rng.choice([-1, 1]) for _ in range(n)]}

    def make(self):
        h = self.ntm.HopfieldNet(n=self.n)
        h.train(self.supplied["patterns"])
        return {"network": h.network, "initial_conditions": self.supplied["init"], "activity_rule": h.activity_rule}


class Fungal(Model):
    pure = resumable = False
    random = floats = True

    def setup(self, rng):
        w, h = rng.choice([(3, 3), (3, 4)])
        init = [rng.choice([0, 0, 1, 2]) for _ in range(w * h)]
        init[rng.randrange(w * h)] = 1
        layer = [rng.randrange(2) for _ in range(w * h)] if rng.random() < 0.6 else None
        self.supplied = {"init": init, "resource layer": layer}
        self.dim, self.rate = (w, h), rng.choice([0, 0.5, 8000])

    def make(self):
        s = self.supplied
        m = self.ntm.FungalGrowthModel(self.rate, self.dim[0], self.dim[1], s["init"], resource_layer=s["resource layer"], verbose=False)
        return {"network": m.network, "initial_conditions": s["init"], "activity_rule": m.activity_rule,
                "topology_rule": m.topology_rule, "update_order": m.update_order, "copy_network": m.copy_network}


class Majority(Model):
    random = True
    resumable = False

    def setup(self, rng):
        n = rng.randrange(3, 7)
        net = self.ntm.Network()
        for i in range(n):
            for j in rng.sample(range(n), rng.randrange(1, 4)):
                net.add_edge(i, j)
            net.add_edge(i, i)
        self.supplied = {"network": net, "init": {i: rng.choice("abc") for i in range(n)}}

    def make(self):
        return {"network": self.supplied["network"], "initial_conditions": self.supplied["init"],
                "activity_rule": self.ntm.rules.majority_rule}


ALL = {c.__name__: c for c in (Elementary, Totalistic, Life, Wireworld, Table, Ctrbl, Sandpile, Reversible, Tsp, Tape, Head,
                               Substitution, Wolfram, Asynchronous, Shuffled, Hopfield, Fungal, Majority)}
PURE = sorted(n for n, c in ALL.items() if c.pure and not c.random)
RESUMABLE = sorted(n for n, c in ALL.items() if c.resumable)
CALM = sorted(n for n, c in ALL.items() if not c.random)    
NAMES = sorted(ALL)


def build(name, seed):
    if name not in ALL:
        raise Invalid("model %r" % name)
    return ALL[name](seed)


def seed_globals(seed):
    random.seed(seed)
    np.random.seed(seed % (1 << 32))


class ModelRun:
    """One evolution of a model, with its callbacks announced to a hook (as en.RealRun does for generated automata)."""

    def __init__(self, model, inst, T, sim, hook=None, **over):
        self.model, self.inst, self.T, self.sim = model, inst, T, sim
        self.over = dict(over)
        self.trajectory = None
        self.calls = 0
        for kind, name in (("act", "activity_rule"), ("topo", "topology_rule"), ("input", "input")):
            f = inst.get(name)
            if callable(f):
                self.over[name] = self.announced(kind, f, hook)
        model.hook = hook

    def announced(self, kind, f, hook):
        def call(*a):
            self.calls += 1
            if self.sim is not None:
                self.sim.spend()
            if hook is not None:
                hook(kind, None, None)
            return f(*a)
        return call

    def run(self):
        try:
            self.trajectory = self.model.evolve(self.inst, self.T, **self.over)
        finally:
            self.model.hook = None
        return self.trajectory


def gen_fault(rng, name):
    where = rng.choice(["act", "any", "line", "line", "line", "pack", "unpack"] +
                       (["inner"] * 4 if name in ("Asynchronous", "Shuffled", "Reversible") else []) + (["topo"] * 2 if name in ("Wolfram", "Fungal") else []))
    top = {"line": rng.choice([60, 400, 3000]), "act": 30, "any": 40, "topo": 4, "inner": 20, "pack": 6, "unpack": 6}[where]
    return {"where": where, "at": rng.randrange(top), "exc": rng.randrange(len(en.BOOMS))}


def gen(rng, names=None):
    return {"model": rng.choice(names or NAMES), "seed": rng.randrange(1 << 20), "T": rng.choice([2, 3, 4, 6]),
            "compression": rng.random() < 0.3, "globals": rng.randrange(1 << 16)}


def alone(spec, **over):
    """What the model does when nothing interferes: a separate instance, built from separate objects."""
    m = build(spec["model"], spec["seed"])
    seed_globals(spec["globals"])
    return data(m.evolve(m.make(), spec["T"], **over))
