import itertools
import random

import numpy as np

from ..core import Invalid, Violation
from ..world import World
from .. import engine as en, boot, grids, odds


class DeadSource(Exception):
    """The random source failed."""


class Source(random.Random):
    """A random source whose outcomes are decided by an adversary, and that may fail at its k-th draw."""

    def __init__(self, kind, seed, dies):
        super().__init__(seed)
        self.kind, self.dies, self.n, self.sub = kind, dies, 0, random.Random(seed)
        self.ready = True

    def draw(self):
        if not getattr(self, "ready", False):
            return
        self.n += 1
        if self.dies is not None and self.n > self.dies:
            raise DeadSource("draw %d" % self.n)

    def unit(self):
        low, high = 0.0, 1 - 2 ** -53
        return {"low": low, "high": high, "alternate": (low, high)[self.n % 2], "bursts": (low, high)[(self.n // 5) % 2]}.get(
            self.kind, self.sub.random())

    def random(self):
        self.draw()
        return self.unit()

    def pick(self, n):
        """Never the same for ever: a source that repeats one element can't be waited for."""
        if self.kind == "low":
            return self.n % n
        if self.kind == "high":
            return n - 1 - self.n % n
        if self.kind == "alternate":
            return (self.n // 2) % n
        return self.sub.randrange(n)

    def choice(self, seq):
        self.draw()
        return seq[self.pick(len(seq))]

    def randrange(self, a, b=None, step=1):
        self.draw()
        r = range(a) if b is None else range(a, b, step)
        return r[self.pick(len(r))]

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def getrandbits(self, k):
        self.draw()
        return self.pick(1 << k)

    def __deepcopy__(self, memo):
        return self


class C51(World):
    quick_runs = 15000
    thorough_runs = 300000
    rule = ("Sessions of several calls to all network builders (ring, torus, lattice, complete, bipartite, disconnected, adjacency matrix, "
            "Watts-Strogatz) with every draw of the random source decided by an adversary that may also fail mid-way; networks built earlier "
            "and arguments are altered in between; a cell sees its neighbours in an evolution; "
            "in a few runs an honest source draws many Watts-Strogatz networks, of which the links rewired are counted. Non-trivial: at least one network; distinct by plan.")
    time_unit = "networks built"
    state_measure = "distinct networks (links)"
    real = ["topology.networks", "topology.adjacency", "networkx generators", "netomaton.evolve"]
    stub = ["outcomes and failures of the random source"]
    assumptions = ["three cells on a ring and nine on a torus at least, radius less than their number; hexagonal grids have an even number of "
                   "rows and radius 1; both sides of a bipartite network have nodes; complete networks have a node at least, in Watts-Strogatz networks a node has two neighbours at least"]

    def generate(self, rng, tier):
        if rng.random() < 0.001:
            return {"fair": rng.randrange(1 << 20), "n": rng.choice([120, 200]), "k": rng.choice([2, 3, 4]), "p": rng.choice([0.1, 0.5, 1, rng.random()]),
                    "source": rng.choice(["int", "none", "object"])}
        ops = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            kind = rng.choice(["ring", "torus", "torus", "lattice", "lattice", "complete", "bipartite", "disconnected", "matrix", "ws", "ws", "ws"])
            op = {"kind": kind, "seed": rng.randrange(1 << 20), "evolve": rng.random() < 0.3, "damage": rng.random() < 0.4}
            if kind == "ring":
                n = rng.choice([3, 4, 5, 8, 13, 21])
                op.update(n=n, r=rng.randrange(1, min(n, 6 if rng.random() < 0.8 else 13)), matrix=rng.random() < 0.3, ordered=rng.random() < 0.6)
            elif kind == "torus":
                r, c = rng.choice([(3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (5, 2), (1, 9), (9, 1), (6, 5), (4, 7), (8, 3)])
                shape = rng.choice(["Moore", "von Neumann", "Hex"])
                if shape == "Hex" and r % 2:
                    r += 1
                    c = max(c, 5 if r == 2 else 3)
                op.update(rows=r, cols=c, shape=shape, r=1 if shape == "Hex" else rng.choice([1, 1, 2, 3]), matrix=rng.random() < 0.3,
                          ordered=rng.random() < 0.5)
            elif kind == "lattice":
                op.update(dim=rng.choice([[1, 3, 3], [1, 2, 3], [1, 4, 3], [1, 1, 1], [1, 1, 4], [2, 3, 4], [2, 2, 2], [5], [1], [3, 4], [4, 1, 3],
                                          [2, 2, 2, 2], [1, 5, 4], [3, 1, 2]]), periodic=rng.random() < 0.5, loops=rng.random() < 0.4,
                          first=rng.choice([0, 0, 1, 7]))
            elif kind == "complete":
                op.update(n=rng.choice([1, 2, 3, 5, 8, 12]))
            elif kind == "bipartite":
                a, b = rng.randrange(1, 5), rng.randrange(1, 5)
                op.update(a=a, b=b, labels=rng.choice(["int", "str", "mixed"]), attrs=rng.choice([None, "weight", "varied"]),
                          as_=rng.choice(["list", "tuple", "set", "range"]))
            elif kind == "disconnected":
                op.update(n=rng.randrange(0, 9), form=rng.choice(["int", "list", "array", "strings"]))
            elif kind == "matrix":
                op.update(n=rng.randrange(1, 8), form=rng.choice(["list", "array", "floats", "int8", "matrix"]), density=rng.choice([0, 0.2, 0.5, 1]))
            else:
                n = rng.choice([2, 3, 4, 5, 6, 8, 10, 15, 20])
                op.update(n=n, k=rng.choice([rng.randrange(2, n + 1), min(n, 4), n, n + 1 if rng.random() < 0.3 else max(2, n - 1)]),
                          p=rng.choice([0, 0, 1, 1, 0.5, 0.1, rng.random()]), source=rng.choice(["low", "high", "alternate", "bursts", "seeded", "int", "none"]),
                          dies=rng.choice([None, None, rng.randrange(60)]))
            ops.append(op)
        if rng.random() < 0.3:
            ops.append(dict(rng.choice(ops)))
        return {"ops": ops}

    # ---- definitions: (nodes, {(i, j): attributes}, rotation or None) ------------------------------------------------------------
    def labels(self, op):
        mk = {"int": lambda i: i, "str": lambda i: "n%d" % i, "mixed": lambda i: i if i % 2 else "n%d" % i}[op["labels"]]
        all_ = [mk(i) for i in range(op["a"] + op["b"])]
        return all_[:op["a"]], all_[op["a"]:]

    @staticmethod
    def grid(dim, periodic, axes):
        """Links of a lattice whose labels count along the axes in the given order, the first the fastest."""
        stride, s = [0] * len(dim), 1
        for ax in axes:
            stride[ax] = s
            s *= dim[ax]
        links = set()
        for c in itertools.product(*[range(d) for d in dim]):
            for ax, d in enumerate(dim):
                o = list(c)
                o[ax] += 1
                if o[ax] == d:
                    if not periodic:
                        continue
                    o[ax] = 0
                a, b = (sum(x * y for x, y in zip(v, stride)) for v in (c, o))
                if a != b:
                    links |= {(a, b), (b, a)}
        return links

    def matrix_of(self, op):
        rng = random.Random(op["seed"])
        n = op["n"]
        vals = [1, 2, -1, 7] if op["form"] in ("int8", "array", "matrix") else [1, 2.5, -1, 0.1, True]
        return [[rng.choice(vals) if rng.random() < op["density"] else 0 for _ in range(n)] for _ in range(n)]

    def build(self, ntm, op, sim):
        """Builds the network and checks it against its definition."""
        t = ntm.topology
        k = op["kind"]
        what = str({a: b for a, b in op.items() if a not in ("evolve", "damage", "seed")})
        if k in ("ring", "torus"):
            if k == "ring":
                n = op["n"]
                if n < 3 or not 1 <= op["r"] < n:
                    raise Invalid("ring")
                sees = {c: sorted(set(v)) for c, v in grids.ring(n, op["r"]).items()}
            else:
                n = op["rows"] * op["cols"]
                if n < 9 or op["r"] < 1 or (op["shape"] == "Hex" and (op["rows"] % 2 or op["r"] > 1)):
                    raise Invalid("torus")
                sees = grids.torus(op["rows"], op["cols"], op["shape"], op["r"])
            if op["matrix"]:
                m = t.adjacency.cellular_automaton(n, op["r"]) if k == "ring" else \
                    t.adjacency.cellular_automaton2d(op["rows"], op["cols"], op["r"], op["shape"])
                want = [[1. if i in sees[j] else 0. for j in range(n)] for i in range(n)]
                got = [list(row) for row in m]
                if got != want:
                    bad = [(i, j) for i in range(n) for j in range(n) if len(got) != n or len(got[i]) != n or got[i][j] != want[i][j]]
                    raise Violation("matrix", "%s: the adjacency matrix is wrong at %s" % (what, bad[:6]))
                net = t.from_adjacency_matrix(m)
                if op["damage"]:
                    m[0][0] = m[n - 1][0] = 9.
                    m[0][n - 1] = 0.
                    sim.fault("argument_altered")
            elif k == "ring":
                net = t.cellular_automaton(n, r=op["r"], ordered=op["ordered"])
            else:
                net = t.cellular_automaton2d(op["rows"], op["cols"], r=op["r"], neighbourhood=op["shape"], ordered=op["ordered"])
            self.compare(net, range(n), {(j, i): {"weight": 1.0} for i in range(n) for j in sees[i]}, what)
            rot = net.rotation_system
            if op["matrix"] or not op["ordered"]:
                if rot is not None and len(rot):
                    raise Violation("rotation", "%s: has the rotation system %s" % (what, rot))
            else:
                for c in range(n):
                    if sorted(rot[c]) != sees[c] or (k == "ring" and 2 * op["r"] < n and list(rot[c]) != grids.ring(n, op["r"])[c]):
                        raise Violation("rotation", "%s: cell %d looks at %s" % (what, c, list(rot[c])))
            return net
        if k == "lattice":
            dim, n = op["dim"], 1
            for d in dim:
                n *= d
            if not dim or min(dim) < 1 or n > 80:
                raise Invalid("lattice")
            net = t.lattice(dim=tuple(dim), periodic=op["periodic"], self_loops=op["loops"], first_label=op["first"]) if op["first"] else \
                t.lattice(dim=tuple(dim), periodic=op["periodic"], self_loops=op["loops"])
            f = op["first"]
            # the statement doesn't say along which axis the labels count first
            found = {(a - f, b - f) for a, b, _ in net.edges if a != b}
            for axes in itertools.permutations(range(len(dim))):
                links = self.grid(dim, op["periodic"], axes)
                if links == found:
                    break
            links = {(a + f, b + f): {} for a, b in links}
            if op["loops"]:
                links.update({(c + f, c + f): {} for c in range(n)})
            self.compare(net, range(f, f + n), links, what)
            return net
        if k == "complete":
            n = op["n"]
            if n < 1:
                raise Invalid("complete")
            net = t.complete(n)
            self.compare(net, range(n), {(i, j): None for i in range(n) for j in range(n) if i != j}, what)
            return net
        if k == "bipartite":
            if op["a"] < 1 or op["b"] < 1:
                raise Invalid("bipartite")
            s1, s2 = self.labels(op)
            attrs, want = None, {}
            for i, a in enumerate(s1):
                for j, b in enumerate(s2):
                    want[(a, b)] = {} if op["attrs"] is None else {"weight": i + j / 10} if op["attrs"] == "weight" or (i + j) % 2 else \
                        {"weight": i - j, "kind": "k%d" % j, "list": [i, j]} if (i + j) % 4 else {}
            if op["attrs"] is not None:
                attrs = {a: {b: dict(want[(a, b)]) for b in s2} for a in s1}
            want.update({(b, a): dict(v) for (a, b), v in list(want.items())})
            conv = {"list": list, "tuple": tuple, "set": set, "range": list}[op["as_"]]
            if op["as_"] == "range" and op["labels"] == "int":
                net = t.bipartite(range(op["a"]), range(op["a"], op["a"] + op["b"]), attrs) if attrs else \
                    t.bipartite(range(op["a"]), range(op["a"], op["a"] + op["b"]))
            elif attrs is None:
                net = t.bipartite(conv(s1), conv(s2))
            else:
                net = t.bipartite(conv(s1), conv(s2), edge_attributes=attrs)
                for a in s1:
                    for b in s2:
                        if attrs.get(a, {}).get(b) != want[(a, b)]:
                            raise Violation("argument", "%s: the given attributes were altered" % what)
                if op["damage"]:
                    for a in s1:
                        for b in s2:
                            attrs[a][b]["weight"] = -99
                    sim.fault("argument_altered")
            self.compare(net, s1 + s2, want, what)
            return net
        if k == "disconnected":
            n = op["n"]
            if n < 0:
                raise Invalid("disconnected")
            arg = {"int": n, "list": [3 * i for i in range(n)], "array": np.array([2 * i for i in range(n)], dtype=int),
                   "strings": ["s%d" % i for i in range(n)]}[op["form"]]
            net = t.disconnected(arg)
            self.compare(net, range(n) if op["form"] == "int" else [x if isinstance(x, str) else int(x) for x in arg], {}, what)
            return net
        if k == "matrix":
            if op["n"] < 1:
                raise Invalid("matrix")
            rows = self.matrix_of(op)
            arg = {"list": lambda: [list(r) for r in rows], "array": lambda: np.array(rows), "floats": lambda: np.array(rows, dtype=float),
                   "int8": lambda: np.array(rows, dtype=np.int8), "matrix": lambda: [tuple(r) for r in rows]}[op["form"]]()
            net = t.from_adjacency_matrix(arg)
            if op["damage"] and op["form"] != "matrix":
                arg[0][0] = 5
                sim.fault("argument_altered")
            self.compare(net, range(op["n"]), {(i, j): {"weight": v} for i, r in enumerate(rows) for j, v in enumerate(r) if v != 0}, what)
            return net
        return self.watts_strogatz(ntm, op, what, sim)

    def watts_strogatz(self, ntm, op, what, sim):
        n, k, p = op["n"], op["k"], op["p"]
        if n < 2 or k < 2 or not 0 <= p <= 1:
            raise Invalid("ws")
        ws = ntm.topology.watts_strogatz_graph

        def source(dies):
            return {"int": op["seed"], "none": None}.get(op["source"], "adversary") if op["source"] in ("int", "none") else \
                Source(op["source"], op["seed"], dies)
        if k > n:
            sim.fault("more_neighbours_than_nodes")
            try:
                ws(n, k, p, source(None))
            except Exception:
                return None
            raise Violation("not-refused", "%s: was accepted" % what)
        src = source(op["dies"])
        if op["source"] == "none":
            random.seed(op["seed"])
        try:
            net = ws(n, k, p, src) if op["source"] != "none" else ws(n, k, p)
        except DeadSource:
            sim.fault("random_source_failed")
            net = ws(n, k, p, source(None))
        else:
            if isinstance(src, Source) and op["dies"] is not None and src.n > op["dies"]:
                raise Violation("swallowed", "%s: the random source failed, but a network was returned" % what)
        sim.fault("draws_" + op["source"])
        nodes, edges = sorted(net.nodes), list(net.edges)
        if nodes != list(range(n)):
            raise Violation("nodes", "%s: has the nodes %s" % (what, nodes))
        links = [(a, b) for a, b, _ in edges]
        if len(set(links)) != len(links):
            raise Violation("links", "%s: parallel links %s" % (what, sorted(l for l in set(links) if links.count(l) > 1)[:4]))
        if any(a == b for a, b in links):
            raise Violation("links", "%s: self-loops %s" % (what, [l for l in links if l[0] == l[1]]))
        if any((b, a) not in set(links) for a, b in links):
            raise Violation("links", "%s: one-way links %s" % (what, [(a, b) for a, b in links if (b, a) not in links][:4]))
        want = n * (n - 1) if k == n else 2 * n * (k // 2)
        if len(links) != want:
            raise Violation("links", "%s: has %d links, by definition %d" % (what, len(links), want))
        ring = {((a + (s * d)) % n, a) for a in range(n) for d in range(1, k // 2 + 1) for s in (1, -1)} if k < n else set(links)
        if p == 0 or (op["source"] == "high" and p < 1):
            if set(links) != ring:
                raise Violation("links", "%s: without rewiring %s instead of the ring" % (what, sorted(set(links) ^ ring)[:6]))
        for i in range(n):
            if net.in_degree(i) != sum(1 for l in links if l[1] == i) or net.in_degree(i) < k // 2:
                raise Violation("links", "%s: node %d has %d links, of which it keeps %d" % (what, i, net.in_degree(i), k // 2))
        rewired = len(set(links) - ring) // 2
        if p == 1 and 0 < k // 2 and k < n - 2 and op["source"] in ("seeded", "int") and n >= 15 and k <= 6 and rewired == 0:
            raise Violation("links", "%s: nothing was rewired" % what)
        if rewired:
            sim.probe("rewired")
        return net

    def compare(self, net, nodes, links, what):
        got, dup = {}, []
        for a, b, attrs in net.edges:
            if (a, b) in got:
                dup.append((a, b))
            got[(a, b)] = dict(attrs)
        nodes = list(nodes)
        have = list(net.nodes)
        if set(have) != set(nodes) or len(have) != len(nodes):
            raise Violation("nodes", "%s: has the nodes %s, by definition %s" % (what, en.short(have), en.short(nodes)))
        if any(type(x) not in (int, str) for x in have):
            raise Violation("nodes", "%s: labels of type %s" % (what, {type(x).__name__ for x in have}))
        if dup:
            raise Violation("links", "%s: parallel links %s" % (what, dup[:5]))
        if set(got) != set(links):
            raise Violation("links", "%s: missing %s, too many %s" % (what, sorted(set(links) - set(got), key=str)[:5],
                                                                      sorted(set(got) - set(links), key=str)[:5]))
        for l, v in links.items():
            if v is not None and got[l] != v:
                raise Violation("attributes", "%s: link %s has %s, by definition %s" % (what, l, got[l], v))

    def use(self, ntm, net, sim, what, seed):
        """Every node sees exactly its neighbours in an evolution."""
        nodes = list(net.nodes)
        rng = random.Random(seed)
        acts = {x: rng.randrange(100) for x in nodes}
        into = {x: [] for x in nodes}
        for a, b, _ in net.edges:
            into[b].append(a)
        hurt = {(t, x): rng.randrange(100) for t in (1, 2) for x in nodes if rng.random() < 0.1}
        traj = en.guarded("crash", ntm.evolve, net, initial_conditions=dict(acts), timesteps=3,
                          activity_rule=lambda c: (7 + 3 * sum(c.neighbourhood_activities) + c.current_activity) % 1009,
                          perturbation=lambda c: hurt.get((c.timestep, c.node_label), c.node_activity))
        for t in (1, 2):
            acts = {x: hurt.get((t, x), (7 + 3 * sum(acts[y] for y in into[x]) + acts[x]) % 1009) for x in nodes}
            if traj[t].activities != acts:
                raise Violation("seen", "%s t=%d: nodes %s didn't see their neighbours"
                                % (what, t, [x for x in nodes if traj[t].activities.get(x) != acts[x]][:6]))
        sim.faults["cell_damaged"] += len(hurt)
        sim.stats["cells"] += 2 * len(nodes)

    def fair(self, plan, sim):
        """Many Watts-Strogatz networks under an honest random source: how often links were rewired, and how far."""
        ntm = boot.load()
        n, k, p = plan["n"], plan["k"], plan["p"]
        if not (100 <= n <= 400 and 2 <= k <= 4 and 0 < p <= 1):
            raise Invalid("ws")
        random.seed(plan["fair"])
        np.random.seed(plan["fair"])
        what = "watts_strogatz_graph(%d, %d, %s), seed: %s" % (n, k, p, plan["source"])
        total = gone = 0
        distances, seen = [0] * (n // 2 + 1), []
        for i in range(25):
            s = plan["fair"] * 25 + i
            make = lambda: en.guarded("crash", ntm.topology.watts_strogatz_graph, n, k, p,
                                      {"int": s, "none": None, "object": random.Random(s)}[plan["source"]])
            links = sorted((a, b) for a, b, _ in make().edges)
            if plan["source"] != "none" and links != sorted((a, b) for a, b, _ in make().edges):
                raise Violation("seed", "%s: two networks of the seed %d differ" % (what, s))
            seen.append(tuple(links))
            have = set(links)
            for a in range(n):
                for d in range(1, k // 2 + 1):
                    total += 1
                    gone += (a, (a + d) % n) not in have
            for a, b in links:
                d = min((a - b) % n, (b - a) % n)
                if a < b and d > k // 2:
                    distances[d] += 1
        if len(set(seen)) < len(seen) and n * p >= 20:
            raise Violation("not-random", "%s: %d of %d networks are different" % (what, len(set(seen)), len(seen)))
        # a link that was rewired can come back through the rewiring of another one, so a few less may be missing
        low = p * (1 - 2 * k / (n - 10 * k))
        if gone > total * p and odds.bound(total, gone, p) > odds.LIMIT or gone < total * low and odds.bound(total, gone, low) > odds.LIMIT:
            raise Violation("unfair", "%s: %d of %d links were rewired" % (what, gone, total))
        each = gone / (n // 2)
        never = [d for d in range(k // 2 + 1, n // 2 + 1) if not distances[d]]
        if never and each / 2 > odds.LIMIT + 10:
            raise Violation("not-random", "%s: %d links were rewired, but none to a node %s places away" % (what, gone, never[:5]))
        sim.stats["steps"] += len(seen)
        sim.fault("draws_fair")
        sim.log(what, total, gone, distances)

    def execute(self, plan, sim):
        if "fair" in plan:
            return self.fair(plan, sim)
        ntm = boot.load()
        sim.budget = 30000
        built = []
        for i, op in enumerate(plan["ops"]):
            try:
                net = self.build(ntm, op, sim)
            except (Violation, Invalid):
                raise
            except KeyError as e:
                if e.args and e.args[0] in ("n", "k", "kind", "r"):
                    raise Invalid("plan")
                raise
            if net is None:
                continue
            links = sorted(((str(a), str(b), sorted(map(str, v.items()))) for a, b, v in net.edges))
            # networks handed out earlier are not affected
            for other, was, o in built:
                now = sorted(((str(a), str(b), sorted(map(str, v.items()))) for a, b, v in other.edges))
                if now != was:
                    raise Violation("shared", "building a %s altered a %s built before" % (op["kind"], o["kind"]))
            if op["evolve"] and len(list(net.nodes)) > 0:
                self.use(ntm, net, sim, str(op["kind"]), op["seed"])
                copy = net.copy()
                if not copy == net:
                    raise Violation("copy", "a copy of the %s differs" % op["kind"])
            if op["damage"] and links:
                a, b, _ = next(iter(net.edges))
                net.update_edge(a, b, damaged=True)
                now = [(x, y) for x, y, v in net.edges if v.get("damaged")]
                if now != [(a, b)]:
                    raise Violation("shared", "marking the link %s of a %s marked %s" % ((a, b), op["kind"], now))
                net.add_edge(a, b, weight=-5)
                for x in list(net.nodes)[:1]:
                    net.remove_node(x)
                sim.fault("network_altered")
                links = sorted(((str(a), str(b), sorted(map(str, v.items()))) for a, b, v in net.edges))
            built.append((net, links, op))
            sim.state((op["kind"], links))
            sim.log(i, op["kind"], links)
            sim.stats["steps"] += 1
            sim.probe(op["kind"])


WORLD = C51()
