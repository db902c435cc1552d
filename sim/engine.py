"""The engine world: randomly generated automata (the 'programs' of the simulated system) run by netomaton.evolve and by
a reference interpreter of the documented step equations. Callbacks mix everything they are told into their result, so
that any untruth told to any callback changes the rest of the history."""
import collections.abc
import copy
import linecache
import random
import sys

import numpy as np

from . import boot, seams
from .core import INJECTED, Injected, InjectedInterrupt, InjectedMemoryError, Invalid, NoProgress, Violation, crc
from .refnet import RefNet, build_real, edge_view, net_view, nkey, real_view

UNUSED = object()


# ---- values ----------------------------------------------------------------------------------------------------------

ENCODINGS = ["int", "int", "float", "str", "bool", "list", "npint", "npfloat", "mixed", "neg", "dict", "npbool", "npstr", "opt", "tuple"]


def encode(v, enc):
    if enc == "int":
        return v
    if enc == "neg":
        return 1 - v
    if enc == "float":
        return v / 7        # needs double precision
    if enc == "str":
        return "s%d" % v if v else ""
    if enc == "bool":
        return v % 2 == 1
    if enc == "list":
        return [v, (v * 3 + 1) % 7] if v else []
    if enc == "dict":
        return {"v": v, "w": [v]}
    if enc == "npint":
        return np.int64(v)
    if enc == "npfloat":
        return np.float64(v / 7)
    if enc == "npbool":
        return np.bool_(v % 2 == 1)
    if enc == "npstr":
        return np.str_("s%d" % v)
    if enc == "opt":
        return [None, 0, 1, "", 2][v % 5]
    if enc == "tuple":
        return (v % 3, "x", v // 3)
    if enc == "complex":        # can't be packed
        return complex(v, 1.5)
    if enc == "mixed":
        return [0, None, "x", 2.5, False, [1], 7, 2 ** 40, -(2 ** 33) - 1, "é\n", 0.1][v % 11]
    raise Invalid("encoding %r" % enc)


def plain(v):
    return v.item() if isinstance(v, np.generic) else v


def canon(v):
    """A canonical, hashable-by-repr form of an activity, input or attribute."""
    v = plain(v)
    if isinstance(v, dict):
        return ("d", sorted(((k, canon(x)) for k, x in v.items()), key=lambda kv: nkey(kv[0])))
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, np.ndarray):
        return [canon(x) for x in v.tolist()]
    return v


def acts_view(acts):
    return [(k, canon(acts[k])) for k in sorted(acts, key=nkey)]


LABELS = ["int", "int", "gap", "str", "neg", "mixed"]


def label(kind, i):
    if kind == "int":
        return i
    if kind == "gap":
        return 3 + 7 * i
    if kind == "neg":
        return -5 + 3 * i
    if kind == "str":
        return ["a", "b", "cc", "", "in", "out", "incoming", "x y", "é"][i] if i < 9 else "n%d" % i
    if kind == "mixed":
        return i if i % 2 else "k%d" % i
    raise Invalid("labels %r" % kind)


def fresh_label(kind, t, base, k):
    """The label for the k-th node added by node `base` at time t: unique whatever order nodes are visited in."""
    n = crc(t, nkey(base), k) % 1000003
    if kind == "str" or (kind == "mixed" and n % 2):
        return "new%d.%d" % (t, n)
    return 1000000 * (t + 1) + n


ATTRS = [{}, {}, {"weight": 1}, {"weight": 0.3}, {"weight": -2, "kind": "x"}, {"tags": [1, 2]}, {"flag": None, "deep": {"a": [1]}}]


def attr_of(n):
    return copy.deepcopy(ATTRS[n % len(ATTRS)])


# ---- plans -----------------------------------------------------------------------------------------------------------

def gen_net(rng, max_nodes=7, labels=None, rotation=False, large=0.0, empty=0.0):
    n = rng.choice([1, 2, 3, 3, 4, 4, 5, 6, 7][:max_nodes + 2])
    n = min(n, max_nodes)
    dice = rng.random()
    if dice < large:
        n = rng.choice([9, 10, 12, 16, 20])     # neighbourhoods larger than any small bound in the code
    elif dice > 1 - empty:
        return {"n": 0, "labels": labels or rng.choice(LABELS), "edges": [], "order": [], "rotation": 0}
    kind = labels or rng.choice(LABELS)
    edges = []
    shape = rng.choice(["ring", "random", "dense", "star", "sparse", "random"])
    if shape == "ring":
        for i in range(n):
            edges.append([i, i, 0])
            edges.append([i, (i + 1) % n, rng.randrange(7)])
            edges.append([(i + 1) % n, i, rng.randrange(7)])
    elif shape == "star":
        for i in range(1, n):
            edges.append([0, i, rng.randrange(7)])
            edges.append([i, 0, rng.randrange(7)])
    else:
        m = {"random": n * 2, "dense": n * n, "sparse": n // 2}[shape]
        for _ in range(m):
            edges.append([rng.randrange(n), rng.randrange(n), rng.randrange(7)])
    rng.shuffle(edges)
    if rng.random() < 0.3 and edges:
        for _ in range(rng.randrange(1, 3)):
            edges.append(list(rng.choice(edges)))   # parallel edges
    order = list(range(n))
    if rng.random() < 0.4:
        rng.shuffle(order)
    return {"n": n, "labels": kind, "edges": edges, "order": order, "rotation": rng.randrange(1, 1 << 30) if rotation else 0}


def build_ref(net):
    n, kind = net["n"], net["labels"]
    if n < 0 or sorted(net["order"]) != list(range(n)):
        raise Invalid("node order")
    ref = RefNet()
    for i in net["order"]:
        ref.add_node(label(kind, i))
    for i, j, a in net["edges"]:
        if not (0 <= i < n and 0 <= j < n):
            raise Invalid("edge")
        ref.add_edge(label(kind, i), label(kind, j), **attr_of(a))
    if net["rotation"]:
        ref.rotation = make_rotation(ref, net["rotation"])
    return ref


def make_rotation(ref, seed):
    rng = random.Random(seed)
    rot = {}
    for node in ref.nodes:
        around = list(ref.inc[node])
        if node not in around and rng.random() < 0.3:
            around.append(node)
        rng.shuffle(around)
        vary_rotation(around, sorted(ref.nodes, key=nkey), rng)
        rot[node] = tuple(around) if rng.random() < 0.3 else around
    return rot


def vary_rotation(around, everyone, rng):
    """A rotation system says which nodes are looked at, and in which order: a neighbour may be left out or occur twice, and
    nodes without a connection may be listed."""
    if around and rng.random() < 0.2:
        around.pop(rng.randrange(len(around)))
    if around and rng.random() < 0.2:
        around.insert(rng.randrange(len(around) + 1), rng.choice(around))
    if everyone and rng.random() < 0.2:
        around.insert(rng.randrange(len(around) + 1), rng.choice(everyone))


USES = ["self", "neigh", "edges", "time", "label", "past", "input", "far", "all"]


def gen_plan(rng, **force):
    """Draws a plan. `force` overrides features: churn, topo, pert, drive, past, rotation, memo, order, uses, ..."""
    f = lambda name, default: force[name] if name in force else default()
    order = f("order", lambda: rng.choice(["AF", "AF", "TF", "SYN"]))
    topo = f("topo", lambda: rng.random() < 0.5)
    churn = f("churn", lambda: order == "AF" and rng.random() < 0.25) and force.get("act", True)
    if churn:
        order = "AF"
    memo = f("memo", lambda: None)
    rotation = f("rotation", lambda: not churn and rng.random() < 0.3)
    act = f("act", lambda: rng.random() < 0.93 or churn)
    drive = f("drive", lambda: rng.choice(["T", "T", "T", "list", "rows", "fn"]))
    labels = f("labels", lambda: None)
    if drive == "rows":
        labels = "int"
        if churn:
            drive = "list"
    compression = f("compression", lambda: rng.random() < 0.3)
    net = gen_net(rng, force.get("max_nodes", 7), labels, rotation, force.get("large", 0.05),
                  0.0 if churn else force.get("empty", 0.01))
    n = net["n"]
    memo = memo if n else None
    enc = f("enc", lambda: rng.choice(ENCODINGS))
    if force.get("unpackable") and not compression and not churn and rng.random() < 0.06:
        enc = "complex"
    modulus = rng.choice([2, 2, 3, 5, 11])
    T = f("T", lambda: rng.choice([2, 3, 3, 4, 5, 6, 8, 12]))
    if n > 8:
        T = min(T, 4)
    elif "T" not in force and n <= 4 and rng.random() < force.get("long", 0.02):
        T = rng.choice([25, 40, 70])
    plan = {
        "net": net, "order": order,
        "init": {"vals": [rng.randrange(modulus) for _ in range(n)],
                 "form": rng.choice(["list", "ndarray", "dict", "dict", "dictnp"]) },
        "act": None, "topo": None, "pert": None, "churn": None, "past": None, "memo": memo,
        "drive": gen_drive(rng, drive, T, n, modulus),
        "copy_network": rng.random() < 0.75,
        "compression": compression,
        "persist_activities": f("persist_activities", lambda: rng.random() < 0.85),
        "persist_network": f("persist_network", lambda: rng.random() < 0.85),
        "t_offset": 0,
    }
    if net["labels"] != "int" and plan["init"]["form"] in ("list", "ndarray"):
        plan["init"]["form"] = "dict"
    if enc not in ("int", "float", "bool", "npint", "npfloat", "npbool", "neg") and plan["init"]["form"] == "ndarray":
        plan["init"]["form"] = "dict"
    if act:
        uses = f("uses", lambda: sorted(rng.sample(USES, rng.randrange(2, len(USES) + 1))))
        plan["act"] = {"seed": rng.randrange(1 << 30), "mod": modulus, "enc": enc, "uses": uses}
    else:
        plan["init"]["form"] = rng.choice(["dict", "none"])
    plan["enc"], plan["mod"] = enc, modulus
    if topo:
        style = rng.choice(["inplace", "copy", "fresh", "same", "inplace"])
        if style == "inplace":
            plan["copy_network"] = True
        plan["topo"] = {"seed": rng.randrange(1 << 30), "style": style, "rate": rng.choice([0.2, 0.6, 1.0]),
                        "lose_nodes": not churn and rng.random() < 0.3, "gain_nodes": (not act) and rng.random() < 0.5,
                        "rotation": bool(style == "fresh" and rng.random() < 0.4), "sees_acts": act}
        if net["rotation"] and not plan["topo"]["rotation"] and (style != "same" or plan["copy_network"]):
            net["rotation"] = 0
    if f("pert", lambda: act and rng.random() < 0.4):
        plan["pert"] = {"seed": rng.randrange(1 << 30), "rate": rng.choice([0.1, 0.5, 1.0])}
    if churn:
        # without immortals, the network can die out (and be repopulated only by those who leave last)
        immortal = sorted(rng.sample(range(n), max(1, n // 2))) if rng.random() < 0.85 else []
        plan["churn"] = {"seed": rng.randrange(1 << 30), "immortal": immortal, "leave": rng.choice([0.1, 0.3, 0.6]),
                         "join": rng.choice([0.1, 0.3, 0.5]), "evict": rng.choice([0.0, 0.2, 0.4]),
                         "rebirth": rng.choice([0.0, 0.3]), "replace": rng.choice([0.0, 0.0, 0.4]),
                         "together": rng.choice([0.0, 0.0, 0.3]), "max": 14}
    if f("past", lambda: act and rng.random() < 0.35):
        depth = rng.choice([1, 1, 2, 3, 5]) if rng.random() < 0.96 else rng.choice([9, 14, 30])
        plan["past"] = {"forms": [rng.choice(["dict", "list", "ndarray"]) if net["labels"] == "int" else "dict"
                                  for _ in range(depth)],
                        "vals": [[rng.randrange(modulus) for _ in range(n)] for _ in range(depth)]}
        if enc not in ("int", "float", "neg"):
            plan["past"]["forms"] = ["dict" if x == "ndarray" else x for x in plan["past"]["forms"]]
    return plan


def gen_drive(rng, drive, T, n, modulus):
    if drive == "T":
        return {"kind": "T", "T": T}
    form = rng.choice(["int", "int", "float", "str", "list", "dict", "falsy"])
    if n == 0:
        form = "empty"
    if drive == "list":
        return {"kind": "list", "vals": [rng.randrange(4) for _ in range(T - 1)], "form": form,
                "as": rng.choice(["list", "tuple", "deque", "userlist"]), "T": rng.choice([None, 1, 3, 50])}
    if drive == "rows":
        return {"kind": "rows", "rows": [[rng.randrange(4) for _ in range(n)] for _ in range(T - 1)], "form": form,
                "as": rng.choice(["list", "list", "tuple", "str", "range", "bytes", "deque", "userlist"]),
                "all": rng.choice(["list", "list", "tuple", "deque", "userlist"]), "T": None}
    return {"kind": "fn", "seed": rng.randrange(1 << 30), "until": T - 1, "form": form,
            "quit": rng.choice([0, 0, 3, 6])}


def scalar_input(v, form):
    """Inputs that are not sequences (a sequence would mean one item per node)."""
    if form == "int":
        return v
    if form == "float":
        return v / 4
    if form == "dict":
        return {"in": v}
    if form == "falsy":
        return [0, False, 0.0, {}][v % 4]
    if form == "str":
        return {"s": str(v)}
    if form == "list":
        return {"l": [v]}
    if form == "empty":       # only for networks without nodes: there is no item to pick
        return ["", [], (), 0][v % 4]
    raise Invalid("input form")


def row_item(v, form):
    if form == "str":
        return "v%d" % v if v else ""
    if form == "list":
        return [v]
    if form == "falsy":
        return [0, None, "", []][v % 4]
    return scalar_input(v, form)


def make_row(row, form, as_):
    if as_ == "str":
        return "".join("abcd"[v % 4] for v in row)
    if as_ == "range":
        return range(row[0] if row else 0, (row[0] if row else 0) + len(row))
    if as_ == "bytes":
        return bytes(row)
    items = [row_item(v, form) for v in row]
    return container(items, as_)


def container(items, as_):
    if as_ == "deque":
        return collections.deque(items)
    if as_ == "userlist":
        return collections.UserList(items)
    return tuple(items) if as_ == "tuple" else items


# ---- contexts as the reference interpreter presents them -----------------------------------------------------------------

class RefNodeContext:
    def __init__(self, **k):
        self.__dict__.update(k)
        self.added_nodes, self.removed_nodes = [], []

    def activity_of(self, n):
        return self.activities[n]

    def past_activity_of(self, n, past_activity_index=-1):
        return self.past_activities[past_activity_index][n]

    def edge_data(self, n, attr, index=0):
        return self.connection_states[n][index][attr]

    def add_node(self, state, links, name):
        self.added_nodes.append((state, links, name))

    def remove_node(self, name):
        self.removed_nodes.append(name)


class RefTopoContext:
    def __init__(self, network, activities, timestep):
        self.network, self.activities, self.timestep = network, activities, timestep


class RefPertContext:
    def __init__(self, **k):
        self.__dict__.update(k)


def node_view(ctx, uses, ordered, t_offset=0):
    """Everything `uses` names of what a NodeContext tells. Times are absolute: the timestep plus the offset of a resumed
    run."""
    out = []
    t = ctx.timestep + t_offset
    acts = ctx.activities
    if "label" in uses:
        out.append(("label", ctx.node_label))
    if "time" in uses:
        out.append(("t", t))
    if "self" in uses:
        out.append(("self", canon(ctx.current_activity)))
    labels = list(ctx.neighbour_labels)
    if "neigh" in uses:
        pairs = list(zip(labels, [canon(a) for a in ctx.neighbourhood_activities]))
        if not ordered:
            pairs.sort(key=lambda p: nkey(p[0]))
        out.append(("neigh", len(ctx.neighbourhood_activities), pairs))
    if "anon" in uses:
        bag = [canon(a) for a in ctx.neighbourhood_activities]
        if not ordered:
            bag.sort(key=nkey)
        out.append(("anon", bag))
    if "edges" in uses:
        out.append(("edges", edge_view(ctx.connection_states)))
        for nb in sorted(ctx.connection_states, key=nkey):
            for k, e in enumerate(ctx.connection_states[nb]):
                for a in sorted({a for x in ctx.connection_states[nb] for a in x}):
                    try:
                        value = canon(ctx.edge_data(nb, a, k) if k else ctx.edge_data(nb, a))
                    except KeyError:
                        value = "no such attribute"
                    out.append(("edge", nb, k, a, value))
    if "all" in uses:
        out.append(("all", acts_view(acts)))
    if "far" in uses:
        keys = sorted(acts, key=nkey)
        who = keys[crc(t, nkey(ctx.node_label)) % len(keys)]
        out.append(("far", who, canon(ctx.activity_of(who))))
    if "past" in uses:
        past = ctx.past_activities
        if past is None:
            out.append(("past", None))
        else:
            out.append(("past", [acts_view(p) for p in past]))
            for k in range(len(past)):
                if ctx.node_label in past[k]:
                    out.append(("pastof", k, canon(ctx.past_activity_of(ctx.node_label, k))))
            if ctx.node_label in past[-1]:
                out.append(("pastof", canon(ctx.past_activity_of(ctx.node_label))))
    if "input" in uses:
        out.append(("input", canon(ctx.input)))
    return out


FULL = ["label", "time", "self", "neigh", "edges", "all", "far", "past", "input"]


class Program:
    """The callbacks of one plan. The same code runs under netomaton and under the reference interpreter; it records
    what each call was told."""

    def __init__(self, plan, sim=None, hook=None, deep_log=True, t_offset=0, net_ops=None):
        self.plan = plan
        self.sim = sim
        self.hook = hook                # called as hook(kind, t, label) at the start of every callback
        self.deep = deep_log
        self.t_offset = plan["t_offset"] + t_offset
        self.calls = []                 # (kind, t, label, crc of everything told)
        self.views = {}                 # same key -> the view itself, for reporting
        self.kept = []                  # contexts kept by callbacks, with their views at the time
        self.keep_every = 0
        self.ntm = None                 # set for the real run
        self.tables = {}                # the links mappings handed out

    def _enter(self, kind, t, lab, view):
        key = (kind, t, lab)
        c = crc(view)
        self.calls.append((kind, t, lab, c))
        self.views[len(self.calls) - 1] = view
        if self.sim is not None:
            self.sim.spend()
        if self.hook is not None:
            self.hook(kind, t, lab)

    # -- activity rule
    def act(self, ctx):
        a = self.plan["act"]
        t = ctx.timestep + self.t_offset
        ordered = self.is_ordered(ctx)
        view = node_view(ctx, FULL if self.deep else a["uses"], ordered, self.t_offset)
        self._enter("act", t, ctx.node_label, view)
        if self.keep_every and len(self.kept) < 12 and crc(t, nkey(ctx.node_label)) % self.keep_every == 0:
            self.kept.append(("act", ctx, ordered, view))
        v = crc(a["seed"], node_view(ctx, a["uses"], ordered, self.t_offset)) % a["mod"]
        if self.plan["churn"]:
            return self._churn(ctx, t, v)
        return encode(v, a["enc"])

    def is_ordered(self, ctx):
        """Whether the order of neighbours is meaningful for this call (the network in force has a rotation system)."""
        return self.rotated_at(ctx)

    def rotated_at(self, ctx):
        p = self.plan
        if p["topo"] and p["topo"]["rotation"]:
            # the rule attaches a rotation system to every network it builds; the initial one has it if the plan says so
            first_rule_net = ctx.timestep == 1 and p["order"] in ("AF", "SYN")
            return bool(p["net"]["rotation"]) if first_rule_net and not self.t_offset else True
        if p["topo"] and (p["topo"]["style"] != "same" or p["copy_network"]):
            first = ctx.timestep == 1 and p["order"] in ("AF", "SYN")
            return bool(p["net"]["rotation"]) and first and not self.t_offset
        if p["churn"]:
            return False
        return bool(p["net"]["rotation"])

    def _churn(self, ctx, t, v):
        p, c, a = self.plan, self.plan["churn"], self.plan["act"]
        kind = p["net"]["labels"]
        me = ctx.node_label
        core = {label(kind, i) for i in c["immortal"]}
        rnd = random.Random(crc(c["seed"], t, nkey(me), v))
        everyone = sorted(ctx.activities, key=nkey)
        mortal = [x for x in everyone if x not in core]
        result = encode(v, a["enc"])
        joins = []
        if len(everyone) < c["max"] and rnd.random() < c["join"]:
            for k in range(rnd.choice([1, 1, 2])):
                joins.append(fresh_label(kind, t, me, k))
        reborn = False
        if me not in core and rnd.random() < c["leave"]:
            ctx.remove_node(me)
            result = None
            if rnd.random() < c["rebirth"]:
                reborn = True
        shared = []
        if mortal and rnd.random() < c["evict"]:
            for _ in range(rnd.choice([1, 1, 2])):
                victim = rnd.choice(mortal)
                ctx.remove_node(victim)
                if rnd.random() < c.get("replace", 0):
                    shared.append(victim)
        anchors = sorted(core, key=nkey)
        if len(everyone) < c["max"] and rnd.random() < c.get("together", 0):
            shared.append(fresh_label(kind, t, "together", rnd.randrange(2)))
        if reborn:
            shared.append(me)
        for name in dict.fromkeys(shared):
            # several nodes may ask for this one: what they ask for is the same state, each with links of its own
            links = {}
            for target in anchors:
                if rnd.random() < 0.5:
                    links[target] = attr_of(crc(t, nkey(name), nkey(target)) % 7)
            ctx.add_node(encode(crc(t, nkey(name), c["seed"]) % a["mod"], a["enc"]), self.table(links), name)
        for name in joins:
            links = {}
            for target in anchors + ([name] if rnd.random() < 0.4 else []) + [x for x in joins if x != name]:
                if rnd.random() < 0.5:
                    links[target] = attr_of(rnd.randrange(7))
            ctx.add_node(encode(rnd.randrange(a["mod"]), a["enc"]), self.table(links), name)
        return result

    def table(self, links):
        """Rules hand out the same mapping object whenever they ask for the same links."""
        return self.tables.setdefault(repr(links), links)

    # -- topology rule
    def topo(self, ctx):
        tp = self.plan["topo"]
        t = ctx.timestep + self.t_offset
        net = ctx.network
        nv = self._nv(net)
        av = acts_view(ctx.activities) if tp["sees_acts"] else None
        self._enter("topo", t, None, (t, nv, av))
        if self.keep_every and len(self.kept) < 16:
            self.kept.append(("topo", ctx, tp["style"] == "inplace", (t, nv, av)))
        rnd = random.Random(crc(tp["seed"], t, nv, av))
        if tp["style"] == "same":
            return net
        if tp["style"] == "copy":
            net = net.copy()
        elif tp["style"] == "fresh":
            net = self._fresh(net)
        if rnd.random() < tp["rate"]:
            self._mutate(net, rnd, tp, t)
        if tp["rotation"]:
            self._rotate(net, crc(tp["seed"], self._nv(net)))
        return net

    def _nv(self, net):
        return net.view() if isinstance(net, RefNet) else real_view(net)

    def _edges(self, net):
        e = net.edges() if isinstance(net, RefNet) else list(net.edges)
        pairs = sorted({(nkey(i), nkey(j)): (i, j) for i, j, _ in e}.items())
        return [ij for _, ij in pairs]

    def _fresh(self, net):
        if isinstance(net, RefNet):
            return net.copy()
        n = self.ntm.Network()
        for x in net.nodes:
            n.add_node(x)
        for i, j, e in net.edges:
            n.add_edge(i, j, **copy.deepcopy(e))
        return n

    def _rotate(self, net, seed):
        inc = {n: net.inc[n] if isinstance(net, RefNet) else net.in_edges(n) for n in net.nodes}
        rot = {}
        for n in sorted(inc, key=nkey):
            around = sorted(inc[n], key=nkey)
            rnd = random.Random(crc(seed, nkey(n)))
            rnd.shuffle(around)
            vary_rotation(around, sorted(inc, key=nkey), rnd)
            rot[n] = around
        if isinstance(net, RefNet):
            net.rotation = rot
        else:
            net.rotation_system = rot

    def _mutate(self, net, rnd, tp, t):
        nodes = sorted(net.nodes, key=nkey)
        for _ in range(rnd.choice([1, 1, 2, 4])):
            nodes = sorted(net.nodes, key=nkey)
            if not nodes:
                break
            op = rnd.choice(["link", "link", "unlink", "update", "flap", "partition", "heal", "lose", "gain", "multi"])
            if op in ("link", "multi"):
                i, j = rnd.choice(nodes), rnd.choice(nodes)
                for _ in range(2 if op == "multi" else 1):
                    net.add_edge(i, j, **attr_of(rnd.randrange(7)))
            elif op in ("unlink", "update", "flap"):
                es = self._edges(net)
                if not es:
                    continue
                i, j = rnd.choice(es)
                if op == "update":
                    net.update_edge(i, j, weight=rnd.randrange(9))
                else:
                    net.remove_edge(i, j)
                    if op == "flap":
                        net.add_edge(i, j, flapped=t)
            elif op == "partition":
                side = {x for x in nodes if rnd.random() < 0.5}
                for i, j in self._edges(net):
                    if (i in side) != (j in side):
                        net.remove_edge(i, j)
            elif op == "heal":
                for i, j in zip(nodes, nodes[1:] + nodes[:1]):
                    if not net.has_edge(i, j):
                        net.add_edge(i, j, healed=t)
            elif op == "lose" and tp["lose_nodes"] and (len(nodes) > 1 or not tp["sees_acts"]):
                core = {label(self.plan["net"]["labels"], i) for i in (self.plan["churn"] or {"immortal": [0]})["immortal"]}
                cand = [x for x in nodes if x not in core] if tp["sees_acts"] else nodes
                if cand:
                    net.remove_node(rnd.choice(cand))
            elif op == "gain" and tp["gain_nodes"]:
                net.add_node(fresh_label(self.plan["net"]["labels"], t, "gain", rnd.randrange(100)))

    # -- perturbation
    def pert(self, ctx):
        p = self.plan["pert"]
        t = ctx.timestep + self.t_offset
        view = (ctx.node_label, t, canon(ctx.node_activity), canon(ctx.input))
        self._enter("pert", t, ctx.node_label, view)
        if self.keep_every and len(self.kept) < 16 and crc(view) % 5 == 0:
            self.kept.append(("pert", ctx, None, view))
        h = crc(p["seed"], view)
        if (h % 1000) / 1000 < p["rate"]:
            if self.sim is not None and self.ntm is not None:
                self.sim.fault("perturbation")
            return encode((h >> 10) % self.plan["mod"], self.plan["enc"])
        return ctx.node_activity

    # -- input source
    def source(self, t, acts, net):
        d = self.plan["drive"]
        at = t + self.t_offset
        view = (at, acts_view(acts) if acts is not None and (self.plan["act"] is not None) else None, self._nv(net))
        self._enter("input", at, None, view)
        if at > d["until"]:
            return None
        h = crc(d["seed"], view)
        if d["quit"] and h % (d["quit"] * 4) == 0:
            return None
        return scalar_input((h >> 8) % 4, d["form"])

    # -- arguments
    def initial(self):
        p = self.plan
        kind, net = p["net"]["labels"], p["net"]
        vals = p["init"]["vals"]
        if len(vals) < net["n"]:
            raise Invalid("initial conditions")
        form = p["init"]["form"]
        enc = p["enc"]
        if form in ("list", "ndarray") and kind != "int":
            raise Invalid("list form needs labels 0..n-1")
        xs = [encode(v, enc) for v in vals[:net["n"]]]
        if form == "list":
            return xs
        if form == "ndarray":
            return np.array([plain(x) for x in xs])
        if form == "none":
            return None
        out = {}
        for i in net["order"]:
            x = xs[i]
            out[label(kind, i)] = x if form == "dictnp" else plain(x)
        return out

    def past_conditions(self):
        p = self.plan
        if not p["past"]:
            return None
        out = []
        kind, n = p["net"]["labels"], p["net"]["n"]
        for form, vals in zip(p["past"]["forms"], p["past"]["vals"]):
            if len(vals) < n or (form != "dict" and kind != "int"):
                raise Invalid("past")
            xs = [plain(encode(v, p["enc"])) for v in vals[:n]]
            if form == "list":
                out.append(xs)
            elif form == "ndarray":
                out.append(np.array(xs))
            else:
                out.append({label(kind, i): x for i, x in enumerate(xs)})
        return out

    def inputs(self):
        d = self.plan["drive"]
        if d["kind"] == "T":
            return None
        if d["kind"] == "list":
            xs = [scalar_input(v, d["form"]) for v in d["vals"]]
        elif d["kind"] == "rows":
            if self.plan["net"]["labels"] != "int" or self.plan["churn"]:
                raise Invalid("rows")
            if any(len(r) < self.plan["net"]["n"] for r in d["rows"]):
                raise Invalid("rows")
            xs = [make_row(r, d["form"], d["as"]) for r in d["rows"]]
            return container(xs, d["all"])
        else:
            return self.source
        return container(xs, d["as"])


def as_dict(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return {i: plain(v) for i, v in enumerate(x)}


def check_plan(plan):
    """Domain restrictions (see DESIGN.md); generated plans satisfy them, shrunk ones may not."""
    if plan["churn"]:
        if plan["order"] != "AF" or plan["act"] is None or plan["net"]["rotation"] or plan["memo"] \
                or max(plan["churn"]["immortal"], default=-1) >= plan["net"]["n"]:
            raise Invalid("churn")
    if plan["topo"]:
        if plan["topo"]["style"] == "inplace" and not plan["copy_network"]:
            raise Invalid("in-place topology rules need network copying")
        if plan["topo"]["gain_nodes"] and plan["act"] is not None:
            raise Invalid("topology rules cannot give new nodes an activity")
        if plan["topo"]["sees_acts"] != (plan["act"] is not None):
            raise Invalid("topology rule")
        if plan["churn"] and plan["topo"]["lose_nodes"]:
            raise Invalid("a rule may evict a node the topology rule has removed already")
        if plan["topo"]["rotation"] and plan["topo"]["style"] != "fresh":
            raise Invalid("rotation needs fresh networks")
        if plan["net"]["rotation"] and not plan["topo"]["rotation"] and \
                (plan["topo"]["style"] != "same" or plan["copy_network"]):
            raise Invalid("copies of a network do not carry its rotation system (known finding)")
    if plan["pert"] and plan["act"] is None:
        raise Invalid("perturbation without rule")
    if plan["order"] not in ("AF", "TF", "SYN"):
        raise Invalid("order")


# ---- the reference interpreter ---------------------------------------------------------------------------------------

class RefRun:
    """Interprets the documented step equations on the reference model."""

    def __init__(self, plan, t_offset=0, start=None, hook=None, limit=None):
        check_plan(plan)
        self.plan = plan
        self.prog = Program(plan, t_offset=t_offset)
        prog = self.prog
        A = build_ref(plan["net"])
        init = prog.initial()
        S = {} if init is None else as_dict(init)
        past = prog.past_conditions()
        self.window = None
        if past is not None:
            self.window = [as_dict(x) for x in past]
        if start is not None:
            A, S, self.window = start
        inputs = prog.inputs()
        self.states = [(copy.deepcopy(S), A.copy(True))]
        self.windows = [copy.deepcopy(self.window)]
        t = 1
        while True:
            inp, per_node = self.next_input(inputs, t, S, A)
            if inp is UNUSED:
                break
            S, A = self.step(t, S, A, inp, per_node)
            self.states.append((copy.deepcopy(S), A.copy(True)))
            self.windows.append(copy.deepcopy(self.window))
            t += 1
            if limit is not None and t > limit:
                break

    def next_input(self, inputs, t, S, A):
        d = self.plan["drive"]
        if d["kind"] == "T":
            return (UNUSED if t + self.prog.t_offset >= d["T"] else None), False
        if callable(inputs):
            x = inputs(t, S, A)
            return (UNUSED if x is None else x), False
        k = t - 1 + self.prog.t_offset
        if k >= len(inputs) or inputs[k] is None:
            return UNUSED, False
        return inputs[k], isinstance(inputs[k], collections.abc.Sequence)

    def step(self, t, S, A, inp, per_node):
        order = self.plan["order"]
        adds, rems = [], []
        if order == "AF":
            S2, adds, rems = self.activities(t, S, A, inp, per_node)
            A2 = self.topology(t, S2, A, adds, rems)
        elif order == "TF":
            A2 = self.topology(t, S, A, adds, rems)
            S2, _, _ = self.activities(t, S, A2, inp, per_node)
        else:
            A2 = self.topology(t, S, A, adds, rems)
            S2, _, _ = self.activities(t, S, A, inp, per_node)
        if self.window is not None:
            self.window = self.window[1:] + [S]
        return S2, A2

    def activities(self, t, S, A, inp, per_node):
        if self.plan["act"] is None:
            return {}, [], []
        S2, adds, rems = {}, [], []
        for node in A.nodes:
            around = list(A.rotation[node]) if A.rotation is not None else list(A.inc[node])
            ctx = RefNodeContext(
                node_label=node, timestep=t, activities=S, neighbour_labels=around,
                neighbourhood_activities=[S[x] for x in around], connection_states=A.inc[node],
                current_activity=S[node],
                past_activities=None if self.window is None else list(self.window),
                input=inp[node] if per_node else inp)
            new = plain(self.prog.act(ctx))
            adds += ctx.added_nodes
            rems += ctx.removed_nodes
            if node in ctx.removed_nodes:
                continue
            if self.plan["pert"]:
                new = plain(self.prog.pert(RefPertContext(node_label=node, node_activity=new, timestep=t,
                                                          input=inp[node] if per_node else inp)))
            S2[node] = new
        for node in rems:
            S2.pop(node, None)
        for state, _, name in adds:
            S2[name] = plain(state)
        return S2, adds, rems

    def topology(self, t, S, A, adds, rems):
        A2 = A
        if adds or rems:
            A2 = A.copy()
            for node in set(rems):
                A2.remove_node(node)
            for state, links, name in adds:
                A2.add_node(name)
                for target, attr in links.items():
                    A2.add_edge(name, target, **attr)
        if self.plan["topo"]:
            keep = self.plan["topo"]["style"] == "same" and not self.plan["copy_network"]
            A2 = A2.copy(keep)
            A2 = self.prog.topo(RefTopoContext(A2, S, t))
        return A2


# ---- the real system -------------------------------------------------------------------------------------------------

ORDERS = {"AF": "ACTIVITIES_FIRST", "TF": "TOPOLOGY_FIRST", "SYN": "SYNCHRONOUS"}


class RealRun:
    """Runs a plan through netomaton.evolve and keeps what went in."""

    def __init__(self, plan, sim, hook=None, t_offset=0, options=None, keep_every=0, deep_log=True, args=None,
                 memo_key=None, program=None):
        check_plan(plan)
        ntm = boot.load()
        self.plan = plan
        self.prog = prog = program or Program(plan, sim, hook, deep_log, t_offset)
        prog.ntm = ntm
        prog.keep_every = keep_every
        d = plan["drive"]
        self.ref0 = build_ref(plan["net"])
        a = args or {}
        self.network = a["network"] if "network" in a else build_real(ntm, self.ref0)
        self.init = a["init"] if "init" in a else prog.initial()
        self.past = a["past"] if "past" in a else prog.past_conditions()
        self.inputs = a["inputs"] if "inputs" in a else prog.inputs()
        kw = dict(
            initial_conditions=self.init,
            activity_rule=prog.act if plan["act"] else None,
            topology_rule=prog.topo if plan["topo"] else None,
            perturbation=prog.pert if plan["pert"] else None,
            past_conditions=self.past,
            update_order=getattr(ntm.UpdateOrder, ORDERS[plan["order"]]),
            copy_network=plan["copy_network"], compression=plan["compression"],
            persist_activities=plan["persist_activities"], persist_network=plan["persist_network"],
        )
        if (plan["act"] or plan["topo"] or {"seed": 0})["seed"] % 2:
            # what isn't asked for is left out
            usual = dict(activity_rule=None, topology_rule=None, perturbation=None, past_conditions=None, copy_network=True, compression=False,
                         update_order=ntm.UpdateOrder.ACTIVITIES_FIRST, persist_activities=True, persist_network=True)
            for k, v in usual.items():
                if kw[k] is v:
                    del kw[k]
        if d["kind"] == "T":
            kw["timesteps"] = a.get("T", d["T"])
        else:
            kw["input"] = self.inputs
            if d.get("T") is not None:
                kw["timesteps"] = d["T"]
        if plan["memo"]:
            kw["memoize"] = True
            if memo_key is not None:
                kw["memoization_key"] = memo_key
        if options:
            kw.update(options)
        self.kw = kw
        self.trajectory = None

    def run(self):
        self.trajectory = boot.load().evolve(self.network, **self.kw)
        return self.trajectory


def short(x, n=600):
    r = repr(x)
    return r if len(r) <= n else r[:n] + "..."


def guarded(cls, fn, *a, **k):
    """Calls fn; any exception that was not injected is a violation."""
    try:
        return fn(*a, **k)
    except (Violation, Invalid, NoProgress):
        raise
    except INJECTED:
        raise
    except BaseException as e:
        import traceback
        raise Violation(cls, "unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-4)))


def compare_trajectory(traj, ref, plan, sim, options=None, what="trajectory", first=0):
    """The recorded states against the reference ones."""
    opt = dict(persist_activities=plan["persist_activities"], persist_network=plan["persist_network"])
    if options:
        opt.update({k: v for k, v in options.items() if k in opt})
    states = ref.states if hasattr(ref, "states") else ref
    if not isinstance(traj, list):
        raise Violation("trajectory-type", "%s is a %s" % (what, type(traj).__name__))
    if len(traj) != len(states):
        raise Violation("length", "%s has %d states, expected %d" % (what, len(traj), len(states)))
    for t, (st, (S, A)) in enumerate(zip(traj, states)):
        acts = guarded("state-access", lambda: st.activities)
        want_acts = t == 0 or opt["persist_activities"]
        if not want_acts:
            if acts is not None:
                raise Violation("recorded-unasked", "%s: activities recorded at t=%d" % (what, t))
        elif acts is None:
            raise Violation("not-recorded", "%s: no activities at t=%d" % (what, t))
        else:
            got, exp = acts_view(acts), acts_view(S)
            if got != exp:
                diff = [(g, e) for g, e in zip(got, exp) if g != e][:3]
                raise Violation("activities", "%s t=%d: activities differ: got %s expected %s (first differences %s)"
                                % (what, t, short(got), short(exp), short(diff)))
            if any(isinstance(v, np.generic) for v in acts.values()):
                raise Violation("numpy-scalar", "%s t=%d: NumPy scalars recorded" % (what, t))
        net = guarded("state-access", lambda: st.network)
        want_net = t == 0 or opt["persist_network"]
        if not want_net:
            if net is not None:
                raise Violation("recorded-unasked", "%s: network recorded at t=%d" % (what, t))
        elif net is None:
            raise Violation("not-recorded", "%s: no network at t=%d" % (what, t))
        else:
            got, exp = real_view(net), A.view()
            if got != exp:
                diff = [(g, e) for g, e in zip(got, exp) if g != e][:2]
                raise Violation("network", "%s t=%d: network differs: got %s expected %s (first differences %s)"
                                % (what, t, short(got), short(exp), short(diff)))
            check_degrees(net, A, "%s t=%d" % (what, t))
        sim.log("state", t, crc(acts_view(S)), crc(A.view()))
        sim.state((acts_view(S), A.view()))
    sim.stats["steps"] += len(states) - 1
    sim.stats["node_updates"] += sum(len(S) for S, _ in states[1:])


def check_degrees(net, A, what):
    for n in A.nodes:
        if net.in_degree(n) != A.in_degree(n) or net.out_degree(n) != A.out_degree(n):
            raise Violation("degree", "%s: node %r has degrees in=%r out=%r, expected in=%r out=%r"
                            % (what, n, net.in_degree(n), net.out_degree(n), A.in_degree(n), A.out_degree(n)))


def compare_calls(real, ref, kinds=("act", "topo", "pert", "input"), what="run"):
    """Every callback was called exactly as often as, and told exactly what, the step equations say."""
    def group(prog):
        out = {}
        for i, (kind, t, lab, c) in enumerate(prog.calls):
            if kind in kinds:
                out.setdefault((kind, t, nkey(lab)), []).append(i)
        return out
    g, e = group(real), group(ref)
    for key in sorted(set(g) | set(e), key=lambda k: (k[1], repr(k))):
        gi, ei = g.get(key, []), e.get(key, [])
        if len(gi) != len(ei):
            raise Violation("call-count", "%s: %s(t=%d, node %s) was called %d times, expected %d"
                            % (what, key[0], key[1], key[2][1], len(gi), len(ei)))
        for a, b in zip(gi, ei):
            if real.calls[a][3] != ref.calls[b][3]:
                va, vb = real.views[a], ref.views[b]
                diff = [(x, y) for x, y in zip(va, vb) if x != y][:3] if isinstance(va, (list, tuple)) else (va, vb)
                raise Violation("told-" + key[0], "%s: %s(t=%d, node %s) was told %s"
                                % (what, key[0], key[1], key[2][1], "; ".join("%s instead of %s" % (short(x, 300), short(y, 300)) for x, y in diff) or short(va)))


def check_kept(prog, sim):
    """Contexts that callbacks kept still describe the moment they were given for."""
    for kind, ctx, flag, view in prog.kept:
        if kind == "act":
            now = node_view(ctx, FULL, flag, prog.t_offset)
        elif kind == "pert":
            now = (ctx.node_label, ctx.timestep + prog.t_offset, canon(ctx.node_activity), canon(ctx.input))
        else:
            nv = view[1] if flag else prog._nv(ctx.network)   # an in-place rule changed that network itself
            now = (ctx.timestep + prog.t_offset, nv, acts_view(ctx.activities) if view[2] is not None else None)
        if now != view:
            diff = [(x, y) for x, y in zip(now, view) if x != y][:2]
            raise Violation("kept-context", "a kept %s context changed afterwards: %s"
                            % (kind, "; ".join("now %s, then %s" % (short(x, 300), short(y, 300)) for x, y in diff)))
        sim.probe("kept_" + kind)


class Frozen:
    """Deep copies of everything the caller passed in, to be compared afterwards."""

    def __init__(self, run):
        self.run = run
        self.before = self.take()

    def take(self):
        r = self.run
        rot = r.network.rotation_system
        return {"network": real_view(r.network), "node order": list(r.network.nodes),
                "rotation system": None if rot is None else {k: list(v) for k, v in rot.items()},
                "initial conditions": self._args(r.init), "past conditions": self._args(r.past),
                "input": None if callable(r.inputs) else self._args(r.inputs)}

    @staticmethod
    def _args(x):
        return (type(x).__name__, repr(x), copy.deepcopy(x) if not isinstance(x, np.ndarray) else x.tolist())

    def check(self, when):
        now = self.take()
        for k in now:
            if repr(now[k]) != repr(self.before[k]):
                raise Violation("argument-altered", "the caller's %s changed %s: %s, was %s"
                                % (k, when, short(now[k], 400), short(self.before[k], 400)))
        for was, links in self.run.prog.tables.items():
            if repr(links) != was:
                raise Violation("argument-altered", "the links a rule asked for changed %s: %s, was %s" % (when, short(links), short(was)))


# ---- fault injection into a run ------------------------------------------------------------------------------------------

class CallbackBoom(Exception):
    pass


class BoomKeyError(KeyError):
    pass


class BoomIndexError(IndexError):
    pass


class BoomAttributeError(AttributeError):
    pass


class BoomTypeError(TypeError):
    pass


class BoomValueError(ValueError):
    pass


class BoomMemoryError(MemoryError):
    pass


class BoomInterrupt(KeyboardInterrupt):
    pass


class BoomExit(SystemExit):
    pass


BOOMS = [CallbackBoom, BoomKeyError, BoomIndexError, BoomAttributeError, BoomTypeError, BoomValueError, BoomMemoryError,
         BoomInterrupt, BoomExit]


_with_lines = {}


def interruptible(code, lineno):
    """CPython delivers interrupts at calls, function entries and loops, never between the end of a with block and the
    exit of its context manager; a line event does occur there, on the line of the with statement."""
    key = (code, lineno)
    if key not in _with_lines:
        _with_lines[key] = not linecache.getline(code.co_filename, lineno).lstrip().startswith(("with ", "async with "))
    return _with_lines[key]


class Fault:
    """One fault of a run: {"where": act|topo|pert|input|any|pack|unpack|line|key, "at": k, "exc": i}."""

    def __init__(self, spec, sim):
        self.where, self.at, self.sim = spec["where"], spec["at"], sim
        if self.where in ("pack", "unpack"):
            exc = BoomMemoryError
        elif self.where == "line":
            exc = BoomInterrupt
        else:
            exc = BOOMS[spec["exc"] % len(BOOMS)]
        self.exc = exc("injected")
        self.count = 0
        self.fired = False
        self.after = 0       # callbacks invoked after the fault

    def hook(self, kind, t, lab):
        if self.fired:
            self.after += 1
        if self.where == kind or (self.where == "any" and kind != "key"):
            self.tick(kind)

    def tick(self, kind):
        if self.fired:
            return
        self.count += 1
        if self.count > self.at:
            self.fired = True
            self.sim.fault("%s_%s" % ("callback" if kind in ("act", "topo", "pert", "input", "key") else kind,
                                      type(self.exc).__name__))
            raise self.exc

    def __enter__(self):
        if self.where == "pack":
            seams.S.pack = lambda o: self.tick("pack")
        elif self.where == "unpack":
            seams.S.unpack = lambda o: self.tick("unpack")
        elif self.where == "line":
            root = boot.REPO.rstrip("/") + "/netomaton/"

            def local(frame, event, arg):
                if event == "line" and interruptible(frame.f_code, frame.f_lineno):
                    self.tick("line")
                return local

            def tracer(frame, event, arg):
                return local if frame.f_code.co_filename.startswith(root) else None
            sys.settrace(tracer)
        return self

    def __exit__(self, *a):
        if self.where == "line":
            sys.settrace(None)
        seams.S.pack = seams.S.unpack = None


def gen_fault(rng, plan, kinds=None):
    kinds = kinds or ["act", "topo", "pert", "input", "any", "pack", "unpack", "line"]
    ok = [k for k in kinds if (k not in ("act", "topo", "pert") or plan[k]) and
          (k != "input" or plan["drive"]["kind"] == "fn") and
          (k not in ("pack", "unpack") or plan["topo"] or plan["compression"] or plan["churn"])]
    where = rng.choice(ok or ["any"])
    top = {"line": 400, "act": 25, "any": 40, "pert": 20, "topo": 6, "input": 6, "pack": 8, "unpack": 8}[where]
    return {"where": where, "at": rng.randrange(top) if rng.random() < 0.8 else rng.randrange(3), "exc": rng.randrange(len(BOOMS))}


def run_with_fault(run, fault, sim):
    """Runs `run` under the fault. Returns True if the fault fired (and was reported properly), False if it did not."""
    n_before = None
    try:
        with fault:
            run.run()
    except (Violation, Invalid, NoProgress):
        raise
    except BaseException as e:
        if not fault.fired:
            if isinstance(e, (KeyboardInterrupt, SystemExit)) and not isinstance(e, (BoomInterrupt, BoomExit)):
                raise
            raise Violation("crash", "unexpected %s: %s" % (type(e).__name__, e))
        if e is not fault.exc:
            raise Violation("error-replaced", "the injected %s was replaced by %s: %s"
                            % (type(fault.exc).__name__, type(e).__name__, e))
        if fault.after:
            raise Violation("continued-after-failure", "%d callbacks were invoked after the failure" % fault.after)
        return True
    if fault.fired:
        raise Violation("error-swallowed", "the injected %s (%s) was swallowed and a trajectory of %s states returned"
                        % (type(fault.exc).__name__, fault.where, len(run.trajectory)))
    return False


def count_net_faults(ref, sim):
    """Counts the topology faults that happened in a reference history."""
    prev = ref.states[0][1]
    for S, A in ref.states[1:]:
        lost = set(prev.nodes) - set(A.nodes)
        new = set(A.nodes) - set(prev.nodes)
        if lost:
            sim.faults["node_loss"] += len(lost)
        if new:
            sim.faults["node_join"] += len(new)
        pe = {(i, j) for i, j, _ in prev.edges()}
        ae = {(i, j) for i, j, _ in A.edges()}
        gone = sum(1 for i, j in pe - ae if i in A.attrs and j in A.attrs)
        if gone:
            sim.faults["link_failure"] += gone
        if ae - pe:
            sim.faults["link_up"] += len(ae - pe)
        prev = A
