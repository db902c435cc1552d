import copy
import math

import networkx as nx

from ..core import Invalid, Violation
from ..world import World
from .. import engine as en, boot
from ..refnet import RefNet, edge_view, nkey, real_view

NODE_ATTRS = [{}, {}, {"kind": "x"}, {"tags": [1, 2]}, {"activity": 3}, {"kind": None, "w": 0.5}]


EDGE_ATTRS = en.ATTRS + [{"weight": 0, "label": "x"}, {"key": "x", "strength": 2.5}, {"key": "x"}, {"label": "", "weight": 7, "strength": 0},
                         {"weight": 0.1 + 0.2, "strength": -1e-9}]


def attr_of(n):
    return copy.deepcopy(EDGE_ATTRS[n % len(EDGE_ATTRS)])


def gen_ops(rng, n, kinds, extra=()):
    ops = []
    m = rng.randrange(2, 7)
    if rng.random() < 0.05:
        m = 16
    L = lambda: rng.randrange(m)
    for _ in range(n):
        k = rng.choice(kinds)
        if k == "node":
            ops.append(["node", L(), rng.randrange(len(NODE_ATTRS))])
        elif k in ("edge", "bidir"):
            i = L()
            ops.append([k, i, i if rng.random() < 0.2 else L(), rng.randrange(len(EDGE_ATTRS))])
        elif k == "update":
            ops.append(["update", L(), L(), rng.choice([None, None, [0], [1], [0, 1], [1, 0], [0, 9], [9]]), rng.randrange(2, len(EDGE_ATTRS))])
        elif k in ("rmnode", "rmedge", "del"):
            ops.append([k, L(), L()])
        elif k == "rotation":
            ops.append(["rotation", rng.choice(["valid", "valid", "unknown_node", "unknown_neighbour"]), rng.randrange(1 << 16)])
        else:
            ops.append([k, L(), rng.randrange(1 << 16)])
    return ops


def apply_op(op, net, ref, lab, sim):
    """Applies one operation to both; checks that it is accepted exactly when the reference accepts it."""
    k = op[0]
    i = lab(op[1]) if isinstance(op[1], int) else None
    expect = True
    if k == "node":
        attr = copy.deepcopy(NODE_ATTRS[op[2] % len(NODE_ATTRS)])
        real = lambda: net.add_node(i, **copy.deepcopy(attr))
        model = lambda: ref.add_node(i, **attr)
    elif k in ("edge", "bidir"):
        j = lab(op[2])
        a = attr_of(op[3])
        f = "add_edge" if k == "edge" else "add_edge_bidir"
        real = lambda: getattr(net, f)(i, j, **copy.deepcopy(a))

        def model():
            ref.add_edge(i, j, **copy.deepcopy(a))
            if k == "bidir":
                ref.add_edge(j, i, **copy.deepcopy(a))
    elif k == "update":
        j = lab(op[2])
        a = attr_of(op[4])
        expect = ref.has_edge(i, j)
        idx = op[3]
        if expect and idx is not None:
            expect = all(x < len(ref.inc[j][i]) for x in idx)
        real = lambda: net.update_edge(i, j, idx, **a) if idx is not None else net.update_edge(i, j, **a)
        model = lambda: ref.update_edge(i, j, idx, **a)
    elif k in ("rmnode", "del"):
        expect = i in ref.attrs
        real = (lambda: net.remove_node(i)) if k == "rmnode" else (lambda: net.__delitem__(i))
        model = lambda: ref.remove_node(i)
    elif k == "rmedge":
        j = lab(op[2])
        expect = ref.has_edge(i, j)
        real = lambda: net.remove_edge(i, j)
        model = lambda: ref.remove_edge(i, j)
    elif k == "rotation":
        rot = {n: list(v) for n, v in en.make_rotation(ref, op[2]).items()}
        expect = op[1] == "valid"
        if op[1] == "unknown_node":
            rot["no such node"] = []
        elif op[1] == "unknown_neighbour":
            if not rot:
                return None
            rot[sorted(rot, key=nkey)[op[2] % len(rot)]].append("no such node")

        def real():
            net.rotation_system = rot

        def model():
            ref.rotation = rot
    else:
        raise Invalid("operation")
    try:
        real()
    except Exception as e:
        if expect:
            raise Violation("rejected", "%s was rejected: %s: %s" % (op, type(e).__name__, e))
        sim.fault("rejected_" + k)
        return False
    if not expect:
        raise Violation("accepted", "%s was accepted although it names something that is not there" % (op,))
    model()
    return True


def node_data(net):
    return sorted(((n, sorted((k, en.canon(v)) for k, v in d.items())) for n, d in net.to_networkx().nodes(data=True)),
                  key=lambda x: nkey(x[0]))


def ref_node_data(ref):
    return sorted(((n, sorted((k, en.canon(v)) for k, v in d.items())) for n, d in ref.attrs.items()), key=lambda x: nkey(x[0]))


def expect(cls, got, want, what):
    if got != want:
        raise Violation(cls, "%s: got %s, expected %s" % (what, en.short(got), en.short(want)))


def check_all(net, ref, labels, what, ntm, thorough=True):
    nodes = ref.nodes
    expect("nodes", sorted(net.nodes, key=nkey), sorted(nodes, key=nkey), what + ": nodes")
    expect("nodes", len(net), len(nodes), what + ": len")
    expect("edges", real_view(net), ref.view(), what + ": incoming edges")
    canon_edges = lambda es: sorted([(nkey(i), nkey(j), sorted((k, en.canon(v)) for k, v in e.items())) for i, j, e in es], key=repr)
    expect("edges", canon_edges(net.edges), canon_edges(ref.edges()), what + ": edge listing")
    for n in nodes:
        expect("degree", (net.in_degree(n), net.out_degree(n), net.degree(n)),
               (ref.in_degree(n), ref.out_degree(n), ref.in_degree(n) + ref.out_degree(n)), "%s: degrees of %r" % (what, n))
    for i in labels:
        for j in labels:
            expect("membership", bool(net.has_edge(i, j)), ref.has_edge(i, j), "%s: has_edge(%r, %r)" % (what, i, j))
            if ref.has_edge(i, j):
                expect("edge-data", en.canon(net.edge(i, j)), en.canon(ref.inc[j][i]), "%s: edge(%r, %r)" % (what, i, j))
    if not thorough:
        return
    expect("node-data", node_data(net), ref_node_data(ref), what + ": node data")
    G = net.to_networkx()
    expect("networkx", sorted(G.nodes, key=nkey), sorted(nodes, key=nkey), what + ": NetworkX nodes")
    expect("networkx", canon_edges(G.edges(data=True)), canon_edges(ref.edges()), what + ": NetworkX edges")
    back = ntm.Network.from_networkx(G)
    expect("networkx", real_view(back), ref.view(), what + ": there and back through NetworkX")
    expect("node-data", node_data(back), ref_node_data(ref), what + ": node data there and back through NetworkX")
    if not isinstance(G, nx.MultiDiGraph):
        raise Violation("networkx", "%s: not a MultiDiGraph" % what)
    order = list(net.nodes)
    for nodelist in (None, sorted(order, key=nkey)):
        idx = {n: k for k, n in enumerate(nodelist or order)}
        M = net.to_adjacency_matrix(nodelist=nodelist)
        P = net.to_adjacency_matrix(nodelist=nodelist, sum_multiedges=False)
        for i in nodes:
            for j in nodes:
                ws = [e.get("weight", 1) for e in ref.inc[j].get(i, [])]
                if not math.isclose(M[idx[i]][idx[j]], sum(ws), rel_tol=1e-9, abs_tol=1e-12):
                    raise Violation("adjacency", "%s: adjacency matrix at (%r, %r): got %r, expected %r"
                                    % (what, i, j, M[idx[i]][idx[j]], sum(ws)))
                if P[idx[i]][idx[j]] not in (ws or [0]):
                    raise Violation("adjacency", "%s: adjacency matrix without multi-edges at (%r, %r) is %r, edges weigh %s"
                                    % (what, i, j, P[idx[i]][idx[j]], ws))
    idx = {n: k for k, n in enumerate(order)}
    for weight in (None, "strength"):
        M = net.to_adjacency_matrix(weight=weight)
        for i in nodes:
            for j in nodes:
                ws = [e.get("strength", 1) if weight else 1 for e in ref.inc[j].get(i, [])]
                if not math.isclose(M[idx[i]][idx[j]], sum(ws), rel_tol=1e-9, abs_tol=1e-12):
                    raise Violation("adjacency", "%s: adjacency matrix by %r at (%r, %r): got %r, expected %r"
                                    % (what, weight, i, j, M[idx[i]][idx[j]], sum(ws)))
    # graphs from elsewhere: directed or not, with parallel edges or not
    for cls in (nx.MultiDiGraph, nx.DiGraph, nx.Graph, nx.MultiGraph):
        G = cls()
        for n in reversed(nodes):
            G.add_node(n, **copy.deepcopy(ref.attrs[n]))
        for i, j, e in ref.edges():
            G.add_edges_from([(i, j, copy.deepcopy(e))])
        back = ntm.Network.from_networkx(G)
        expect("networkx", sorted(back.nodes, key=nkey), sorted(nodes, key=nkey), "%s: nodes from a %s" % (what, cls.__name__))
        got, want = canon_edges(back.edges), canon_edges(G.edges(data=True))
        if not G.is_directed():
            # an undirected edge is a connection in one direction at least
            either = lambda es: sorted({repr((sorted([i, j]), e)) for i, j, e in es})
            got, want = either(got), either(want)
        expect("networkx", got, want, "%s: edges from a %s" % (what, cls.__name__))
        expect("node-data", node_data(back), ref_node_data(ref), "%s: node data from a %s" % (what, cls.__name__))


class C14(World):
    quick_runs = 7000
    thorough_runs = 150000
    rule = ("Random sequences of up to 40 operations on one network (including ones that have to be rejected), every accessor "
            "compared with the reference graph after each operation. Non-trivial: at least one operation; distinct by plan.")
    state_measure = "distinct graphs reached, CRC-32 of their canonical form"
    time_unit = "operations"
    real = ["netomaton.Network", "networkx", "numpy"]
    assumptions = ["attribute names other than in, out, incoming and outgoing (known finding K3)"]

    def generate(self, rng, tier):
        return {"labels": rng.choice(en.LABELS), "n0": rng.choice([0, 0, 2]),
                "ops": gen_ops(rng, rng.choice([3, 8, 15, 25, 40]),
                               ["node", "edge", "edge", "edge", "bidir", "update", "rmnode", "rmedge", "del", "rotation"])}

    def execute(self, plan, sim):
        ntm = boot.load()
        lab = lambda i: en.label(plan["labels"], i)
        net, ref = ntm.Network(plan["n0"]), RefNet()
        for i in range(plan["n0"]):
            ref.add_node(i)
        labels = [lab(i) for i in range(max([7] + [1 + x for op in plan["ops"] for x in op[1:3] if isinstance(x, int) and x < 16]))]
        for k, op in enumerate(plan["ops"]):
            if op[0] == "raw":           # a node attribute with any name (known finding)
                net.add_node(lab(op[1]), **{op[2]: op[3]})
                ref.add_node(lab(op[1]), **{op[2]: op[3]})
            else:
                apply_op(op, net, ref, lab, sim)
            en.guarded("accessor", check_all, net, ref, labels, "after operation %d %s" % (k, op), ntm,
                       k % 4 == 3 or k == len(plan["ops"]) - 1)
            if net.rotation_system is not ref.rotation and net.rotation_system != ref.rotation:
                raise Violation("rotation", "after operation %d %s the rotation system is %s, expected %s"
                                % (k, op, net.rotation_system, ref.rotation))
            sim.state(ref.view())
            sim.stats["ops"] += 1
            sim.log(k, op[0], ref.view())


WORLD = C14()
