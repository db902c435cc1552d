"""The reference model of a network: a directed multigraph in plain dicts, written from the documentation."""
import copy


def nkey(x):
    return (type(x).__name__, repr(x))


class RefNet:
    def __init__(self):
        self.attrs = {}   # label -> attributes
        self.inc = {}     # label -> {source -> [edge attributes, in order of insertion]}
        self.rotation = None

    def add_node(self, label, **attr):
        if label not in self.attrs:
            self.attrs[label] = {}
            self.inc[label] = {}
        self.attrs[label].update(attr)

    def add_edge(self, i, j, **attr):
        self.add_node(i)
        self.add_node(j)
        self.inc[j].setdefault(i, []).append(dict(attr))

    def add_edge_bidir(self, i, j, **attr):
        self.add_edge(i, j, **attr)
        self.add_edge(j, i, **attr)

    def has_edge(self, i, j):
        return j in self.inc and i in self.inc[j]

    def update_edge(self, i, j, indices=None, **attr):
        for k, e in enumerate(self.inc[j][i]):
            if indices is None or k in indices:
                e.update(attr)

    def remove_edge(self, i, j):
        del self.inc[j][i]

    def remove_node(self, label):
        del self.attrs[label]
        del self.inc[label]
        for j in self.inc:
            self.inc[j].pop(label, None)

    @property
    def nodes(self):
        return list(self.attrs)

    def edges(self):
        return [(i, j, e) for j in self.inc for i in self.inc[j] for e in self.inc[j][i]]

    def out_degree(self, label):
        return sum(len(self.inc[j].get(label, ())) for j in self.inc)

    def in_degree(self, label):
        return sum(len(v) for v in self.inc[label].values())

    def copy(self, keep_rotation=False):
        n = RefNet()
        # edge by edge: values shared between the original's edges are not shared in a copy
        n.attrs = {k: copy.deepcopy(a) for k, a in self.attrs.items()}
        n.inc = {j: {i: [copy.deepcopy(e) for e in es] for i, es in v.items()} for j, v in self.inc.items()}
        if keep_rotation:
            n.rotation = self.rotation
        return n

    def view(self):
        return net_view(self.nodes, self.inc)


def edge_view(incoming):
    """Canonical form of {source: [attrs]}: order of sources is irrelevant, order of parallel edges is not."""
    return sorted(((i, [sorted(e.items(), key=lambda kv: nkey(kv[0])) for e in es]) for i, es in incoming.items()),
                  key=lambda x: nkey(x[0]))


def net_view(nodes, inc):
    return [(n, edge_view(inc[n])) for n in sorted(nodes, key=nkey)]


def real_view(net):
    """Canonical form of a netomaton Network, through its public accessors only."""
    return [(n, edge_view(net.in_edges(n))) for n in sorted(net.nodes, key=nkey)]


def build_real(ntm, ref):
    """Builds a netomaton Network like the reference one."""
    n = ntm.Network()
    for label in ref.nodes:
        n.add_node(label, **copy.deepcopy(ref.attrs[label]))
    for i, j, e in ref.edges():
        n.add_edge(i, j, **copy.deepcopy(e))
    if ref.rotation is not None:
        n.rotation_system = {k: list(v) for k, v in ref.rotation.items()}
    return n
