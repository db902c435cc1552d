"""Scenarios whose results must be a function of their parameters and the seeds alone. Each takes (netomaton, rng), where
rng only draws parameters, and returns plain data with order preserved."""
import hashlib
import random

import numpy as np

from . import engine as en


def net_data(net):
    return [list(net.nodes), [(i, j, sorted(e.items())) for i, j, e in net.edges],
            None if net.rotation_system is None else [(k, list(v)) for k, v in net.rotation_system.items()]]


def traj_data(traj):
    return [([(k, en.canon(v)) for k, v in (s.activities or {}).items()], None if s.network is None else net_data(s.network))
            for s in traj]


def init_random(ntm, rng):
    size = rng.randrange(1, 30)
    return ntm.init_random(size, k=rng.randrange(2, 6), n_randomized=rng.choice([None, rng.randrange(size + 1)]),
                           dtype=rng.choice([np.int32, np.float64]))


def rule_table(ntm, rng):
    k, r = rng.choice([(2, 1), (2, 2), (3, 1), (4, 1)])
    return ntm.random_rule_table(k, r, lambda_val=rng.choice([None, 0.1, 0.5, 0.9]), quiescent_state=rng.choice([None, 0, 1]),
                                 strong_quiescence=rng.random() < 0.5, isotropic=rng.random() < 0.5)


def table_walk(ntm, rng):
    k, r = rng.choice([(2, 1), (3, 1), (4, 1)])
    sq, iso = rng.random() < 0.5, rng.random() < 0.5
    table, lam, q = ntm.random_rule_table(k, r, lambda_val=rng.random(), strong_quiescence=sq, isotropic=iso)
    return ntm.table_walk_through(table, rng.random(), k, r, q, sq, iso)


def asynchronous(ntm, rng):
    n = rng.randrange(3, 9)
    order = rng.sample(range(n), rng.randrange(1, n + 1)) if rng.random() < 0.3 else None
    rule = ntm.AsynchronousRule(activity_rule=ntm.rules.nks_ca_rule(rng.randrange(256)), update_order=order,
                                n=None if order else n, randomize_each_cycle=rng.random() < 0.6)
    return traj_data(ntm.evolve(ntm.topology.cellular_automaton(n), initial_conditions=[rng.randrange(2) for _ in range(n)],
                                activity_rule=rule, timesteps=3 * n))


def majority(ntm, rng):
    n = rng.randrange(4, 9)
    net = ntm.Network()
    labels = ["n%d" % i for i in range(n)] if rng.random() < 0.5 else list(range(n))
    for _ in range(3 * n):
        net.add_edge(rng.choice(labels), rng.choice(labels))
    for l in labels:
        net.add_edge(l, l)
    return traj_data(ntm.evolve(net, initial_conditions={l: rng.choice(["a", "b", "c"]) for l in labels},
                                activity_rule=ntm.rules.majority_rule, timesteps=5))


def hopfield(ntm, rng):
    n = rng.randrange(3, 9)
    h = ntm.HopfieldNet(n=n)
    h.train([[rng.choice([-1, 1]) for _ in range(n)] for _ in range(rng.randrange(1, 4))])
    return [en.canon(h.adjacency_matrix), net_data(h.network),
            traj_data(ntm.evolve(h.network, initial_conditions=[rng.choice([-1, 1]) for _ in range(n)],
                                 activity_rule=h.activity_rule, timesteps=4 * n))]


def fungal(ntm, rng, seed=None):
    w, h = rng.randrange(3, 5), rng.randrange(3, 5)
    init = [rng.choice([0, 0, 1, 2]) for _ in range(w * h)]
    init[rng.randrange(w * h)] = 1
    m = ntm.FungalGrowthModel(rng.choice([0, 0.5, 80000]), w, h, init, seed=seed, verbose=False)
    return traj_data(ntm.evolve(m.network, initial_conditions=init, activity_rule=m.activity_rule, topology_rule=m.topology_rule,
                                update_order=m.update_order, copy_network=m.copy_network, timesteps=rng.randrange(3, 7)))


def fungal_seeded(ntm, rng):
    return fungal(ntm, rng, rng.choice([0, 0, 1, 12345]))


def watts_strogatz(ntm, rng):
    n = rng.randrange(5, 20)
    return net_data(ntm.topology.watts_strogatz_graph(n, rng.choice([2, 4]), rng.random(), seed=None))


def watts_strogatz_seeded(ntm, rng):
    n = rng.randrange(5, 20)
    return net_data(ntm.topology.watts_strogatz_graph(n, rng.choice([2, 4]), rng.random(), seed=rng.choice([0, 0, 7, 99])))


def small_world_evolution(ntm, rng):
    n = rng.randrange(6, 12)
    net = ntm.topology.watts_strogatz_graph(n, 4, 0.5, seed=None)
    return traj_data(ntm.evolve(net, initial_conditions=ntm.init_random(n), activity_rule=ntm.rules.majority_rule, timesteps=5))


def text(rng, n):
    alphabet = rng.choice(["01", "abc", "αβγδε", "0123456789", "abcdefghijklmnopqrstuvwxyz"])
    return "".join(rng.choice(alphabet) for _ in range(n))


def entropies(ntm, rng):
    n = rng.randrange(1, 60)
    x, y = text(rng, n), text(rng, n)
    rows = [[rng.choice(["a", "b", "c", "d"]) for _ in range(5)] for _ in range(9)]
    return [repr(float(v)) for v in (ntm.shannon_entropy(x), ntm.joint_shannon_entropy(x, y), ntm.mutual_information(x, y),
                                     ntm.average_node_entropy(rows), ntm.average_mutual_information(rows))]


def builders(ntm, rng):
    t = ntm.topology
    k = rng.randrange(9)
    if k == 0:
        return net_data(t.cellular_automaton(rng.randrange(3, 12), r=rng.choice([1, 1, 2])))
    if k == 1:
        return net_data(t.cellular_automaton2d(rng.randrange(3, 5), rng.randrange(3, 5),
                                               neighbourhood=rng.choice(["Moore", "von Neumann", "Hex"])))
    if k == 2:
        return net_data(t.lattice((1, rng.randrange(2, 5), rng.randrange(2, 5)), periodic=rng.random() < 0.5))
    if k == 3:
        return net_data(t.complete(rng.randrange(2, 9)))
    if k == 4:
        return net_data(t.bipartite(["a", "b", "c"], ["x", "y"]))
    if k == 5:
        return net_data(t.disconnected(["p", "q", "r"]))
    if k == 6:
        return net_data(t.from_adjacency_matrix([[rng.randrange(2) for _ in range(5)] for _ in range(5)]))
    import networkx as nx
    if k == 7:
        return net_data(ntm.Network.from_networkx(nx.gnm_random_graph(8, 12, seed=rng.randrange(99))))
    G = nx.MultiDiGraph()
    for _ in range(12):
        G.add_edge(rng.choice("abcdef"), rng.choice("abcdef"), weight=rng.randrange(5))
    net = ntm.Network.from_networkx(G)
    H = net.to_networkx()
    return [net_data(net), list(H.nodes), list(H.edges(data=True)), net.to_adjacency_matrix()]


def engine(ntm, rng):
    p = en.gen_plan(rng)
    run = en.RealRun(p, None)
    return [traj_data(run.run()), [c[0] for c in run.prog.calls]]


def memoized(ntm, rng):
    p = en.gen_plan(rng, memo=True, act=True, churn=False, uses=["anon"], enc=rng.choice(["str", "int", "float"]))
    if p["topo"] and p["topo"]["rotation"] and not p["net"]["rotation"]:
        p["topo"]["rotation"] = False
    return traj_data(en.RealRun(p, None).run())


def substitution(ntm, rng):
    s = ntm.SubstitutionSystem("ABA", {"AA": "B", "AB": "BA", "BA": "AB", "BB": "A"})
    t = ntm.evolve(s.network, initial_conditions=s.initial_conditions, activity_rule=s.activity_rule, timesteps=rng.randrange(2, 6))
    return [traj_data(t), s.to_string(t)]


def wolfram(ntm, rng):
    config = [(rng.randrange(1, 5), rng.randrange(1, 5)) for _ in range(rng.randrange(1, 5))]
    rules = rng.choice([{"in": [("x", "y"), ("x", "z")], "out": [("x", "z"), ("x", "w"), ("y", "w"), ("z", "w")]},
                        {"in": [("x", "y")], "out": [("x", "y"), ("y", "z")]},
                        {"in": [("x", "y"), ("y", "z")], "out": [("w", "y"), ("y", "z"), ("z", "w"), ("x", "w")]}])
    m = ntm.WolframPhysicsModel(config, rules)
    t = ntm.evolve(m.network, topology_rule=m.topology_rule, timesteps=rng.randrange(2, 5))
    return [m.to_configurations(t), traj_data(t)]


def turing(ntm, rng):
    table = {s: {c: [rng.choice("pq"), rng.choice([0, 1]), rng.choice([0, 1, 2])] for c in (0, 1)} for s in "pq"}
    tape = [rng.randrange(2) for _ in range(5)]
    m = ntm.TapeCentricTuringMachine(5, table, "p", 2)
    a = ntm.evolve(m.network, initial_conditions=tape, activity_rule=m.activity_rule, timesteps=8)
    h = ntm.HeadCentricTuringMachine(tape, table, "p", 2, max_timesteps=8)
    b = ntm.evolve(h.network, initial_conditions=h.initial_conditions, activity_rule=h.activity_rule, input=h.input_function)
    return [traj_data(a), m.head_activities(a), traj_data(b), h.activities_for_plotting(b)]


def sandpile(ntm, rng):
    s = ntm.Sandpile(3, 4, is_closed_boundary=rng.random() < 0.5)
    return traj_data(ntm.evolve(s.network, initial_conditions=[rng.randrange(7) for _ in range(12)], activity_rule=s.activity_rule,
                                timesteps=6))


def cellular(ntm, rng):
    n = rng.randrange(3, 9)
    k = rng.choice([2, 3])
    rule = rng.choice([ntm.rules.nks_ca_rule(rng.randrange(256)), ntm.rules.binary_ca_rule(rng.randrange(256))]) if k == 2 \
        else ntm.rules.totalistic_ca(3, rng.randrange(2187))
    return traj_data(ntm.evolve(ntm.topology.cellular_automaton(n), initial_conditions=ntm.init_random(n, k=k), activity_rule=rule,
                                timesteps=6, memoize=rng.random() < 0.5))


def ctrbl(ntm, rng):
    table = {}
    for a in range(2):
        for b in range(2):
            for c in range(2):
                for d in range(2):
                    for e in range(2):
                        table[(a, b, c, d, e)] = (a + b + c + d + e) % 2
    rule = ntm.CTRBLRule((3, 3), table, add_rotations=rng.random() < 0.3)
    net = rule.network
    return traj_data(ntm.evolve(net, initial_conditions=ntm.init_random(9), activity_rule=rule.activity_rule, timesteps=4))


def tsp(ntm, rng):
    h = ntm.HopfieldTankTSPNet([(rng.random(), rng.random()) for _ in range(3)], dt=1e-5)
    net = ntm.topology.from_adjacency_matrix(h.adjacency_matrix)
    return traj_data(ntm.evolve(net, initial_conditions=[-0.022 + np.random.uniform(-0.002, 0.002) for _ in range(9)],
                                activity_rule=h.activity_rule, timesteps=4))


def async_pair(ntm, rng):
    """Two wrappers made and used alternately."""
    n = 5
    net = ntm.topology.cellular_automaton(n)
    rules = [ntm.AsynchronousRule(activity_rule=ntm.rules.nks_ca_rule(30 + i), n=n, randomize_each_cycle=bool(i)) for i in range(2)]
    out, init = [], [0, 1, 0, 1, 1]
    for k in range(4):
        t = ntm.evolve(net, initial_conditions=init, activity_rule=rules[k % 2], timesteps=6)
        init = [t[-1].activities[i] for i in range(n)]
        out.append(traj_data(t))
    return out


SCENARIOS = {f.__name__: f for f in (
    init_random, rule_table, table_walk, asynchronous, majority, hopfield, fungal, fungal_seeded, watts_strogatz,
    watts_strogatz_seeded, small_world_evolution, entropies, builders, engine, memoized, substitution, wolfram, turing, sandpile,
    cellular, ctrbl, tsp, async_pair)}
OWN_SEED = {"fungal_seeded", "watts_strogatz_seeded"}
NAMES = sorted(SCENARIOS)


def run(ntm, name, params, seed, keep_globals=False):
    """Digest of the scenario's result. With keep_globals the global generators are left as they happen to be."""
    if not keep_globals:
        random.seed(seed)
        np.random.seed(seed % (1 << 32))
    value = SCENARIOS[name](ntm, random.Random(params))
    return hashlib.sha256(repr(en.canon(value)).encode()).hexdigest()[:20]


def main():
    """python -m sim.scenarios: reads [[name, params, seed, keep], ...] from stdin, prints the digests."""
    import json
    import sys
    from . import boot
    ntm = boot.load()
    out = []
    for name, params, seed, keep in json.load(sys.stdin):
        try:
            out.append(run(ntm, name, params, seed, keep))
        except Exception as e:
            out.append("error %s: %s" % (type(e).__name__, str(e)[:200]))
    print(json.dumps(out))


if __name__ == "__main__":
    import os
    import sys
    main()
    sys.stdout.flush()
    os._exit(0)
