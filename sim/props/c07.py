import copy

from ..core import Violation
from ..world import World
from .. import engine as en, boot
from ..refnet import real_view


class C07(World):
    quick_runs = 5000
    thorough_runs = 200000
    rule = ("The same generated automaton (churn, topology changes, networks and activities that become empty, ...) is evolved under "
            "three of the eight combinations of recording options; callbacks and recorded states are compared with the reference, "
            "and recorded states are read, vandalized and read again. Non-trivial: at least one step; distinct by plan.")
    state_measure = "distinct (activities, network) pairs reached, CRC-32 of their canonical form"
    real = ["netomaton.evolve and everything below it", "msgpack"]
    stub = ["user callbacks (generated programs)"]
    assumptions = ["labels, activities and attributes are serializable (and not tuples)"]

    def generate(self, rng, tier):
        force = {}
        if rng.random() < 0.2:
            force = {"act": False, "topo": True}
        p = en.gen_plan(rng, **force)
        if p["topo"] and not p["act"] and rng.random() < 0.7:
            p["topo"]["lose_nodes"] = True
            p["topo"]["rate"] = 1.0
        combos = rng.sample(range(8), 3)
        if not any(c & 1 for c in combos):
            combos[0] |= 1
        return {"p": p, "combos": combos, "spoil": rng.randrange(1 << 20)}

    def execute(self, plan, sim):
        sim.budget = 60000
        p = plan["p"]
        ref = en.RefRun(p)
        data = {}
        for c in plan["combos"]:
            opt = {"compression": bool(c & 1), "persist_activities": bool(c & 2), "persist_network": bool(c & 4)}
            run = en.RealRun(p, sim, options=opt)
            traj = en.guarded("crash", run.run)
            what = "with %s" % ", ".join(k for k in opt if opt[k]) if c else "with nothing recorded"
            en.compare_calls(run.prog, ref.prog, what=what)
            en.compare_trajectory(traj, ref, p, sim, options=opt, what=what)
            for t, st in enumerate(traj):
                net = st.network
                if net is not None:
                    nodes = sorted(((n, sorted((k, en.canon(v)) for k, v in d.items()))
                                    for n, d in net.to_networkx().nodes(data=True)), key=lambda x: en.nkey(x[0]))
                    if data.setdefault(t, nodes) != nodes:
                        raise Violation("node-data", "%s t=%d: node data is %s, and %s under other options"
                                        % (what, t, nodes, data[t]))
                if t and not ref.states[t][0] and opt["persist_activities"]:
                    sim.probe("empty_activities_recorded")
                if t and not ref.states[t][1].nodes and opt["persist_network"]:
                    sim.probe("empty_network_recorded")
            if opt["compression"]:
                en.guarded("vandal", self.vandalize, traj, plan["spoil"], sim)
                en.compare_trajectory(traj, ref, p, sim, options=opt, what=what + ", after accessed copies were changed")
            self.container(ref, opt["compression"], sim)
        en.count_net_faults(ref, sim)

    def vandalize(self, traj, seed, sim):
        for t, st in enumerate(traj):
            acts, net = st.activities, st.network
            if acts is not None:
                for k in list(acts):
                    if isinstance(acts[k], list):
                        acts[k].append("spoiled")
                    elif isinstance(acts[k], dict):
                        acts[k]["spoiled"] = 1
                acts["spoiled"] = seed
            if net is not None:
                for i, j, e in list(net.edges):
                    for v in e.values():
                        if isinstance(v, list):
                            v.append("spoiled")
                        elif isinstance(v, dict):
                            v["spoiled"] = 1
                    e["spoiled"] = seed
                nodes = list(net.nodes)
                if nodes:
                    net.add_node(nodes[0], spoiled=1)
                    net.remove_node(nodes[seed % len(nodes)])
                net.add_edge("spoiled", "spoiled")
            sim.fault("accessed_copy_changed")

    def container(self, ref, compression, sim):
        """The State container by itself."""
        State = boot.load().State if hasattr(boot.load(), "State") else None
        if State is None:
            from netomaton.state import State
        S, A = ref.states[-1]
        net = en.build_real(boot.load(), A)
        acts = copy.deepcopy(S)
        st = State(compression=compression)
        if st.activities is not None or st.network is not None:
            raise Violation("container", "a new state reports something that was not recorded")
        st.activities, st.network = acts, net
        if st.activities is None or st.network is None or en.acts_view(st.activities) != en.acts_view(S) \
                or real_view(st.network) != A.view():
            raise Violation("container", "a state reports other activities or another network than it was given")


WORLD = C07()
