"""Writes known-findings.json. Run by hand when a finding is added; no check writes that file."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
net = lambda n, edges=(): {"n": n, "labels": "int", "edges": [list(e) for e in edges], "order": list(range(n)), "rotation": 0}
KNOWN = [
    {"id": "K1", "property": "C16", "class": "cycle",
     "what": "AsynchronousRule(update_order=[0, 1], randomize_each_cycle=True) reshuffles after every single update instead of after a complete "
             "cycle of the order, so one cycle can update the same node twice and skip another (netomaton/asynchronous_rule.py, "
             "_check_for_end_of_cycle)",
     "plan": {"net": net(2), "wrappers": [{"order": [0, 1], "randomize": True, "seed": 1, "init": [0, 0]}], "segments": [[0, 8, True]],
              "shuffle": ["reverse", 0], "visits": 0, "cycles": True}},
    {"id": "K2", "property": "C15", "class": "rotation-lost",
     "what": "Network.copy() and Network.compress()/decompress() lose the rotation system of a network that has one (netomaton/state.py)",
     "plan": None},
    {"id": "K3", "property": "C14", "class": "degree",
     "what": "Network.add_node(label, out=3): a node attribute named in, out, incoming or outgoing overwrites the network's own bookkeeping, "
             "so degrees and edges become wrong (netomaton/state.py, add_node)",
     "plan": None},
    {"id": "K4", "property": "C28", "class": "not-refused",
     "what": "topology.cellular_automaton(5, periodic=False): rings and grids without glued edges aren't supported, but asking for one isn't "
             "refused: the periodic one is returned (netomaton/topology/networks.py, cellular_automaton and cellular_automaton2d)",
     "plan": {"ops": [{"kind": "periodic", "seed": 1, "T": 2, "at": 1, "first": False, "n": 1, "pick": 1, "form": "list", "options": {}}]}},
]
FIXED = [l.strip() for l in open(os.path.join(V, "tools", "fixed.txt")) if l.strip()]


def main():
    plans = json.load(open(os.path.join(V, "tools", "finding_plans.json")))
    for k in KNOWN:
        if k["plan"] is None:
            k["plan"] = plans[k["id"]]
    with open(os.path.join(V, "known-findings.json"), "w") as f:
        json.dump({"known": KNOWN, "fixed": FIXED}, f, indent=1)
        f.write("\n")


main()
