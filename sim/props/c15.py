import random

from ..core import Invalid, Violation
from ..world import World
from .. import engine as en, boot, seams
from ..refnet import RefNet, nkey, real_view
from .c14 import apply_op, check_all, gen_ops, node_data, ref_node_data


class C15(World):
    quick_runs = 6000
    thorough_runs = 150000
    rule = ("A growing set of networks, copies, compressed records and decompressed snapshots; random operations (also deep changes inside "
            "attributes) on any of them; allocation failures in copying, compressing and decompressing; records cut at every "
            "kind of position or extended. All networks and records are compared with their references after each operation. "
            "Non-trivial: at least one operation; distinct by plan.")
    state_measure = "distinct graphs reached, CRC-32 of their canonical form"
    time_unit = "operations"
    real = ["netomaton.Network", "msgpack"]
    stub = ["allocation failures are raised by a wrapper around msgpack"]
    assumptions = ["labels are integers or strings; attribute values are msgpack-serializable and contain no tuples",
                   "networks with a rotation system: known finding K2"]

    def generate(self, rng, tier):
        kinds = ["node", "edge", "edge", "rmnode", "rmedge", "update", "deep", "deep", "copy", "compress", "decompress", "decompress",
                 "state", "cut", "extend", "oom"]
        return {"labels": rng.choice(en.LABELS), "rotation": False,
                "ops": gen_ops(rng, 5, ["node", "edge", "edge"]) + gen_ops(rng, rng.choice([4, 10, 20, 30]), kinds)}

    def execute(self, plan, sim):
        ntm = boot.load()
        from netomaton.state import State
        lab = lambda i: en.label(plan["labels"], i)
        live = [(ntm.Network(), RefNet())]
        labels = [lab(i) for i in range(max([7] + [1 + x for op in plan["ops"] for x in op[1:3] if isinstance(x, int) and x < 16]))]
        records = []      # (bytes, reference at that moment)
        for k, op in enumerate(plan["ops"]):
            rng = random.Random(op[2] if len(op) > 2 and isinstance(op[2], int) else 0)
            rng = random.Random(repr((k, op)))
            net, ref = live[rng.randrange(len(live))]
            what = "after operation %d %s" % (k, op)
            kind = op[0]
            if plan["rotation"] and k == len(plan["ops"]) - 1:
                net.rotation_system = {n: list(v) for n, v in en.make_rotation(ref, 1).items()}
                if net.copy().rotation_system != net.rotation_system:
                    raise Violation("rotation-lost", "a copy of a network with a rotation system has the rotation system %s"
                                    % net.copy().rotation_system)
            if kind in ("node", "edge", "rmnode", "rmedge", "update"):
                apply_op(op, net, ref, lab, sim)
            elif kind == "deep":
                self.deep(net, ref, rng, sim)
            elif kind == "copy":
                live.append((en.guarded("copy", net.copy), ref.copy()))
            elif kind == "compress":
                records.append((en.guarded("copy", net.compress), ref.copy()))
            elif kind == "decompress" and records:
                packed, snap = rng.choice(records)
                live.append((en.guarded("copy", ntm.Network.decompress, packed), snap.copy()))
            elif kind == "state":
                st = State(activities={"a": 1}, network=net, compression=True)
                live.append((en.guarded("copy", lambda: st.network), ref.copy()))
            elif kind in ("cut", "extend") and (records or kind == "cut"):
                packed = rng.choice(records)[0] if records else net.compress()
                if kind == "cut":
                    at = rng.choice([0, 1, len(packed) - 1, len(packed) // 2, rng.randrange(len(packed))])
                    bad = packed[:min(at, len(packed) - 1)]
                else:
                    bad = packed + rng.choice([b"\x00", b"\xc0", b"\x80", packed, packed[:3], b"\n"])
                try:
                    got = ntm.Network.decompress(bad)
                except Exception:
                    sim.fault("record_" + kind)
                else:
                    raise Violation("damaged-record-accepted", "%s: %d of %d bytes were read as the network %s"
                                    % (what, len(bad), len(packed), en.short(real_view(got))))
            elif kind == "oom":
                self.oom(net, ref, records, rng, sim, ntm)
            live = live[-6:]
            records = records[-4:]
            for m, (x, r) in enumerate(live):
                en.guarded("accessor", check_all, x, r, labels, "%s, network %d of %d" % (what, m, len(live)), ntm, False)
                if node_data(x) != ref_node_data(r):
                    raise Violation("node-data", "%s, network %d: node data %s, expected %s"
                                    % (what, m, node_data(x), ref_node_data(r)))
            views = [(r.view(), ref_node_data(r)) for _, r in live]
            for m in range(len(live)):
                for l in range(m):
                    if views[m] != views[l] and (live[m][0] == live[l][0] or not live[m][0] != live[l][0]):
                        raise Violation("false-equal", "%s: networks %d and %d differ, but are said to be equal: %s and %s"
                                        % (what, l, m, views[l], views[m]))
            if kind in ("copy", "state", "decompress") and len(live) > 1 and kind == "copy":
                if not (live[-1][0] == net):
                    raise Violation("copy-unequal", "%s: the copy does not equal the original" % what)
            sim.state([r.view() for _, r in live])
            sim.stats["ops"] += 1
            sim.log(k, kind, [r.view() for _, r in live])

    def deep(self, net, ref, rng, sim):
        """A change inside a node's or edge's attributes, as deep as they go."""
        es = sorted(((i, j) for i, j, _ in ref.edges()), key=lambda p: (nkey(p[0]), nkey(p[1])))
        if not es:
            return
        i, j = rng.choice(es)
        k = rng.randrange(len(ref.inc[j][i]))
        for e in (net.edge(i, j)[k], ref.inc[j][i][k]):
            if "tags" in e:
                e["tags"].append(7)
                sim.probe("deep_change")
            elif "deep" in e:
                e["deep"]["a"].append(7)
                e["deep"]["b"] = 1
                sim.probe("deep_change")
            else:
                e["touched"] = e.get("touched", 0) + 1

    def oom(self, net, ref, records, rng, sim, ntm):
        kind = rng.choice(["copy", "copy", "compress", "decompress"])
        side = rng.choice(["pack", "unpack"])
        if kind != "copy":
            side = {"compress": "pack", "decompress": "unpack"}[kind]
        if kind == "decompress" and not records:
            return
        fault = en.Fault({"where": side, "at": 0, "exc": 0}, sim)
        try:
            with fault:
                if kind == "decompress":
                    ntm.Network.decompress(rng.choice(records)[0])
                else:
                    getattr(net, kind)()
        except en.BoomMemoryError:
            return
        if fault.fired:
            raise Violation("error-swallowed", "running out of memory in %s was not reported" % kind)


WORLD = C15()
