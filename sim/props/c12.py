import decimal
import gc
import locale
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np

from ..core import Invalid, NoProgress, Violation, crc
from ..world import World
from .. import engine as en, boot, models, threads
from ..refnet import real_view

OPS = ["evolve", "evolve", "copy", "compress", "decompress", "garbage", "state", "model"]
MODELS = ["ca", "sandpile", "substitution", "wolfram", "reversible", "tape_machine", "head_machine", "hopfield_train",
          "analysis", "builders"] + models.CALM


def umask():
    m = os.umask(0)
    os.umask(m)
    return m


def process_state():
    return {
        "garbage collector enabled": gc.isenabled(),
        "garbage collector thresholds": gc.get_threshold(),
        "frozen objects": gc.get_freeze_count(),
        "working directory": os.getcwd(),
        "signal handlers": [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1)],
        "NumPy error settings": sorted(np.geterr().items()),
        "threads": threading.active_count(),
        "random state": crc(random.getstate()),
        "NumPy random state": crc([np.array(x).tolist() for x in np.random.get_state()[1:]]),
        "recursion limit": sys.getrecursionlimit(),
        "thread switch interval": sys.getswitchinterval(),
        "environment": crc(sorted(os.environ.items())),
        "NumPy print options": repr(sorted(np.get_printoptions().items(), key=lambda kv: kv[0])),
        "warning filters": crc([repr(f) for f in warnings.filters]),
        "trace function": repr(sys.gettrace()) if threading.active_count() == 1 else None,
        "module search path": crc(sys.path),
        "locale": locale.setlocale(locale.LC_ALL),
        "decimal context": repr(decimal.getcontext()),
        "umask": umask(),
    }


class C12(World):
    quick_runs = 6000
    thorough_runs = 150000
    rule = ("Sequences of evolving, copying, compressing, decompressing (also of damaged data), reading compressed states and "
            "running the deterministic models, some of them failing through injected callback or allocation failures, with the "
            "garbage collector on or off, in one thread or in two to three scheduled ones; process-wide state is compared "
            "after every operation. Non-trivial: at least one operation; distinct by plan.")
    state_measure = "distinct (operation, outcome, collector state, interleaving) tuples"
    time_unit = "operations, timesteps and scheduling points"
    real = ["all of netomaton", "gc, signal, random, numpy.random, os"]
    stub = ["thread scheduler and locks (threaded runs)", "user callbacks (generated programs)"]

    def generate(self, rng, tier):
        multi = rng.random() < 0.35
        ops = []
        for _ in range(rng.choice([2, 3]) if multi else rng.randrange(1, 7)):
            kind = rng.choice(OPS)
            op = {"op": kind, "seed": rng.randrange(1 << 20), "fault": None, "p": None, "repeat": rng.choice([1, 1, 2, 4])}
            if kind == "evolve":
                force = {"max_nodes": 4, "T": rng.choice([2, 3])} if multi else {"T": rng.choice([2, 3, 5])}
                op["p"] = en.gen_plan(rng, **force)
                op["p"]["compression"] = rng.random() < 0.6
                op["repeat"] = 1
                if rng.random() < 0.4:
                    op["fault"] = en.gen_fault(rng, op["p"], ["any", "pack", "unpack", "unpack"])
            elif rng.random() < 0.4:
                op["fault"] = {"where": rng.choice(["pack", "unpack", "unpack"]), "at": rng.randrange(3), "exc": 0}
            if kind == "model":
                op["model"] = rng.choice(MODELS)
            ops.append(op)
        return {"gc": rng.random() < 0.6, "ops": ops, "multi": multi, "opcodes": rng.random() < 0.5,
                "err": rng.choice(["warn", "ignore"]), "slices": threads.gen_slices(rng, max(2, len(ops))) if multi else []}

    def execute(self, plan, sim):
        sim.budget = 40000
        random.seed(plan["ops"][0]["seed"] if plan["ops"] else 0)
        np.random.seed(5)
        old_err = np.seterr(all=plan["err"])
        try:
            (gc.enable if plan["gc"] else gc.disable)()
            if plan["multi"]:
                self.concurrently(plan, sim)
            else:
                for op in plan["ops"]:
                    before = process_state()
                    outcome = self.perform(op, sim)
                    self.compare(before, "%s (%s)" % (op["op"], outcome))
                    sim.state((op["op"], op.get("model"), outcome, plan["gc"]))
                    sim.stats["ops"] += 1
        finally:
            gc.enable()
            np.seterr(**old_err)

    def compare(self, before, what):
        after = process_state()
        for k in before:
            if before[k] != after[k]:
                raise Violation("process-state", "%s changed: %r before, %r after %s" % (k, before[k], after[k], what))

    def concurrently(self, plan, sim):
        if len(plan["ops"]) < 1:
            raise Invalid("threads")
        sched = threads.Scheduler(sim, plan["slices"], plan["opcodes"])
        faults = {}

        def in_seam(tid, kind):
            f = faults.get(tid)
            if f is not None and f.where == kind:
                f.tick(kind)
        sched.in_seam = in_seam
        before = process_state()
        outcomes = [None] * len(plan["ops"])

        def job(tid, op):
            def go():
                outcomes[tid] = self.perform(op, sim, lambda f: faults.__setitem__(tid, f))
            return go
        for _, error in sched.run([job(i, op) for i, op in enumerate(plan["ops"])]):
            if error is not None:
                raise error
        self.compare(before, "concurrent %s" % [(o["op"], x) for o, x in zip(plan["ops"], outcomes)])
        sim.state(([o["op"] for o in plan["ops"]], outcomes, plan["gc"]))
        sim.stats["ops"] += len(plan["ops"])
        sim.probe("concurrent_operations")

    def perform(self, op, sim, install=None):
        ntm = boot.load()
        fault = en.Fault(op["fault"], sim) if op["fault"] else None
        work = self.work(op, fault, sim, ntm)
        try:
            if fault is not None and install is None:
                with fault:
                    for _ in range(op["repeat"]):
                        work()
            else:
                if fault is not None:
                    install(fault)
                for _ in range(op["repeat"]):
                    work()
        except (Violation, Invalid, NoProgress, threads.Abort):
            raise
        except BaseException as e:
            if fault is None or not fault.fired:
                raise Violation("crash", "%s: unexpected %s: %s" % (op["op"], type(e).__name__, e))
            return "failed"
        return "completed"

    def work(self, op, fault, sim, ntm):
        from netomaton.state import State
        rng = random.Random(op["seed"])
        kind = op["op"]
        if kind == "evolve":
            run = en.RealRun(op["p"], None, hook=fault.hook if fault else None)

            def evolve():
                for s in run.run():
                    s.activities, s.network
                sim.stats["steps"] += len(run.trajectory) - 1
            return evolve
        if kind == "model":
            return lambda: self.model(op["model"], rng, ntm)
        net = en.build_real(ntm, en.build_ref(en.gen_net(rng)))
        packed = en.seams.real["packb"](net.to_dict())
        if kind == "copy":
            return net.copy
        if kind == "compress":
            return net.compress
        if kind == "decompress":
            return lambda: ntm.Network.decompress(packed)
        if kind == "garbage":
            bad = packed[:rng.randrange(len(packed))] if rng.random() < 0.7 else packed + b"\x01"

            def garbage():
                try:
                    ntm.Network.decompress(bad)
                except Exception as e:
                    if fault is not None and e is fault.exc:
                        raise
                sim.fault("damaged_data")
            return garbage
        st = State(activities={"a": 1, 2: [3]}, network=net, compression=True)

        def read():
            st.activities, st.network, st.activities
        return read

    def model(self, name, rng, ntm):
        if name in models.ALL:
            m = models.build(name, rng.randrange(1 << 20))
            if not m.random:
                m.evolve(m.make(), rng.choice([2, 4]), compression=rng.random() < 0.5)
        elif name == "analysis":
            n = rng.randrange(3, 12)
            x, y = "".join(rng.choice("01") for _ in range(n)), "".join(rng.choice("01") for _ in range(n))
            rows = [[rng.choice("ab") for _ in range(4)] for _ in range(6)]
            ntm.shannon_entropy(x), ntm.joint_shannon_entropy(x, y), ntm.mutual_information(x, y)
            ntm.average_node_entropy(rows), ntm.average_mutual_information(rows)
        elif name == "builders":
            t = ntm.topology
            t.lattice((1, 3, 3), periodic=True), t.complete(4), t.bipartite([1, 2], [3, 4]), t.disconnected(3)
            t.watts_strogatz_graph(6, 2, 0.5, seed=rng.randrange(5)), t.cellular_automaton2d(3, 4, neighbourhood="Hex")
            ntm.init_simple(5), ntm.init_simple2d(3, 3)
            ntm.Network.from_networkx(en.build_real(ntm, en.build_ref(en.gen_net(rng))).to_networkx()).to_adjacency_matrix()
        elif name == "ca":
            ntm.evolve(ntm.topology.cellular_automaton(5), initial_conditions=[0, 0, 1, 0, 1], timesteps=4,
                       activity_rule=ntm.rules.nks_ca_rule(rng.randrange(256)), compression=True, memoize=True)
        elif name == "sandpile":
            s = ntm.Sandpile(3, 3, is_closed_boundary=False)
            ntm.evolve(s.network, initial_conditions=[rng.randrange(6) for _ in range(9)], activity_rule=s.activity_rule, timesteps=4)
        elif name == "substitution":
            s = ntm.SubstitutionSystem("AB", {"A": "AB", "B": "A"})
            ntm.evolve(s.network, initial_conditions=s.initial_conditions, activity_rule=s.activity_rule, timesteps=4)
        elif name == "wolfram":
            w = ntm.WolframPhysicsModel([(0, 0), (0, 1)], {"in": [("x", "y")], "out": [("x", "y"), ("y", "z")]})
            ntm.evolve(w.network, topology_rule=w.topology_rule, timesteps=4)
        elif name == "reversible":
            ntm.evolve(ntm.topology.cellular_automaton(5), initial_conditions=[0, 0, 1, 0, 1], past_conditions=[[0, 1, 0, 0, 0]],
                       timesteps=4, activity_rule=ntm.ReversibleRule(ntm.rules.nks_ca_rule(rng.randrange(256))))
        elif name == "tape_machine":
            m = ntm.TapeCentricTuringMachine(4, {"p": {0: ["p", 1, 2], 1: ["p", 0, 2]}}, "p", 0)
            ntm.evolve(m.network, initial_conditions=[0, 1, 0, 0], activity_rule=m.activity_rule, timesteps=5)
        elif name == "head_machine":
            m = ntm.HeadCentricTuringMachine([0, 1, 0], {"p": {0: ["p", 1, 2], 1: ["p", 0, 2]}}, "p", 0, max_timesteps=5)
            ntm.evolve(m.network, initial_conditions=m.initial_conditions, activity_rule=m.activity_rule, input=m.input_function)
        else:
            # constructing the net shuffles (it is a random model); training is not random
            state = random.getstate(), np.random.get_state()
            h = ntm.HopfieldNet(n=3)
            random.setstate(state[0])
            np.random.set_state(state[1])
            h.train([[1, -1, 1], [1, 1, -1]])


WORLD = C12()
