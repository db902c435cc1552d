from ..core import INJECTED, Invalid, NoProgress, Violation
from ..world import World
from .. import engine as en, boot, models, threads
from ..refnet import real_view
from .c06 import HASHABLE


class C11(World):
    quick_runs = 2400
    thorough_runs = 60000
    rule = ("Two to four simulated threads evolve generated automata (sharing the network, initial conditions, past conditions, recorded "
            "states or nothing; with memoization and compression; nested evolutions; some failing) while the seeded scheduler "
            "switches between them at single lines or bytecodes; each result is compared with the reference for that evolution "
            "alone. Non-trivial: at least one step; distinct by plan.")
    state_measure = "distinct interleavings (CRC-32 of the sequence of switches with their positions) and states reached"
    time_unit = "timesteps, scheduling points passed and thread switches"
    real = ["netomaton.evolve and everything below it", "Python threads (one runs at a time)"]
    stub = ["thread scheduler", "threading.Lock/RLock inside netomaton", "user callbacks (generated programs)"]
    assumptions = ["rules shared between evolutions are pure", "switches happen between bytecodes of netomaton's own code, "
                   "in callbacks and around msgpack calls; C extension calls are atomic"]

    def generate(self, rng, tier):
        n = rng.choice([1, 2, 2, 2, 3, 3, 4])
        memo = rng.random() < 0.4

        def one(small=False):
            force = {"max_nodes": 4, "T": rng.choice([2, 3, 4]) if small else rng.choice([2, 3, 4, 5]), "act": True}
            if memo and rng.random() < 0.8:
                force.update({"memo": True, "churn": False, "uses": ["anon"], "enc": rng.choice([e for e in HASHABLE if e != "tuple"])})   # recorded tuples come back as lists
            p = en.gen_plan(rng, **force)
            if p["memo"] and p["topo"] and p["topo"]["rotation"] and not p["net"]["rotation"]:
                p["topo"]["rotation"] = False
            if p["memo"] and p["topo"] and p["net"]["rotation"] and p["topo"]["style"] == "fresh":
                p["topo"]["rotation"] = True
            p["compression"] = rng.random() < 0.6
            return p
        base = one()
        jobs = []
        with_models = rng.random() < 0.4
        if with_models:
            n = max(n, 2)
            shared_spec = models.gen(rng, models.PURE if rng.random() < 0.8 else models.CALM)
            shared_spec["T"] = rng.choice([2, 3, 3])
        crowd = with_models and rng.random() < 0.35      # every thread uses one rule object, for a network of its own
        if crowd:
            shared_spec["model"] = rng.choice(["Elementary", "Totalistic", "Totalistic", "Life", "Wireworld"])
        for i in range(n):
            kind = rng.choice(["shared", "shared", "own", "recorded", "reader"]) if i else "shared"
            j = {"kind": kind, "p": None, "seed": rng.randrange(3), "fault": None, "nest": None}
            if crowd or with_models and rng.random() < 0.8:
                spec = dict(shared_spec) if crowd or rng.random() < 0.6 else models.gen(rng, models.CALM)
                jobs.append({"kind": "model", "p": None, "seed": rng.randrange(3), "fault": None, "nest": None, "spec": spec,
                             "shared": crowd or rng.random() < 0.8, "other": rng.randrange(1 << 16) if rng.random() < (0.8 if crowd else 0.4) else None})
                if rng.random() < (0.08 if crowd else 0.25):
                    jobs[-1]["fault"] = {"where": rng.choice(["act", "pack", "unpack"]), "at": rng.randrange(12), "exc": rng.randrange(9)}
                continue
            if kind == "own":
                j["p"] = one()
            if kind != "reader":
                if rng.random() < 0.25:
                    j["fault"] = {"where": rng.choice(["any", "any", "pack", "unpack"]), "at": rng.randrange(12),
                                  "exc": rng.randrange(9)}
                if rng.random() < (0.3 if n > 1 else 1.0):
                    j["nest"] = {"at": rng.randrange(8), "p": one(True) if rng.random() < 0.7 else None, "again": rng.random() < 0.3}
            jobs.append(j)
        return {"base": base, "jobs": jobs, "opcodes": rng.random() < 0.5,
                "focus": rng.choice(["models", "models", None, "engine"] if with_models else [None, None, None, "engine"]),
                "slices": threads.gen_slices(rng, n)}

    def execute(self, plan, sim):
        sim.budget = 60000
        ntm = boot.load()
        from netomaton.state import State
        base = plan["base"]
        if not base or not plan["jobs"]:
            raise Invalid("threads")
        sched = threads.Scheduler(sim, plan["slices"], plan["opcodes"], plan["focus"])
        for q in [base] + [j["p"] for j in plan["jobs"] if j["p"]] + [j["nest"]["p"] for j in plan["jobs"] if j["nest"] and j["nest"]["p"]]:
            if q["memo"] and (q["act"]["uses"] != ["anon"] or q["topo"] and q["topo"]["rotation"] and not q["net"]["rotation"]):
                raise Invalid("memo")
            en.check_plan(q)
        baserun = en.RealRun(base, sim)
        args = {"network": baserun.network, "init": baserun.init, "past": baserun.past}
        if not callable(baserun.inputs):
            args["inputs"] = baserun.inputs
        frozen = en.Frozen(baserun)
        ref0 = en.RefRun(base)
        recorded = State(activities=ref0.states[0][0], network=en.build_real(ntm, en.build_ref(base["net"])), compression=True)
        faults = {}
        fns, checks, instances = [], [], {}
        for tid, j in enumerate(plan["jobs"]):
            fn, check = self.model_job(tid, j, sched, faults, instances, sim) if j["kind"] == "model" else self.job(tid, j, base, args, recorded, sched, faults, sim)
            fns.append(fn)
            checks.append(check)

        def in_seam(tid, kind):
            f = faults.get(tid)
            if f is not None and f.where == kind:
                f.tick(kind)
        sched.in_seam = in_seam
        results = sched.run(fns)
        for tid, (result, error) in enumerate(results):
            if isinstance(error, (Violation, Invalid, NoProgress)):
                raise error
            checks[tid](error)
        frozen.check("while evolutions shared it")

    def model_job(self, tid, j, sched, faults, instances, sim):
        """A model of the library, in an instance of its own or (if its rule keeps no state) one that threads share."""
        spec = j["spec"]

        def start(m):
            if j["other"] is not None and m.other(j["other"]):
                return m.other(j["other"])
            init = m.supplied.get("init")
            return {"initial_conditions": init[j["seed"]:] + init[:j["seed"]]} if isinstance(init, list) else {}
        m = models.build(spec["model"], spec["seed"])
        if m.random:
            raise Invalid("a random model")
        want = models.alone(spec, compression=spec["compression"], **start(m))
        key = (spec["model"], spec["seed"])
        if j["shared"] and m.pure:
            m, inst = instances.setdefault(key, (m, m.make()))
        else:
            inst = m.make()
        fault = en.Fault(j["fault"], sim) if j["fault"] else None
        if fault:
            faults[tid] = fault
        run = models.ModelRun(m, inst, spec["T"], None, fault.hook if fault else None, compression=spec["compression"], **start(m))
        run.over["activity_rule"] = sched.callback(run.over["activity_rule"]) if "activity_rule" in run.over else None

        def go():
            try:
                run.run()
            except threads.Abort:
                raise
            except BaseException as e:
                if fault is None or not fault.fired:
                    raise Violation("crash", "%s %d: unexpected %s: %s" % (spec["model"], tid, type(e).__name__, e))
                if e is not fault.exc:
                    raise Violation("error-replaced", "%s %d: the injected %r was replaced by %r" % (spec["model"], tid, fault.exc, e))
                return
            if fault is not None and fault.fired:
                raise Violation("error-swallowed", "%s %d: the injected %r was swallowed" % (spec["model"], tid, fault.exc))

        def check(error):
            if error is not None:
                raise Violation("crash", "%s %d: %r" % (spec["model"], tid, error))
            sim.stats["steps"] += 1
            if run.trajectory is None:
                sim.probe("failed_evolution")
                return
            got = models.data(run.trajectory)
            if got != want:
                diff = [(t, g, w) for t, (g, w) in enumerate(zip(got, want)) if g != w][:1]
                raise Violation("model-trajectory", "%s in thread %d differs from what it does alone: %s" % (spec["model"], tid, en.short(diff)))
            sim.stats["steps"] += len(got) - 1
            sim.probe("model_shared" if j["shared"] and m.pure else "model_own")
            if j["other"] is not None and j["shared"] and m.other(j["other"]):
                sim.probe("rule_shared_by_networks")
        return go, check

    def job(self, tid, j, base, args, recorded, sched, faults, sim):
        if j["kind"] == "reader":
            ref = en.RefRun(base).states[0]

            def read():
                for _ in range(4):
                    if en.acts_view(recorded.activities) != en.acts_view(ref[0]):
                        raise Violation("shared-state", "a shared recorded state read differently: activities")
                    net = recorded.network
                    if real_view(net) != ref[1].view():
                        raise Violation("shared-state", "a shared recorded state read differently: network")
                    if real_view(net.copy()) != ref[1].view():
                        raise Violation("shared-state", "a copy differs")

            def check(error):
                if error is not None:
                    raise Violation("reader-failed", "reading a recorded state failed: %r" % error)
                sim.stats["steps"] += 1
                sim.probe("reader")
            return read, check
        p = j["p"] or base
        if j["kind"] != "own":
            p = dict(base)
            if p["act"]:
                p["act"] = dict(p["act"], seed=p["act"]["seed"] + j["seed"])
            if j["kind"] == "recorded" and p["net"]["rotation"]:
                j = dict(j, kind="shared")
        ref = en.RefRun(p)
        fault = en.Fault(j["fault"], sim) if j["fault"] else None
        if fault:
            faults[tid] = fault
        inner = None
        if j["nest"]:
            q = j["nest"]["p"] or p
            inner = (q, en.RefRun(q))
        count = [0]
        nested = []

        def hook(kind, t, lab):
            if fault is not None:
                fault.hook(kind, t, lab)
            count[0] += 1
            if inner is not None and (count[0] == j["nest"]["at"] + 1 or (j["nest"]["again"] and count[0] == j["nest"]["at"] + 3)):
                q, qref = inner
                r = en.RealRun(q, None, args={k: v for k, v in args.items()} if j["nest"]["p"] is None and j["kind"] == "shared" else None)
                r.run()
                nested.append((r, q, qref))
        own = dict(args) if j["kind"] == "shared" else None
        run = en.RealRun(p, None, hook=hook, args=own)
        for k in ("activity_rule", "topology_rule", "perturbation"):
            if run.kw.get(k) is not None:
                run.kw[k] = sched.callback(run.kw[k])
        if callable(run.inputs):
            run.kw["input"] = sched.callback(run.inputs)

        def go():
            try:
                if j["kind"] == "recorded":
                    run.network = recorded.network
                    run.kw["initial_conditions"] = recorded.activities
                run.run()
            except threads.Abort:
                raise
            except BaseException as e:
                if fault is None or not fault.fired:
                    raise Violation("crash", "evolution %d: unexpected %s: %s" % (tid, type(e).__name__, e))
                if e is not fault.exc:
                    raise Violation("error-replaced", "evolution %d: the injected %r was replaced by %r" % (tid, fault.exc, e))
                return
            if fault is not None and fault.fired:
                raise Violation("error-swallowed", "evolution %d: the injected %r was swallowed" % (tid, fault.exc))

        def check(error):
            if error is not None:
                raise Violation("crash", "evolution %d: %r" % (tid, error))
            what = "evolution %d (%s)" % (tid, j["kind"])
            for r, q, qref in nested:
                if r.trajectory is not None:
                    en.compare_trajectory(r.trajectory, qref, q, sim, what="evolution nested in " + what)
                    sim.probe("nested")
            if run.trajectory is not None:
                en.compare_trajectory(run.trajectory, ref, p, sim, what=what)
                en.compare_calls(run.prog, ref.prog, ("topo", "pert", "input") + (() if p["memo"] else ("act",)), what=what)
                sim.probe("evolution_" + j["kind"])
            else:
                sim.probe("failed_evolution")
        return go, check


WORLD = C11()
