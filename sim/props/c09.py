from ..core import Invalid, Violation
from ..world import World
from .. import engine as en, boot, models
from .c06 import HASHABLE


class C09(World):
    quick_runs = 7000
    thorough_runs = 300000
    rule = ("Generated automata; one to three faults (exception of nine types from any callback, input source or memoization key; "
            "allocation failure in copying or decompressing; interrupt before an executed line), each in its own attempt with the "
            "same arguments, then a fault-free retry compared with the reference. Non-trivial: at least one step; distinct by plan.")
    state_measure = "distinct (activities, network) pairs reached, CRC-32 of their canonical form"
    real = ["netomaton.evolve and everything below it", "msgpack"]
    stub = ["user callbacks (generated programs)"]
    assumptions = ["injected exceptions are not StopIteration"]

    def generate(self, rng, tier):
        if rng.random() < 0.15:
            spec = models.gen(rng)
            return {"spec": spec, "faults": [models.gen_fault(rng, spec["model"]) for _ in range(rng.choice([1, 1, 2, 3]))]}
        memo = rng.random() < 0.15
        force = {"memo": True, "act": True, "churn": False, "uses": ["anon", "label"], "enc": rng.choice(HASHABLE)} if memo else {}
        p = en.gen_plan(rng, **force)
        faults = [en.gen_fault(rng, p) for _ in range(rng.choice([1, 1, 2, 3]))]
        if memo and rng.random() < 0.6:
            faults[0] = {"where": "key", "at": rng.randrange(20), "exc": rng.randrange(9)}
        rej = rng.choice(["no_network", "few", "many"]) if rng.random() < 0.15 else None
        if not memo and rej == "no_network" and p["net"]["rotation"] == 0:
            p["topo"] = p["topo"] or {"seed": 1, "style": "same", "rate": 1.0, "lose_nodes": False, "gain_nodes": False,
                                      "rotation": False, "sees_acts": p["act"] is not None}
        return {"p": p, "faults": faults, "reject": rej, "at": rng.randrange(1, 6), "memo": memo}

    def execute(self, plan, sim):
        sim.budget = 100000
        if "spec" in plan:
            return self.model(plan, sim)
        p = plan["p"]
        if p["memo"] and (p["act"]["uses"] != ["anon", "label"]):
            raise Invalid("memo")
        ref = en.RefRun(p)
        args = None
        frozen = None
        outcomes = []
        attempts = list(plan["faults"]) + [None]
        for i, f in enumerate(attempts):
            fault = en.Fault(f, sim) if f else None
            hook = fault.hook if fault else None
            run = en.RealRun(p, sim, hook=hook, args=args, memo_key=self.key(p, hook) if p["memo"] else None)
            if p["memo"]:
                run.kw["memoization_key"].prog = run.prog
            if args is None:
                args = {"network": run.network, "init": run.init, "past": run.past}
                if not callable(run.inputs):
                    args["inputs"] = run.inputs
                frozen = en.Frozen(run)
            if fault and en.run_with_fault(run, fault, sim):
                frozen.check("in attempt %d, which failed (%s)" % (i, fault.where))
                outcomes.append("failed")
                sim.stats["steps"] += 1
                continue
            if not fault:
                en.guarded("retry-crash", run.run)
            frozen.check("in attempt %d" % i)
            what = "attempt %d after %d failed ones" % (i, outcomes.count("failed"))
            en.compare_trajectory(run.trajectory, ref, p, sim, what=what)
            en.compare_calls(run.prog, ref.prog, ("topo", "pert", "input") + (() if p["memo"] else ("act",)), what=what)
            outcomes.append("completed")
        if plan["reject"]:
            self.rejected(plan, args, frozen, ref, sim)
        sim.log(outcomes)

    def model(self, plan, sim):
        spec = plan["spec"]
        want = models.alone(spec, compression=spec["compression"])
        m = models.build(spec["model"], spec["seed"])
        before = m.frozen()
        inst, outcomes = None, []
        for i, f in enumerate(list(plan["faults"]) + [None]):
            models.seed_globals(spec["globals"])
            if inst is None or not m.pure:
                inst = m.make()
            fault = en.Fault(f, sim) if f else None
            run = models.ModelRun(m, inst, spec["T"], sim, fault.hook if fault else None, compression=spec["compression"])
            failed = fault and en.run_with_fault(run, fault, sim)
            if not fault:
                en.guarded("retry-crash", run.run)
            if m.frozen() != before:
                raise Violation("argument-altered", "%s: the caller's objects changed in attempt %d: %s, were %s"
                                % (spec["model"], i, en.short(m.frozen()), en.short(before)))
            outcomes.append("failed" if failed else "completed")
            if not failed:
                got = models.data(run.trajectory)
                if got != want:
                    raise Violation("model-trajectory", "%s: attempt %d after %d failed ones gave %s, expected %s"
                                    % (spec["model"], i, outcomes.count("failed"), en.short(got), en.short(want)))
            sim.stats["steps"] += 1
        sim.probe("model_" + spec["model"])
        sim.state(want)
        sim.log(outcomes)

    def key(self, p, hook):
        ntm = boot.load()

        class Key(ntm.MemoizationKey):
            prog = None

            def to_key(self, ctx):
                if hook is not None:
                    hook("key", ctx.timestep, ctx.node_label)
                return repr(en.node_view(ctx, ["anon", "label"], self.prog.is_ordered(ctx)))
        return Key()

    def rejected(self, plan, args, frozen, ref, sim):
        p = plan["p"]
        run = en.RealRun(p, sim, args=args, memo_key=self.key(p, None) if p["memo"] else None)
        how = plan["reject"]
        if p["memo"]:
            run.kw["memoization_key"].prog = run.prog
        if how == "no_network":
            if not p["topo"]:
                return
            inner, calls = run.kw["topology_rule"], [0, 0]

            def topo(ctx):
                calls[0] += 1
                net = inner(ctx)
                return None if calls[0] == plan["at"] else net
            run.kw["topology_rule"] = topo
            if len(ref.states) - 1 < plan["at"]:
                return
        else:
            if not p["act"]:
                return
            kind, n = p["net"]["labels"], p["net"]["n"]
            if how == "few":
                if n < 2:
                    return
                run.kw["initial_conditions"] = {en.label(kind, i): 0 for i in range(n - 1)}
            else:
                run.kw["initial_conditions"] = {en.label(kind, i): 0 for i in range(n + 1)}
        try:
            run.run()
        except (Violation, Invalid):
            raise
        except Exception:
            pass
        else:
            raise Violation("not-rejected", "%s was accepted" % how)
        frozen.check("in a rejected call (%s)" % how)
        late = [c for c in run.prog.calls if (c[1] > plan["at"] if how == "no_network" else True)]
        if late:
            raise Violation("continued-after-rejection", "%s: callbacks were invoked after the call had to be rejected: %s"
                            % (how, late[:3]))
        sim.fault("rejected_" + how)
        again = en.RealRun(p, sim, args=args, memo_key=self.key(p, None) if p["memo"] else None)
        if p["memo"]:
            again.kw["memoization_key"].prog = again.prog
        en.guarded("retry-crash", again.run)
        en.compare_trajectory(again.trajectory, ref, p, sim, what="retry after a rejected call")


WORLD = C09()
