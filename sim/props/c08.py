from ..core import Violation
from ..world import World
from .. import engine as en, models


class C08(World):
    quick_runs = 7000
    thorough_runs = 250000
    rule = ("Generated automata (topology rules that modify in place, copy or rebuild; churn) evolved up to three times with the very same "
            "argument objects, some runs cut short by a failing callback, failing allocation or an interrupt at an executed line; "
            "arguments are compared after each, trajectories with the reference, earlier trajectories again after later runs. "
            "Non-trivial: at least one step; distinct by plan.")
    state_measure = "distinct (activities, network) pairs reached, CRC-32 of their canonical form"
    real = ["netomaton.evolve and everything below it", "msgpack"]
    stub = ["user callbacks (generated programs)"]
    assumptions = ["topology rules modify in place only with network copying on"]

    def generate(self, rng, tier):
        if rng.random() < 0.15:
            spec = models.gen(rng)
            return {"spec": spec, "runs": [models.gen_fault(rng, spec["model"]) if rng.random() < 0.5 else None
                                           for _ in range(rng.choice([1, 2, 2, 3]))], "alter": rng.random() < 0.5}
        force = {}
        r = rng.random()
        if r < 0.3:
            force["churn"] = True
            force["act"] = True
        if r < 0.7:
            force["topo"] = True
        p = en.gen_plan(rng, **force)
        if p["topo"] and p["topo"]["style"] in ("copy", "fresh") and not p["net"]["rotation"] and not p["topo"]["rotation"] \
                and rng.random() < 0.5:
            p["topo"]["style"] = "inplace"
            p["copy_network"] = True
        runs = [en.gen_fault(rng, p) if rng.random() < 0.45 else None for _ in range(rng.choice([1, 2, 2, 3]))]
        return {"p": p, "runs": runs, "alter": rng.random() < 0.5}

    def execute(self, plan, sim):
        sim.budget = 60000
        if "spec" in plan:
            return self.model(plan, sim)
        p = plan["p"]
        ref = en.RefRun(p)
        args, frozen, done = None, None, []
        for i, f in enumerate(plan["runs"]):
            fault = en.Fault(f, sim) if f else None
            run = en.RealRun(p, sim, hook=fault.hook if fault else None, args=args)
            if args is None:
                args = {"network": run.network, "init": run.init, "past": run.past}
                if not callable(run.inputs):
                    args["inputs"] = run.inputs
                frozen = en.Frozen(run)
            if fault:
                if en.run_with_fault(run, fault, sim):
                    frozen.check("in run %d, which failed (%s)" % (i, fault.where))
                    continue
            else:
                en.guarded("crash", run.run)
            frozen.check("in run %d" % i)
            done.append((i, run))
            for k, r in done:
                en.compare_trajectory(r.trajectory, ref, p, sim, what="trajectory %d after run %d" % (k, i))
        if done and plan["alter"] and args["init"] is not None and len(args["init"]):
            init = args["init"]
            keys = list(init) if isinstance(init, dict) else range(len(init))
            for k in keys:
                init[k] = en.plain(en.encode(5, p["enc"])) if isinstance(init, dict) or p["enc"] not in ("list", "dict") else None
            if isinstance(init, dict):
                init["altered"] = 1
            sim.fault("initial_conditions_altered_afterwards")
            for k, r in done:
                en.compare_trajectory(r.trajectory, ref, p, sim, what="trajectory %d after altering the initial conditions" % k)
        en.count_net_faults(ref, sim)

    def model(self, plan, sim):
        """One of the library's models, built (again and again) from the same objects of the caller."""
        spec = plan["spec"]
        want = models.alone(spec, compression=spec["compression"])
        m = models.build(spec["model"], spec["seed"])
        before = m.frozen()
        inst, done = None, []

        def same(when):
            now = m.frozen()
            for k in before:
                if now[k] != before[k]:
                    raise Violation("argument-altered", "%s: the caller's %s changed %s: %s, was %s"
                                    % (spec["model"], k, when, en.short(now[k], 400), en.short(before[k], 400)))
        for i, f in enumerate(plan["runs"]):
            models.seed_globals(spec["globals"])
            if inst is None or not m.pure:
                inst = m.make()
            fault = en.Fault(f, sim) if f else None
            run = models.ModelRun(m, inst, spec["T"], sim, fault.hook if fault else None, compression=spec["compression"])
            if fault and en.run_with_fault(run, fault, sim):
                same("in run %d, which failed (%s)" % (i, fault.where))
                continue
            if not fault:
                en.guarded("crash", run.run)
            same("in run %d" % i)
            done.append((i, run.trajectory))
            for k, traj in done:
                self.compare(traj, want, "%s: trajectory %d after run %d" % (spec["model"], k, i))
            sim.stats["steps"] += len(run.trajectory) - 1
        init = m.supplied.get("init", m.supplied.get("tape"))
        if done and plan["alter"] and init:
            for k in (list(init) if isinstance(init, dict) else range(len(init))):
                init[k] = "altered"
            sim.fault("initial_conditions_altered_afterwards")
            for k, traj in done:
                self.compare(traj, want, "%s: trajectory %d after altering the initial conditions" % (spec["model"], k))
        sim.stats["steps"] += 1
        sim.probe("model_" + spec["model"])
        sim.state(want)

    def compare(self, traj, want, what):
        got = models.data(traj)
        if got != want:
            diff = [(t, g, w) for t, (g, w) in enumerate(zip(got, want)) if g != w][:1]
            raise Violation("model-trajectory", "%s differs: %d states, expected %d; %s"
                            % (what, len(got), len(want), en.short(diff)))


WORLD = C08()
