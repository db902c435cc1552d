from ..world import World
from .. import engine as en


class C02(World):
    quick_runs = 9000
    thorough_runs = 300000
    rule = ("Generated automata as for C01 (half of them with rotation systems); every callback's complete context is compared "
            "with the reference interpreter's, and contexts kept by callbacks are looked at again after the run. Non-trivial: "
            "at least one step was taken; distinct by plan.")
    state_measure = "distinct (activities, network) pairs reached, CRC-32 of their canonical form"
    real = ["netomaton.evolve and everything below it", "msgpack", "numpy"]
    stub = ["user callbacks (generated programs)"]

    def generate(self, rng, tier):
        force = {"act": True}
        if rng.random() < 0.5:
            force["churn"] = False
            force["rotation"] = True
            if rng.random() < 0.5:
                force["topo"] = False
        if rng.random() < 0.5:
            force["past"] = True
        plan = en.gen_plan(rng, **force)
        if plan["topo"] and plan["topo"]["style"] == "fresh" and rng.random() < 0.6:
            plan["topo"]["rotation"] = True
        return {"p": plan, "keep": rng.choice([1, 2, 5])}

    def execute(self, plan, sim):
        sim.budget = 20000
        p = plan["p"]
        ref = en.RefRun(p)
        run = en.RealRun(p, sim, keep_every=plan["keep"])
        traj = en.guarded("crash", run.run)
        en.compare_calls(run.prog, ref.prog)
        en.guarded("kept-context", en.check_kept, run.prog, sim)
        en.compare_trajectory(traj, ref, p, sim)
        en.count_net_faults(ref, sim)
        if p["net"]["rotation"]:
            sim.probe("rotation")
        if p["topo"] and p["topo"]["rotation"]:
            sim.probe("rotation_renewed_by_topology_rule")
        sim.stats["contexts_checked"] += len(run.prog.calls)
        sim.log("calls", len(run.prog.calls))


WORLD = C02()
