from ..world import World
from .. import engine as en


class C05(World):
    quick_runs = 9000
    thorough_runs = 300000
    rule = ("Generated automata with past conditions of depth 1 to 5 in several forms, whose rules depend on the whole window, under all "
            "recording options, update orders, perturbations and topology changes. Non-trivial: at least one step; distinct by plan.")
    state_measure = "distinct (activities, network) pairs reached, CRC-32 of their canonical form"
    real = ["netomaton.evolve and everything below it", "msgpack", "numpy"]
    stub = ["user callbacks (generated programs)"]

    def generate(self, rng, tier):
        none = rng.random() < 0.05
        force = {"past": not none, "act": True, "T": rng.choice([2, 3, 4, 5, 6, 8, 12]),
                 "uses": sorted({"past"} | set(rng.sample(en.USES, 3))),
                 "persist_activities": rng.random() < 0.5, "compression": rng.random() < 0.4}
        plan = en.gen_plan(rng, **force)
        return {"p": plan, "empty": none and rng.random() < 0.5}

    def execute(self, plan, sim):
        sim.budget = 20000
        p = plan["p"]
        ref = en.RefRun(p)
        run = en.RealRun(p, sim, args={"past": []} if plan["empty"] else None)
        traj = en.guarded("crash", run.run)
        en.compare_calls(run.prog, ref.prog)
        en.compare_trajectory(traj, ref, p, sim)
        en.count_net_faults(ref, sim)
        if not p["persist_activities"]:
            sim.probe("window_without_recording")
        if p["past"] and len(traj) > len(p["past"]["vals"]) + 1:
            sim.probe("window_past_the_given_conditions")
        sim.log("calls", len(run.prog.calls))


WORLD = C05()
