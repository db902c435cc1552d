from ..world import World
from .. import engine as en


class C03(World):
    quick_runs = 6000
    thorough_runs = 300000
    rule = ("Generated automata whose rules add, remove, evict and rebirth nodes, combined with perturbations, topology rules, past "
            "conditions, inputs and recording options. Non-trivial: at least one step was taken; distinct by plan.")
    state_measure = "distinct (activities, network) pairs reached, CRC-32 of their canonical form"
    real = ["netomaton.evolve and everything below it", "msgpack", "numpy"]
    stub = ["user callbacks (generated programs)"]
    assumptions = ["added nodes link to surviving nodes, to themselves or to nodes added by the same call",
                   "nodes are added under labels that are free (or freed in the same timestep)"]

    def generate(self, rng, tier):
        force = {"churn": True, "act": True, "order": "AF", "T": rng.choice([3, 4, 5, 6, 8, 12])}
        if rng.random() < 0.5:
            force["topo"] = False
        plan = en.gen_plan(rng, **force)
        if rng.random() < 0.2:
            # a quiet network in which a single node comes or goes now and then
            plan["churn"].update({"leave": 0.08, "join": 0.05, "evict": 0.05})
        return plan

    def execute(self, plan, sim):
        sim.budget = 20000
        ref = en.RefRun(plan)
        run = en.RealRun(plan, sim)
        traj = en.guarded("crash", run.run)
        en.compare_trajectory(traj, ref, plan, sim)
        en.compare_calls(run.prog, ref.prog)
        for S, A in ref.states:
            for j in A.nodes:
                for i in A.inc[j]:
                    assert i in A.attrs
        en.count_net_faults(ref, sim)
        if plan["pert"]:
            sim.probe("churn_with_perturbation")
        if plan["topo"]:
            sim.probe("churn_with_topology_rule")
        sim.log("calls", len(run.prog.calls))


WORLD = C03()
