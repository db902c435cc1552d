from ..world import World
from .. import engine as en


class C01(World):
    quick_runs = 14000
    thorough_runs = 400000
    rule = ("One plan per run: a random multigraph (1-7 nodes, six kinds of labels), initial and past conditions, update order, "
            "hash-mixing activity, topology and perturbation programs, input form and recording options, executed by "
            "netomaton and by the reference interpreter. Non-trivial: at least one step was taken; distinct by plan.")
    state_measure = "distinct (activities, network) pairs reached, CRC-32 of their canonical form"
    real = ["netomaton.evolve and everything below it", "msgpack", "numpy"]
    stub = ["user callbacks (generated programs)"]
    assumptions = ["callbacks follow the documented contract: rules do not modify what they are given except where "
                   "network copying allows it; added nodes link to surviving nodes"]

    def generate(self, rng, tier):
        return en.gen_plan(rng, unpackable=True)

    def execute(self, plan, sim):
        sim.budget = 20000
        ref = en.RefRun(plan)
        run = en.RealRun(plan, sim)
        traj = en.guarded("crash", run.run)
        en.compare_trajectory(traj, ref, plan, sim)
        en.compare_calls(run.prog, ref.prog)
        en.count_net_faults(ref, sim)
        sim.log("calls", len(run.prog.calls))


WORLD = C01()
