from ..world import World
from ..core import Invalid, Violation
from .. import engine as en, boot


class C04(World):
    quick_runs = 18000
    thorough_runs = 300000
    rule = ("Generated automata driven by timestep counts (from -3), input lists of several types and forms, or source functions that "
            "end at a chosen or a state-dependent point. Every request to the source and every delivered input is compared with "
            "the reference interpreter's. Non-trivial: at least one step was taken; distinct by plan.")
    state_measure = "distinct (activities, network) pairs reached, CRC-32 of their canonical form"
    real = ["netomaton.evolve and everything below it"]
    stub = ["user callbacks and input sources (generated programs)"]
    assumptions = ["an input list contains no None, and no input is the string '__timestep__'",
                   "one timestep's input is per-node exactly if it is a sequence (lists, tuples, strings, ranges, byte strings and deques are generated)"]

    def generate(self, rng, tier):
        drive = rng.choice(["T", "list", "rows", "fn", "fn"])
        force = {"drive": drive, "act": rng.random() < 0.9}
        force["uses"] = sorted({"input", "time"} | set(rng.sample(en.USES, 3)))
        if drive == "T":
            force["T"] = rng.choice([-3, -1, 0, 1, 1, 2, 3, 7, 20]) if rng.random() < 0.97 else rng.choice([66, 130])
        else:
            force["T"] = rng.choice([1, 1, 2, 3, 5, 9]) if rng.random() < 0.97 else rng.choice([66, 130])
        plan = en.gen_plan(rng, **force)
        if drive == "fn" and rng.random() < 0.5:
            plan["drive"]["quit"] = rng.choice([1, 2])
        if drive != "T":
            plan["drive"]["T"] = rng.choice([None, None, 0, 1, 2, 30])
        bad = rng.random() < 0.03
        return {"p": plan, "callable": rng.choice(["method", "object", "lambda"]), "neither": bad}

    def execute(self, plan, sim):
        sim.budget = 20000
        p = plan["p"]
        ref = en.RefRun(p)
        if plan["neither"]:
            self.neither(p, sim)
        run = en.RealRun(p, sim)
        d = p["drive"]
        if d["kind"] == "fn":
            src = run.prog.source
            if plan["callable"] == "object":
                class Source:
                    def __call__(self, t, activities, network):
                        return src(t, activities, network)
                run.kw["input"] = Source()
            elif plan["callable"] == "lambda":
                run.kw["input"] = lambda t, a, n: src(t, a, n)
        traj = en.guarded("crash", run.run)
        en.compare_calls(run.prog, ref.prog)
        en.compare_trajectory(traj, ref, p, sim)
        if d["kind"] == "T" and len(traj) != max(d["T"], 1):
            raise Violation("length", "%d states for %d timesteps" % (len(traj), d["T"]))
        if d["kind"] == "fn":
            asked = sum(1 for c in run.prog.calls if c[0] == "input")
            if asked != len(traj):
                raise Violation("source-requests", "the source was asked %d times for %d states" % (asked, len(traj)))
            if len(traj) - 1 < d["until"]:
                sim.fault("source_ended_early")
        sim.fault("drive_" + d["kind"])
        if d["kind"] == "T" and d["T"] < 1:
            sim.probe("no_timesteps")
            sim.stats["steps"] += 1
        sim.log("calls", len(run.prog.calls))

    def neither(self, p, sim):
        ntm = boot.load()
        run = en.RealRun(p, sim)
        kw = dict(run.kw)
        kw.pop("input", None)
        kw.pop("timesteps", None)
        try:
            ntm.evolve(run.network, **kw)
        except Violation:
            raise
        except Exception:
            if run.prog.calls:
                raise Violation("called", "callbacks were invoked by a rejected call")
            sim.probe("neither_rejected")
            return
        raise Violation("not-rejected", "neither timesteps nor input were given, and the call returned")


WORLD = C04()
