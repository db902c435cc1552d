import numpy as np

from ..core import Invalid, Violation, crc
from ..world import World
from .. import engine as en, boot
from ..refnet import nkey


class C17(World):
    quick_runs = 18000
    thorough_runs = 300000
    rule = ("A random binary rule (or an elementary one) made reversible on a random network; a random zigzag of forward and backward runs, each "
            "from the last two activity vectors of the previous one, compared with the one two-sided history the definition "
            "gives. Non-trivial: at least one step; distinct by plan.")
    state_measure = "distinct pairs of successive activity vectors"
    real = ["ReversibleRule", "netomaton.evolve", "nks_ca_rule"]
    stub = ["the wrapped rule (generated), except elementary ones"]
    assumptions = ["activities are 0 and 1 (also as booleans); the wrapped rule depends on the current activities only"]

    def generate(self, rng, tier):
        ca = rng.random() < 0.3
        net = en.gen_net(rng, rotation=rng.random() < 0.3)
        n = rng.randrange(3, 12) if ca else net["n"]
        return {"ca": ca, "net": net, "n": n, "rule": rng.randrange(256), "seed": rng.randrange(1 << 30),
                "type": rng.choice(["int", "int", "bool", "npint"]),
                "past": [[rng.randrange(2) for _ in range(n)] for _ in range(rng.choice([1, 1, 2, 3]))],
                "init": [rng.randrange(2) for _ in range(n)], "form": rng.choice(["dict", "list"]),
                "runs": [[rng.random() < 0.5, rng.randrange(1, 9) if rng.random() > 0.03 else rng.choice([14, 25, 40])] for _ in range(rng.choice([2, 2, 3, 5]))],
                "order": rng.choice(["AF", "TF", "SYN"]), "compression": rng.random() < 0.2}

    def execute(self, plan, sim):
        ntm = boot.load()
        sim.budget = 40000
        n = plan["n"]
        if plan["ca"]:
            if n < 3:
                raise Invalid("size")
            net = ntm.topology.cellular_automaton(n)
            labels = list(range(n))
            base = ntm.rules.nks_ca_rule(plan["rule"])

            def f(acts, x):
                bits = acts[(x - 1) % n] * 4 + acts[x] * 2 + acts[(x + 1) % n]
                return plan["rule"] >> bits & 1
        else:
            ref = en.build_ref(plan["net"])
            if n != plan["net"]["n"]:
                raise Invalid("size")
            net = en.build_real(ntm, ref)
            labels = [en.label(plan["net"]["labels"], i) for i in range(n)]
            kind = plan["type"]

            def view(node, neigh, acts):
                return crc(plan["seed"], nkey(node), sorted(((nkey(l), int(acts[l])) for l in neigh)), int(acts[node])) & 1

            def base(ctx):
                sim.spend()
                v = view(ctx.node_label, ctx.neighbour_labels, ctx.activities)
                return np.int64(v) if kind == "npint" else bool(v) if kind == "bool" else v

            def f(acts, x):
                return view(x, list(ref.rotation[x]) if ref.rotation is not None else list(ref.inc[x]), acts)
        if any(len(p) < n for p in plan["past"]) or not plan["past"] or len(plan["init"]) < n:
            raise Invalid("conditions")
        as_list = plan["form"] == "list" and labels == list(range(n))
        vec = lambda v: dict(zip(labels, v))
        hist = {-1: vec(plan["past"][-1]), 0: vec(plan["init"])}

        def at(k):
            while k not in hist:
                hi, lo = max(hist), min(hist)
                if k > hi:
                    hist[hi + 1] = {x: f(hist[hi], x) ^ hist[hi - 1][x] for x in labels}
                else:
                    hist[lo - 1] = {x: f(hist[lo], x) ^ hist[lo + 1][x] for x in labels}
            return hist[k]
        give = (lambda d: [d[x] for x in labels]) if as_list else dict
        rule = ntm.ReversibleRule(base)
        cur, direction = 0, 1
        older = [give(vec(p)) for p in plan["past"][:-1]]
        for i, (back, T) in enumerate(plan["runs"]):
            if i and back:
                # exchange the last two activity vectors
                cur, direction = cur - direction, -direction
                sim.fault("reversal")
            past, now = at(cur - direction), at(cur)
            traj = en.guarded("crash", ntm.evolve, net, initial_conditions=give(now), past_conditions=older + [give(past)],
                              activity_rule=rule, timesteps=T + 1, compression=plan["compression"],
                              update_order=getattr(ntm.UpdateOrder, en.ORDERS[plan["order"]]))
            if len(traj) != T + 1:
                raise Violation("length", "run %d: %d states for %d timesteps" % (i, len(traj), T + 1))
            for t, s in enumerate(traj):
                want = at(cur + t * direction)
                got = s.activities
                if {k: int(v) for k, v in got.items()} != {k: int(v) for k, v in want.items()}:
                    raise Violation("history", "run %d (%s) t=%d, point %d of the history: activities %s, expected %s"
                                    % (i, "forward" if direction > 0 else "backward", t, cur + t * direction, en.acts_view(got),
                                       en.acts_view(want)))
                sim.log(i, t, en.acts_view(want))
            cur += T * direction
            sim.stats["steps"] += T
            sim.state((en.acts_view(at(cur)), en.acts_view(at(cur - direction))))
        if min(hist) < -1:
            sim.probe("beyond_the_start")


WORLD = C17()
