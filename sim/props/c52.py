import math
import random
from collections import Counter

import numpy as np

from ..core import Injected, Invalid, Violation
from ..world import World
from .. import engine as en, boot


def entropy(seq):
    """Shannon's, in bits."""
    n = len(seq)
    return -sum(c / n * math.log2(c / n) for c in Counter(seq).values())


class C52(World):
    quick_runs = 18000
    thorough_runs = 300000
    rule = ("Histories recorded under cell damage, crashes and resumption (activities in the caller's or the network's order, compressed or "
            "not), and plain sequences, measured as trajectories, lists and arrays; every measure is compared with its definition evaluated on "
            "what each node really did. Non-trivial: at least one measure; distinct by plan.")
    time_unit = "timesteps (steps) and measures"
    state_measure = "distinct histories"
    real = ["shannon_entropy, joint_shannon_entropy, mutual_information", "average_node_entropy, average_mutual_information",
            "get_activities_over_time_as_list", "netomaton.evolve"]
    assumptions = ["states are single characters (the measures read them from strings); the same nodes throughout; agreement to 1e-9"]

    def generate(self, rng, tier):
        n, k = rng.choice([1, 2, 3, 5, 9, 14]), rng.choice([1, 2, 2, 3, 5, 10])
        T = rng.choice([1, 2, 3, 5, 9, 20, 40])
        return {"n": n, "k": k, "T": T, "seed": rng.randrange(1 << 20), "labels": rng.choice(["int", "shuffled", "str", "float"]),
                "links": [[rng.randrange(n), rng.randrange(n)] for _ in range(rng.randrange(3 * n))], "letters": rng.random() < 0.3,
                "damage": [[rng.randrange(1, T + 1), rng.randrange(n), rng.randrange(k)] for _ in range(rng.choice([0, 0, 2, 10]))],
                "crash": [rng.randrange(1, T + 1), rng.randrange(n)] if rng.random() < 0.4 else None, "compression": rng.random() < 0.25,
                "distances": [rng.choice([1, 1, 2, 3, T - 1, T - 2, n, n - 1, rng.randrange(1, T + 1)]) for _ in range(3)],
                "bad": rng.choice([None, None, 0, -1, T, T + 3]), "form": rng.choice(["trajectory", "trajectory", "list", "array", "tuples"]),
                "strings": [rng.choice(["", "b", "aab", "0101", "".join(rng.choice("01") for _ in range(rng.randrange(1, 40))),
                                        "".join(rng.choice("aABcbC é9") for _ in range(rng.randrange(1, 12)))]) for _ in range(2)]}

    def same(self, name, got, want, what):
        if not isinstance(got, (float, int, np.floating)) or abs(got - want) > 1e-9:
            raise Violation(name, "%s: is %r, by definition %r" % (what, got, want))

    def measures(self, ntm, X, Y):
        self.same("entropy", ntm.shannon_entropy(X), entropy(X), "the entropy of %r" % (X,))
        if len(X) == len(Y):
            joint = entropy(list(zip(X, Y)))
            what = "%r and %r" % (X, Y)
            self.same("joint-entropy", ntm.joint_shannon_entropy(X, Y), joint, "the joint entropy of " + what)
            self.same("mutual-information", ntm.mutual_information(X, Y), entropy(X) + entropy(Y) - joint, "the mutual information of " + what)

    def execute(self, plan, sim):
        ntm = boot.load()
        sim.budget = 30000
        p = plan
        n, k, T = p["n"], p["k"], p["T"]
        if n < 1 or not 1 <= k <= 10 or T < 1:
            raise Invalid("size")
        X, Y = p["strings"][0] or "x", p["strings"][1] or "y"
        m = min(len(X), len(Y))
        self.measures(ntm, X, Y)
        self.measures(ntm, X[:m], Y[:m])
        traj, rows = self.history(ntm, p, sim)
        data = {"trajectory": lambda: traj, "list": lambda: [list(r) for r in rows], "array": lambda: np.array(rows),
                "tuples": lambda: tuple(tuple(r) for r in rows)}[p["form"]]()
        if not isinstance(rows[0][0], str) and p["form"] == "array":
            pass
        got = ntm.get_activities_over_time_as_list(traj)
        if got != rows:
            t = [t for t, (a, b) in enumerate(zip(got, rows)) if a != b][:1]
            raise Violation("activities", "the activities over time differ at %s: %s, recorded were %s" % (t, [got[i] for i in t], [rows[i] for i in t]))
        columns = ["".join(str(r[i]) for r in rows) for i in range(n)]
        what = "of %s (%s)" % (en.short(columns, 200), p["form"])
        self.same("average-entropy", ntm.average_node_entropy(data), sum(map(entropy, columns)) / n, "the average node entropy " + what)
        for d in p["distances"]:
            if not 0 < d < T:
                sim.probe("distance_out_of_range")
                self.refused(ntm, data, d, T)
                continue
            want = sum(entropy(c[:-d]) + entropy(c[d:]) - entropy(list(zip(c[:-d], c[d:]))) for c in columns) / n
            got = ntm.average_mutual_information(data, temporal_distance=d) if d != 1 or p["seed"] % 2 else ntm.average_mutual_information(data)
            self.same("average-information", got, want, "the average mutual information at distance %d %s" % (d, what))
            sim.stats["measures"] += 1
        if p["bad"] is not None:
            self.refused(ntm, data, p["bad"], T)
            sim.fault("invalid_distance")
        for f in (ntm.average_node_entropy, ntm.average_mutual_information):
            try:
                f([])
            except Exception:
                continue
            raise Violation("not-refused", "%s accepted a history without activities" % f.__name__)
        now = [[s.activities[x] for x in sorted(s.activities)] for s in traj]
        if now != rows or (p["form"] == "list" and data != [list(r) for r in rows]):
            raise Violation("altered", "measuring altered the history")
        sim.stats["measures"] += 3
        sim.state(rows)
        sim.log(rows)

    def refused(self, ntm, data, d, T):
        if 0 < d < T:
            return
        try:
            ntm.average_mutual_information(data, temporal_distance=d)
        except Exception:
            return
        raise Violation("not-refused", "a temporal distance of %d was accepted for %d timesteps" % (d, T))

    def history(self, ntm, p, sim):
        n, k, T = p["n"], p["k"], p["T"]
        rng = random.Random(p["seed"])
        names = list(range(n)) if p["labels"] == "int" else rng.sample(range(3 * n), n) if p["labels"] == "shuffled" else \
            [x / 4 for x in rng.sample(range(3 * n), n)] if p["labels"] == "float" else ["s%02d" % x for x in rng.sample(range(90), n)]
        sym = (lambda x: "abcdefghij"[x]) if p["letters"] else (lambda x: x)
        order = names[:]
        rng.shuffle(order)
        net = ntm.Network()
        for x in order:
            net.add_node(x)
        links = [(names[a % n], names[b % n]) for a, b in p["links"]]
        for a, b in links:
            net.add_edge(a, b)
        into = {x: [] for x in names}
        for a, b in dict.fromkeys(links):
            into[b].append(a)
        damage = {}
        for t, i, v in p["damage"]:
            if i >= n or not 0 <= v < k:
                raise Invalid("damage")
            damage[(t, names[i])] = v
        num = (lambda v: "abcdefghij".index(v)) if p["letters"] else int
        shuffled = names[:]
        rng.shuffle(shuffled)
        acts = {x: rng.randrange(k) for x in shuffled}
        states = [dict(acts)]
        for t in range(1, T):
            old = states[-1]
            states.append({x: damage.get((t, x), (old[x] + 3 * sum(old[y] for y in into[x]) + t) % k) for x in names})
        crash = [p["crash"][0], names[p["crash"][1] % n]] if p["crash"] else None
        traj, t0 = [], 0
        while t0 < T - 1 or not traj:
            def rule(ctx):
                sim.spend()
                if crash and [ctx.timestep + t0, ctx.node_label] == crash:
                    raise Injected("crash")
                return sym((num(ctx.current_activity) + 3 * sum(map(num, ctx.neighbourhood_activities)) + ctx.timestep + t0) % k)

            def go(steps):
                ic = traj[-1].activities if traj else {x: sym(v) for x, v in acts.items()}
                return ntm.evolve(net, initial_conditions=ic, activity_rule=rule, timesteps=steps, compression=p["compression"],
                                  perturbation=lambda c: sym(damage[(c.timestep + t0, c.node_label)])
                                  if (c.timestep + t0, c.node_label) in damage else c.node_activity)
            until = T - 1
            if crash and t0 < crash[0] <= T - 1:
                try:
                    go(T - t0)
                except Injected:
                    sim.fault("crash_in_timestep")
                else:
                    raise Violation("swallowed", "the rule failed, but the evolution went on")
                until = crash[0] - 1
                crash = None
                if until == t0 and traj:
                    continue
            out = en.guarded("crash", go, until - t0 + 1)
            traj += out[1:] if traj else out
            t0 = until
        sim.stats["steps"] += T
        sim.faults["cell_damaged"] += sum(1 for t, _ in damage if t < T)
        rows = [[sym(s[x]) for x in sorted(names)] for s in states]
        if len(traj) != T:
            raise Violation("length", "%d states for %d timesteps" % (len(traj), T))
        return traj, rows


WORLD = C52()
