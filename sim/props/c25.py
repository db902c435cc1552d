import random
from collections import Counter

from ..core import Invalid, Violation
from ..world import World
from ..odds import Counts
from .. import engine as en, boot, seams


class C25(World):
    quick_runs = 18000
    thorough_runs = 300000
    rule = ("Random requests for initial conditions (sizes, colours, number of random sites, empty values, integer and float types, "
            "invalid sizes) and majority votes (alone and inside an evolution of nodes joined by random links), each repeated under many "
            "generator seeds. Non-trivial: at least one request; distinct by plan.")
    time_unit = "requests answered and votes taken"
    state_measure = "distinct results"
    real = ["init_random", "init_simple", "init_simple2d", "majority_rule", "netomaton.evolve"]
    assumptions = ["activities of a vote are of one type: numbers or strings; k >= 2; a possible outcome is demanded only when the chance of "
                   "missing it is below 1e-15"]

    def generate(self, rng, tier):
        reqs = []
        for _ in range(rng.choice([1, 2, 4])):
            kind = rng.choice(["random", "random", "float", "simple", "simple2d", "invalid", "vote", "vote", "vote", "voting"] * 8 + ["often"])
            size = rng.choice([0, 1, 2, 3, 4, 5, 8, 13, 40, 200])
            k = rng.choice([1, 2, 2, 2, 3, 5, 10, 256, 300, 1000])
            seed = rng.randrange(1 << 30)
            if kind in ("random", "float"):
                reqs.append([kind, size, k, rng.choice([None, rng.randrange(size + 1), rng.randrange(size + 1), 0, size]),
                             rng.choice([0, 0, -7, 999, 1]), rng.choice(["int", "int64", "int32", "int16"]), seed])
            elif kind == "simple":
                reqs.append([kind, max(1, size), rng.choice([None, 1, 3, -2, 100]), seed])
            elif kind == "simple2d":
                reqs.append([kind, rng.randrange(1, 9), rng.randrange(1, 9), rng.choice([None, 1, 5, -1]), seed])
            elif kind == "often":
                reqs.append([kind, rng.choice([1, 2, 5, 9]), rng.choice([2, 2, 3, 5, 10, 300, 1000]), rng.random() < 0.3, seed])
            elif kind == "invalid":
                reqs.append([kind, size, k, rng.choice([-1, -5, size + 1, size + 10]), seed])
            else:
                values = rng.choice([[0, 1], [0, 1, 2], [5, -3, 12, 7], ["a", "b", "cc"], [0.5, 1.5, 2.25], [True, False], [1, 1.0, 2]])
                acts = [rng.choice(values) for _ in range(rng.choice([1, 2, 3, 4, 5, 6, 9]))]
                if kind == "vote":
                    reqs.append([kind, acts, rng.choice([3, 80]), seed])
                else:
                    n = len(acts)
                    reqs.append([kind, acts, [[rng.randrange(n), rng.randrange(n)] for _ in range(rng.randrange(1, 3 * n + 1))], rng.choice([2, 4, 8]), seed])
        return {"requests": reqs}

    def execute(self, plan, sim):
        import numpy as np
        ntm = boot.load()
        for req in plan["requests"]:
            np.random.seed(req[-1])
            random.seed(req[-1])
            getattr(self, "do_" + req[0])(ntm, req, sim)
            sim.stats["steps"] += 1

    def do_random(self, ntm, req, sim, float_=False):
        import numpy as np
        _, size, k, nr, empty, dtype, seed = req
        if nr is not None and not (0 <= nr <= size) or k < 1:
            raise Invalid("size")
        kw = {}
        if nr is not None:
            kw["n_randomized"] = nr
        if empty != 0:
            kw["empty_value"] = empty
        dt = np.float64 if float_ else {"int": int, "int64": np.int64, "int32": np.int32, "int16": np.int16}[dtype]
        if float_ or dtype != "int":
            kw["dtype"] = dt
        if k != 2:
            kw["k"] = k
        x = en.guarded("crash", ntm.init_random, size, **kw)
        what = "init_random(%d, k=%d, n_randomized=%s, empty_value=%s, %s)" % (size, k, nr, empty, dt)
        m = size if nr is None else nr
        if len(x) != size:
            raise Violation("size", "%s: %d values" % (what, len(x)))
        ok = lambda v: not isinstance(v, bool) and (isinstance(v, float) and (0 <= v < k - 1 or k == 1 and v == 0) if float_ else isinstance(v, (int, np.integer)) and 0 <= v < k)
        left = (size - m) // 2
        fits = False
        for l in {left, size - m - left}:
            fits = fits or all(ok(v) for v in x[l:l + m]) and all(v == empty for v in x[:l] + x[l + m:])
        if not fits:
            raise Violation("sites", "%s: %s" % (what, x))
        rnd = x[left:left + m]
        if not float_ and m >= 40 * k and (empty < 0 or empty >= k):
            if set(rnd) - {empty} != set(range(k)):
                raise Violation("colours", "%s: the colours %s never occur" % (what, sorted(set(range(k)) - set(rnd))))
            sim.probe("all_colours")
        if float_ and m >= 100 and (max(rnd) < (k - 1) * 0.6 or min(rnd) > (k - 1) * 0.4):
            raise Violation("range", "%s: the values lie between %s and %s" % (what, min(rnd), max(rnd)))
        sim.state(x)
        sim.log(what, x)

    def do_often(self, ntm, req, sim):
        """Every value comes up equally often at every site."""
        import numpy as np
        _, size, k, real, seed = req
        if size < 1 or k < 2:
            raise Invalid("size")
        counts, kw = Counts(), {} if k == 2 else {"k": k}
        if real:
            kw["dtype"] = np.float64
        if real:
            parts = [("a value in quarter %d" % c, 0.25, lambda v, c=c: c <= 4 * v / (k - 1) < c + 1) for c in range(4)]
        elif k <= 10:
            parts = [("the value %d" % c, 1 / k, lambda v, c=c: v == c) for c in range(k)]
        else:
            parts = [("a value in slice %d of 8" % c, sum(8 * v // k == c for v in range(k)) / k, lambda v, c=c: 8 * v // k == c) for c in range(8)]
        for _ in range(400):
            x = en.guarded("crash", ntm.init_random, size, **kw)
            if len(x) != size:
                raise Violation("size", "init_random(%d, %s): %d values" % (size, kw, len(x)))
            for i, v in enumerate(x):
                for name, p, of in parts:
                    counts.trial(name, p, of(v))
                    counts.trial("%s at site %d" % (name, i), p, of(v))
                if i and not real:
                    counts.trial("the value of the site before", 1 / k, v == x[i - 1])
        counts.judge("init_random(%d, %s)" % (size, kw), sim)
        sim.fault("draws_fair")

    def do_float(self, ntm, req, sim):
        self.do_random(ntm, req, sim, True)

    def do_invalid(self, ntm, req, sim):
        _, size, k, nr, seed = req
        if 0 <= nr <= size:
            raise Invalid("size")
        sim.fault("invalid_size")
        try:
            x = ntm.init_random(size, k=k, n_randomized=nr)
        except Exception:
            return
        raise Violation("invalid-accepted", "init_random(%d, n_randomized=%d) gave %s" % (size, nr, x))

    def do_simple(self, ntm, req, sim):
        _, size, val, seed = req
        if size < 1:
            raise Invalid("size")
        x = en.guarded("crash", ntm.init_simple, size) if val is None else en.guarded("crash", ntm.init_simple, size, val=val)
        v = 1 if val is None else val
        where = [i for i, y in enumerate(x) if y != 0]
        if len(x) != size or len(where) != 1 or x[where[0]] != v or where[0] not in ((size - 1) // 2, size // 2):
            raise Violation("simple", "init_simple(%d, %s) gave %s" % (size, val, x))
        sim.log(x)

    def do_simple2d(self, ntm, req, sim):
        _, rows, cols, val, seed = req
        if rows < 1 or cols < 1:
            raise Invalid("size")
        x = en.guarded("crash", ntm.init_simple2d, rows, cols) if val is None else en.guarded("crash", ntm.init_simple2d, rows, cols, val=val)
        v = 1 if val is None else val
        where = [divmod(i, cols) for i, y in enumerate(x) if y != 0]
        if len(x) != rows * cols or len(where) != 1 or x[where[0][0] * cols + where[0][1]] != v \
                or where[0][0] not in ((rows - 1) // 2, rows // 2) or where[0][1] not in ((cols - 1) // 2, cols // 2):
            raise Violation("simple", "init_simple2d(%d, %d, %s) gave %s" % (rows, cols, val, x))
        sim.log(x)

    @staticmethod
    def verdict(acts):
        c = Counter(acts)
        top = max(c.values())
        return [v for v in c if c[v] == top]

    def do_vote(self, ntm, req, sim):
        _, acts, trials, seed = req
        if not acts:
            raise Invalid("acts")
        best = self.verdict(acts)

        class Ctx:
            neighbourhood_activities = list(acts)
            neighbour_labels = list(range(len(acts)))
            current_activity = acts[0]
            node_label, timestep = 0, 1
        got = [en.plain(en.guarded("crash", ntm.rules.majority_rule, Ctx)) for _ in range(trials)]
        self.judge(acts, best, got)
        # a tied activity has at least one site in nine, so the chance of missing it in 80 * 4 votes is below 1e-15
        if len(best) > 1 and trials >= 80:
            for _ in range(3 * trials):
                got.append(en.plain(ntm.rules.majority_rule(Ctx)))
            self.judge(acts, best, got)
            missing = [b for b in best if b not in got]
            if missing:
                raise Violation("tie", "votes on %s never give %s" % (acts, missing))
            sim.probe("all_ties")
        if Ctx.neighbourhood_activities != acts:
            raise Violation("altered", "the vote changed the activities %s to %s" % (acts, Ctx.neighbourhood_activities))
        sim.state((acts, got[0]))
        sim.log(acts, got)

    @staticmethod
    def judge(acts, best, got):
        for g in got:
            if len(best) == 1 and g != best[0]:
                raise Violation("majority", "the vote on %s gave %r" % (acts, g))
            if g not in acts:
                raise Violation("majority", "the vote on %s gave %r, which nobody holds" % (acts, g))

    def do_voting(self, ntm, req, sim):
        _, acts, links, T, seed = req
        n = len(acts)
        if not acts or T < 1 or any(max(l) >= n for l in links):
            raise Invalid("links")
        net = ntm.Network(n)
        for i in range(n):
            net.add_edge(i, i)
        for i, j in links:
            net.add_edge(i, j)
        traj = en.guarded("crash", ntm.evolve, net, initial_conditions=list(acts), activity_rule=ntm.rules.majority_rule, timesteps=T)
        for t in range(1, len(traj)):
            a, b = traj[t - 1].activities, traj[t].activities
            for j in range(n):
                held = [en.plain(a[i]) for i in sorted({i for i, jj in links if jj == j} | {j})]
                self.judge(held, self.verdict(held), [en.plain(b[j])])
        sim.stats["steps"] += T
        sim.log([sorted(s.activities.items()) for s in traj])


WORLD = C25()
