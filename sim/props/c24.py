import itertools
import random

from ..core import Invalid, Violation
from ..world import World
from .. import engine as en, boot, seams
from ..odds import Counts

DIGITS = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"


class Adversary:
    """Decides every draw: uniform numbers, choices and integers."""

    def __init__(self, kind, seed):
        self.kind, self.rng, self.n = kind, random.Random(seed), 0

    def unit(self):
        self.n += 1
        if self.kind == "low":
            return 0.0
        if self.kind == "high":
            return 1 - 2 ** -53
        if self.kind == "alternate":
            return (0.0, 1 - 2 ** -53)[self.n % 2]
        if self.kind == "bursts":
            return 0.0 if (self.n // 7) % 2 else 1 - 2 ** -53
        return self.rng.random()

    def index(self, n):
        return min(n - 1, int(self.unit() * n))

    def py_random(self, f):
        return self.unit()

    def np_random(self, f, *a, **k):
        return f(*a, **k) if a or k else self.unit()

    def py_choice(self, f, seq):
        return seq[self.index(len(seq))]

    def py_randrange(self, f, *a):
        return f(*a) if len(a) != 1 else self.index(a[0])

    def py_randint(self, f, a, b):
        return a + self.index(b - a + 1)

    def np_randint(self, f, low, high=None, size=None, dtype=int):
        if size is not None:
            return f(low, high, size, dtype)
        lo, hi = (0, low) if high is None else (low, high)
        return lo + self.index(hi - lo)

    def np_choice(self, f, a, size=None, **k):
        if size is not None or k:
            return f(a, size, **k)
        return f([a[self.index(len(a))]]) if not isinstance(a, int) else self.index(a)


class C24(World):
    quick_runs = 12000
    thorough_runs = 300000
    rule = ("Random requests for tables (2 to 4 colours, 11 colours at radius 1, radius 0 to 2, any quiescent state, strong quiescence, "
            "isotropy, lambda from 0 to 1) followed by walks through lambda up and down, with every draw decided by an adversary (lowest, "
            "highest, alternating, in bursts, random); in a few runs an honest generator draws many tables, and the frequency of each kind of entry "
            "is held against its probability (Chernoff bound e^-30). Non-trivial: at least one table; distinct by plan.")
    time_unit = "tables made and walked"
    state_measure = "distinct tables"
    real = ["random_rule_table", "table_walk_through", "table_rule"]
    stub = ["outcomes of the draws"]
    assumptions = ["two colours or more; a table that is walked meets the strong quiescence and isotropy asked for"]

    def generate(self, rng, tier):
        if rng.random() < 0.004:
            k, r = rng.choice([(2, 1), (2, 2), (3, 1), (4, 1), (5, 0), (4, 1), (3, 2), (11, 0)])
            return {"fair": rng.randrange(1 << 20), "k": k, "r": r, "lambda": rng.choice([None, None, 0.25, 0.5, rng.random()]),
                    "q": rng.choice([None, None, rng.randrange(k)]), "strong": rng.random() < 0.3, "iso": rng.random() < 0.3}
        k, r = rng.choice([(2, 0), (2, 1), (2, 1), (2, 2), (3, 0), (3, 1), (3, 1), (4, 1), (3, 2), (4, 0), (11, 1), (2, 3)])
        lam = lambda: rng.choice([0.0, 1.0, 0.5, rng.random(), rng.random(), rng.randrange(k ** (2 * r + 1) + 1) / k ** (2 * r + 1)])
        strong, iso = rng.random() < 0.4, rng.random() < 0.4
        return {"k": k, "r": r, "lambda": rng.choice([None, lam(), lam()]), "q": rng.choice([None, rng.randrange(k)]), "strong": strong,
                "iso": iso, "draws": [rng.choice(["low", "high", "alternate", "bursts", "seeded", "seeded"]), rng.randrange(1 << 20)],
                "walks": [[lam(), strong and rng.random() < 0.8, iso and rng.random() < 0.9,
                           rng.choice(["low", "high", "alternate", "seeded", "seeded"])] for _ in range(rng.choice([1, 1, 2, 3] if k < 11 else [0, 1]))],
                "bad": rng.choice([None, None, None, -1, k, k + 3]), "seed": rng.randrange(1 << 20)}

    def fair(self, plan, sim):
        """Many tables and walks under an honest generator: how often each kind of entry came up."""
        import numpy as np
        ntm = boot.load()
        k, r, strong, iso, asked = plan["k"], plan["r"], plan["strong"], plan["iso"], plan["lambda"]
        if not (2 <= k <= 11 and 0 <= r <= 2 and k ** (2 * r + 1) <= 300) or plan["q"] is not None and not (0 <= plan["q"] < k) \
                or asked is not None and not (0 < asked < 1):
            raise Invalid("request")
        np.random.seed(plan["fair"])
        random.seed(plan["fair"])
        lam = 1 - 1 / k if asked is None else asked
        counts = Counts()
        states = ["".join(t) for t in itertools.product(DIGITS[:k], repeat=2 * r + 1)]
        for _ in range(max(60, 6000 // len(states))):
            table, _lam, q = en.guarded("crash", ntm.random_rule_table, k, r, lambda_val=asked, quiescent_state=plan["q"],
                                        strong_quiescence=strong, isotropic=iso)
            if sorted(table) != states:
                raise Violation("states", "fair: %d states instead of %d" % (len(table), len(states)))
            if plan["q"] is None:
                for c in range(k):
                    counts.trial("the quiescent colour %d, none having been asked for," % c, 1 / k, q == c)
            for i, x in enumerate(states):
                if strong and len(set(x)) == 1 or iso and x[::-1] < x:
                    continue
                v = table[x]
                for place in ("", "of the first half of the table" if 2 * i < len(states) else "of the second half of the table"):
                    counts.trial("a quiescent entry " + place, 1 - lam, v == q)
                    if v != q and k > 2:
                        for c in range(k):
                            if c != q:
                                counts.trial("the other colour %d with the quiescent one %s %s" % (c, q, place), 1 / (k - 1), v == c)
        counts.judge("k=%d, r=%d, lambda=%s, strong=%s, isotropic=%s" % (k, r, asked, strong, iso), sim)
        # one step of a walk can go to any entry it may change
        q = 0 if plan["q"] is None else plan["q"]
        for up in (True, False):
            start = {x: int(x[0], 36) if strong and len(set(x)) == 1 else q if up else (q + 1) % k for x in states}
            size = len(states)
            lam0 = sum(1 for v in start.values() if v != q) / size
            free = sorted(x for x in states if (start[x] == q) == up and not (strong and len(set(x)) == 1))
            if not free or len(free) > 130:
                continue
            reached, colours = set(), set()
            for _ in range(40 * len(free)):
                out, _lam = en.guarded("crash", ntm.table_walk_through, dict(start), lam0 + (0.5 if up else -0.5) / size, k, r, q,
                                       strong_quiescence=strong, isotropic=iso)
                for x in free:
                    if out[x] != start[x]:
                        reached.add(x)
                        colours.add(out[x])
            never = [x for x in free if x not in reached]
            if never or up and len(colours) != k - 1:
                raise Violation("not-random", "in %d single steps %s from a table with lambda %s the entries %s were never changed, and colours "
                                "given were %s" % (40 * len(free), "up" if up else "down", lam0, never, sorted(colours)))
        sim.stats["steps"] += 1
        sim.fault("draws_fair")
        sim.state(("fair", sorted(counts.trials.items())))

    def execute(self, plan, sim):
        if "fair" in plan:
            return self.fair(plan, sim)
        import numpy as np
        ntm = boot.load()
        k, r = plan["k"], plan["r"]
        if not (2 <= k <= 16 and 0 <= r <= 3 and k ** (2 * r + 1) <= 3000):
            raise Invalid("size")
        if plan["q"] is not None and not (0 <= plan["q"] < k) or plan["lambda"] is not None and not (0 <= plan["lambda"] <= 1):
            raise Invalid("request")
        np.random.seed(plan["seed"])
        random.seed(plan["seed"])
        seams.S.rng = Adversary(*plan["draws"])
        strong, iso = plan["strong"], plan["iso"]
        if plan["bad"] is not None and not (0 <= plan["bad"] < k):
            sim.fault("invalid_quiescent_state")
            try:
                ntm.random_rule_table(k, r, lambda_val=plan["lambda"], quiescent_state=plan["bad"], strong_quiescence=strong, isotropic=iso)
            except Exception:
                pass
            else:
                raise Violation("invalid-accepted", "the quiescent state %d was accepted for %d colours" % (plan["bad"], k))
        table, lam, q = en.guarded("crash", ntm.random_rule_table, k, r, lambda_val=plan["lambda"], quiescent_state=plan["q"],
                                   strong_quiescence=strong, isotropic=iso)
        if not (0 <= q < k) or plan["q"] is not None and q != plan["q"]:
            raise Violation("quiescent", "the quiescent state is %r, %r was requested (%d colours)" % (q, plan["q"], k))
        q = int(q)
        what = "table (k=%d, r=%d, lambda=%s, quiescent=%s, strong=%s, isotropic=%s)" % (k, r, plan["lambda"], q, strong, iso)
        self.check(table, lam, k, r, q, strong, iso, what)
        free = [s for s in table if not (strong and len(set(s)) == 1)]
        if plan["lambda"] == 0.0 and any(table[s] != q for s in free):
            raise Violation("lambda", "%s: maps %s to another colour" % (what, [s for s in free if table[s] != q][:3]))
        if plan["lambda"] == 1.0 and any(table[s] == q for s in free):
            raise Violation("lambda", "%s: maps %s to the quiescent state" % (what, [s for s in free if table[s] == q][:3]))
        sim.stats["steps"] += 1
        sim.fault("draws_" + plan["draws"][0])
        for i, (target, strong2, iso2, kind) in enumerate(plan["walks"]):
            if not (0 <= target <= 1):
                raise Invalid("walk")
            strong, iso = strong and strong2, iso and iso2
            seams.S.rng = Adversary(kind, plan["seed"] + i)
            sim.fault("walk_draws_" + kind)
            before = dict(table)
            size = k ** (2 * r + 1)
            lam0 = (size - sum(1 for v in before.values() if v == q)) / size
            out, lam1 = en.guarded("crash", ntm.table_walk_through, table, target, k, r, q, strong_quiescence=strong, isotropic=iso)
            what = "walk %d from lambda %s to %s (k=%d, r=%d, quiescent=%s, strong=%s, isotropic=%s)" % (i, lam0, target, k, r, q, strong, iso)
            self.check(out, lam1, k, r, q, strong, iso, what)
            changed = [s for s in before if before[s] != out[s]]
            if lam0 == target and changed:
                raise Violation("walk", "%s: changed %s" % (what, changed[:4]))
            for s in changed:
                if lam0 < target and (before[s] != q or out[s] == q) or lam0 > target and out[s] != q:
                    raise Violation("walk", "%s: %s went from %d to %d" % (what, s, before[s], out[s]))
                if strong and len(set(s)) == 1:
                    raise Violation("walk", "%s: the uniform state %s was changed" % (what, s))
            # it stops exactly when the target is reached or passed: one change (with its mirror image) less, and it is not
            step = max([2 if iso and s != s[::-1] else 1 for s in changed] or [0])
            count = size - sum(1 for v in out.values() if v == q)
            back = (count - step) / size if lam0 < target else (count + step) / size
            if changed and (back >= target if lam0 < target else back <= target):
                raise Violation("overshoot", "%s: went on to %s" % (what, lam1))
            if (lam1 < target) if lam0 < target else (lam1 > target):
                left = [s for s in out if (out[s] == q) == (lam0 < target) and not (strong and len(set(s)) == 1)]
                if left:
                    raise Violation("stopped-short", "%s: stopped at %s although %s could still change" % (what, lam1, left[:3]))
                sim.probe("walk_exhausted")
            else:
                sim.probe("walk_reached")
            sim.stats["steps"] += 1
            table = out
            sim.log(what, lam1, sorted(table.items()))
        rule = ntm.table_rule(table)
        for s in random.Random(plan["seed"]).sample(sorted(table), min(4, len(table))):
            class Ctx:
                neighbourhood_activities = [int(c, 36) for c in s]
            if en.plain(rule(Ctx)) != table[s]:
                raise Violation("lookup", "the table maps %s to %r, its rule to %r" % (s, table[s], rule(Ctx)))
        sim.state(sorted(table.items()))

    def check(self, table, lam, k, r, q, strong, iso, what):
        n = 2 * r + 1
        want = {"".join(t) for t in itertools.product(DIGITS[:k], repeat=n)}
        if set(table) != want:
            raise Violation("states", "%s: %d states missing (%s), %d foreign (%s)" % (what, len(want - set(table)), sorted(want - set(table))[:3],
                                                                                   len(set(table) - want), sorted(set(table) - want)[:3]))
        for s, v in table.items():
            if isinstance(v, bool) or not (v == int(v) and 0 <= v < k):
                raise Violation("colour", "%s: %s maps to %r" % (what, s, v))
            if strong and len(set(s)) == 1 and v != int(s[0], 36):
                raise Violation("strong-quiescence", "%s: %s maps to %d" % (what, s, v))
            if iso and table[s[::-1]] != v:
                raise Violation("isotropy", "%s: %s maps to %d, %s to %d" % (what, s, v, s[::-1], table[s[::-1]]))
        actual = (k ** n - sum(1 for v in table.values() if v == q)) / k ** n
        if abs(lam - actual) > 1e-12:
            raise Violation("lambda", "%s: lambda %r was reported, the actual one is %r" % (what, lam, actual))


WORLD = C24()
