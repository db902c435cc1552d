"""Frequencies under an honest generator, held against probabilities."""
import math

from .core import Violation

LIMIT = 30     # a deviation is a violation when its probability is below e^-30


def bound(n, hits, p):
    """Chernoff: the probability of a deviation like this one is at most e to the minus this."""
    if p in (0, 1):
        return 0 if hits == n * p else float("inf")
    q = hits / n
    part = lambda a, b: a * math.log(a / b) if a else 0
    return n * (part(q, p) + part(1 - q, 1 - p))


class Counts:
    def __init__(self):
        self.trials = {}

    def trial(self, what, p, hit):
        x = self.trials.setdefault((what, p), [0, 0])
        x[0] += 1
        x[1] += bool(hit)

    def judge(self, where, sim):
        for (what, p), (n, hits) in sorted(self.trials.items()):
            sim.log(what, n, hits)
            if bound(n, hits, p) > LIMIT:
                raise Violation("unfair", "%s: %s came up %d times out of %d, its probability is %s" % (where, what, hits, n, p))
