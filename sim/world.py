"""Base class of the simulated worlds."""


class World:
    quick_runs = 2000
    thorough_runs = 100000
    rule = ""
    time_unit = "timesteps (steps) and callback invocations"
    state_measure = "CRC-32 of the canonical states visited"
    real = ["all of netomaton"]
    stub = []
    assumptions = []

    def generate(self, rng, tier):
        raise NotImplementedError

    def execute(self, plan, sim):
        raise NotImplementedError

    def directed(self):
        """Plans for corner cases, executed before the seeded ones."""
        return []
