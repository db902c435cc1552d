"""python -m sim.digests PROPERTY TIER SEED INDEX...   prints the digests of the given runs as JSON (determinism checks)."""
from . import boot
if __name__ == "__main__":
    boot.reexec_if_needed("sim.digests")

import json
import os
import sys

from . import core
from .check import load_world


def main():
    prop, tier, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
    world = load_world(prop)
    out = {}
    for i in map(int, sys.argv[4:]):
        sim, _ = core.run_plan(world, world.generate(core.plan_rng(seed, prop, i), tier))
        out[i] = sim.digest()
    print(json.dumps(out))


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    os._exit(0)
