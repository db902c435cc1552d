"""python -m sim.replay FILE   re-executes a replay file; exit 1 and a VIOLATION line if it reproduces, 0 if it does not."""
from . import boot
if __name__ == "__main__":
    boot.reexec_if_needed("sim.replay")

import json
import os
import sys

from . import core
from .check import load_world


def main():
    with open(sys.argv[1]) as f:
        body = json.load(f)
    world = load_world(body["property"])
    if body.get("kind") == "batch":
        return world.replay(body, sys.argv[1])
    for i, plan in enumerate(body["plans"]):
        sim, v = core.run_plan(world, plan, record=True)
        if v is not None:
            for e in sim.trace[-60:]:
                print("  ", e[:400])
            print("violation class=%s digest=%s (recorded: class=%s digest=%s)"
                  % (v.cls, sim.digest(), body["class"], body.get("digest")))
            print(v.message[:4000])
            print("VIOLATION property=%s replay=%s" % (body["property"], sys.argv[1]))
            return 1
    print("not reproduced")
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
