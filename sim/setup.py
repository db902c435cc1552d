"""python -m sim.setup   checks that the simulator can run here: interpreter, imports, seams. Builds nothing (pure Python)."""
from . import boot
if __name__ == "__main__":
    boot.reexec_if_needed("sim.setup")

import os
import sys

from . import seams


def main():
    ntm = boot.load()
    import msgpack
    import random
    assert msgpack.packb is not seams.real["packb"] and random.random is not seams.real["py_random"]
    for d in ("evidence", "replays"):
        os.makedirs(os.path.join(boot.VERIF, d), exist_ok=True)
    print("netomaton %s from %s on Python %s: ready" % (ntm.__version__, os.path.dirname(ntm.__file__), sys.version.split()[0]))


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    os._exit(0)
