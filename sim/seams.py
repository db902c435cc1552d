"""The seams between netomaton and everything nondeterministic or fallible.

netomaton has no hooks of its own; every seam is a module attribute it (or a library it uses) looks up:
  - msgpack.packb / msgpack.unpackb      memory: copying, compressing and decompressing can run out of it
  - random.* / numpy.random.*            randomness: an adversary can choose the outcome of any draw
  - threading.Lock / threading.RLock     synchronization: locks become scheduling points of the simulated scheduler
  - builtins.open / io.open, webbrowser  disk and browser (see props/c27)
  - matplotlib timers, canvas, plt.show  display clock (see props/c26)
The wrappers delegate to the real functions unless the current run says otherwise."""
import random as _random
import threading as _threading

real = {}


class _Seam:
    """What the current run has installed; one run at a time per process."""
    pack = None       # callable(obj) or None; may raise
    unpack = None     # callable(packed) or None; may raise
    rng = None        # object with optional methods named like the wrapped function, or None
    rng_calls = 0
    pack_calls = 0
    unpack_calls = 0


S = _Seam()


def reset():
    S.pack = S.unpack = S.rng = None
    S.rng_calls = S.pack_calls = S.unpack_calls = 0


def _wrap_pack(f):
    def packb(o, *a, **k):
        S.pack_calls += 1
        if S.pack is not None:
            S.pack(o)
        return f(o, *a, **k)
    return packb


def _wrap_unpack(f):
    def unpackb(packed, *a, **k):
        S.unpack_calls += 1
        if S.unpack is not None:
            S.unpack(packed)
        return f(packed, *a, **k)
    return unpackb


def _wrap_rng(kind, name, f):
    key = kind + "_" + name

    def draw(*a, **k):
        S.rng_calls += 1
        h = getattr(S.rng, key, None) if S.rng is not None else None
        if h is not None:
            return h(f, *a, **k)
        return f(*a, **k)
    draw.__name__ = name
    return draw


PY_RNG = ["random", "choice", "shuffle", "randint", "randrange", "sample", "uniform"]
NP_RNG = ["random", "random_sample", "rand", "randint", "choice", "shuffle", "permutation", "uniform"]


# ---- locks ------------------------------------------------------------------------------------------------------------
_real_Lock = _threading.Lock
_real_RLock = _threading.RLock
scheduler = None   # the running thread scheduler (sim.threads), or None


class SimLock:
    """A lock that, inside a thread simulation, blocks and wakes simulated threads instead of real ones."""

    def __init__(self, reentrant=False):
        self._reentrant = reentrant
        self._real = _real_RLock() if reentrant else _real_Lock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        s = scheduler
        me = s.current_thread_id() if s is not None else None
        if me is None:
            return self._real.acquire(blocking, timeout)
        while self._owner is not None and not (self._reentrant and self._owner == me):
            if not blocking or timeout >= 0:
                return False
            s.block_on(self)
        self._owner = me
        self._count += 1
        s.acquired(self)
        return True

    def release(self):
        s = scheduler
        me = s.current_thread_id() if s is not None else None
        if me is None:
            return self._real.release()
        if self._owner is None or (self._reentrant and self._owner != me):
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            s.unblock(self)

    def locked(self):
        return self._owner is not None or (not self._reentrant and self._real.locked())

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # threading.Condition uses these when present
    def _is_owned(self):
        s = scheduler
        me = s.current_thread_id() if s is not None else None
        if me is None:
            return self._real._is_owned() if self._reentrant else self._real.locked()
        return self._owner == me

    def _at_fork_reinit(self):
        self._real._at_fork_reinit()


def install_before_import():
    import msgpack
    import numpy as np
    real["packb"], real["unpackb"] = msgpack.packb, msgpack.unpackb
    msgpack.packb, msgpack.unpackb = _wrap_pack(msgpack.packb), _wrap_unpack(msgpack.unpackb)
    for n in PY_RNG:
        real["py_" + n] = getattr(_random, n)
        setattr(_random, n, _wrap_rng("py", n, getattr(_random, n)))
    for n in NP_RNG:
        real["np_" + n] = getattr(np.random, n)
        setattr(np.random, n, _wrap_rng("np", n, getattr(np.random, n)))
    _threading.Lock = lambda: SimLock(False)
    _threading.RLock = lambda: SimLock(True)


def install_after_import():
    _threading.Lock = _real_Lock
    _threading.RLock = _real_RLock


class locks_simulated:
    """While active, locks the code under test creates are simulated ones too."""
    def __enter__(self):
        _threading.Lock = lambda: SimLock(False)
        _threading.RLock = lambda: SimLock(True)

    def __exit__(self, *a):
        install_after_import()
