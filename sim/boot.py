"""Process bootstrap: pin everything about the interpreter that could make a run differ, then import netomaton from the
repository's working tree with the seams in place. Import this module first."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"

PINNED = {
    "MPLBACKEND": "Agg",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "NPY_DISABLE_CPU_FEATURES": "AVX2 FMA3 AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL",
    "PYTHONWARNINGS": "ignore",
}


def environment(hashseed="0"):
    env = dict(os.environ)
    env.update(PINNED)
    env["PYTHONHASHSEED"] = str(hashseed)
    env.setdefault("MPLCONFIGDIR", "/opt/vp/mplconfig" if os.path.isdir("/opt/vp/mplconfig") else "/tmp")
    # a stale .pyc could hide an edit of the same size in the same second: never read any
    env["PYTHONPYCACHEPREFIX"] = "/nonexistent/verif-no-pycache"
    return env


def reexec_if_needed(argv_module):
    """Re-executes the interpreter unless it already runs with the pinned environment."""
    if os.environ.get("VERIF_BOOTED") == "1":
        return
    env = environment(os.environ.get("VERIF_HASHSEED", "0"))
    env["VERIF_BOOTED"] = "1"
    env["PYTHONPATH"] = VERIF
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, "-W", "ignore", "-m", argv_module] + sys.argv[1:], env)


_ntm = None


def load():
    """Imports netomaton from the repository's working tree. Heavy third-party imports come first, un-instrumented; the
    lock seam is in place while netomaton itself is imported, so that module-level locks are simulated ones."""
    global _ntm
    if _ntm is not None:
        return _ntm
    import warnings
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    import msgpack, networkx, numpy, scipy.sparse  # noqa: F401,E401
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot, matplotlib.animation, matplotlib.collections, matplotlib.patches  # noqa: F401,E401
    import collections, random, threading, webbrowser, statistics, copy  # noqa: F401,E401
    sys.path.insert(0, REPO)
    from . import seams
    seams.install_before_import()
    try:
        import netomaton
    finally:
        seams.install_after_import()
    if not os.path.abspath(netomaton.__file__).startswith(os.path.join(os.path.abspath(REPO), "")):
        raise RuntimeError("netomaton was imported from %s, not from %s" % (netomaton.__file__, REPO))
    warnings.simplefilter("ignore")
    _ntm = netomaton
    return _ntm
