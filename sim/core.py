"""The simulation core: plans, runs, violations, batches over worker processes, shrinking, replay files, evidence.

A *plan* is a JSON value. `generate(rng, tier)` draws one from a PRNG seeded by VERIF_SEED, the property and the index of
the run; `execute(plan, sim)` is a pure function of the plan and the code under test, and raises Violation. All choices
(schedules, fault points, callback programs, outcomes of random draws) are in the plan or derived from numbers in it."""
import copy
import gc
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback
import zlib
from collections import Counter


class Violation(Exception):
    """The property does not hold. `cls` is the violation class, which shrinking and replay must preserve."""

    def __init__(self, cls, message):
        super().__init__("%s: %s" % (cls, message))
        self.cls = cls
        self.message = message


class Invalid(Exception):
    """The plan is outside the property's domain (only shrinking produces such plans)."""


class NoProgress(BaseException):
    """The run used up its CPU or callback budget: the system does not terminate."""


class Injected(Exception):
    """An injected callback failure."""


class InjectedMemoryError(MemoryError):
    """An injected allocation failure."""


class InjectedInterrupt(KeyboardInterrupt):
    """An injected interrupt."""


INJECTED = (Injected, InjectedMemoryError, InjectedInterrupt)


class Sim:
    """One simulated run."""

    def __init__(self, record=False):
        self.stats = Counter()
        self.faults = Counter()
        self.states = set()
        self.record = record
        self.trace = []
        self._digest = hashlib.sha256()
        self.budget = None

    def log(self, *event):
        """Adds an event to the run's log (a digest, and the events themselves when recording)."""
        text = repr(event)
        self._digest.update(text.encode())
        if self.record and len(self.trace) < 4000:
            self.trace.append(text)

    def digest(self):
        return self._digest.hexdigest()[:24]

    def fault(self, kind):
        self.faults[kind] += 1

    def probe(self, name):
        self.stats["probe:" + name] += 1

    def state(self, value):
        if len(self.states) < 4000:
            self.states.add(zlib.crc32(repr(value).encode()))

    def spend(self, n=1):
        """Bounds the number of callback invocations of a run."""
        if self.budget is not None:
            self.budget -= n
            if self.budget < 0:
                raise NoProgress("callback budget exhausted")


def crc(*values):
    return zlib.crc32(repr(values).encode())


CPU_LIMIT = 30.0   # far above what any run needs (a few hundred milliseconds)


def _on_alarm(signum, frame):
    raise NoProgress("CPU budget exhausted")


def raised_by_system(e):
    """Whether an error that a world did not expect came out of the code under test, rather than out of the harness."""
    from . import boot
    sut, harness = os.path.join(os.path.abspath(boot.REPO), "netomaton", ""), os.path.join(boot.VERIF, "")
    files = [f.f_code.co_filename for f, _ in traceback.walk_tb(e.__traceback__)]
    mine = [f for f in files if f.startswith((sut, harness))]
    return bool(mine) and mine[-1].startswith(sut)


def run_plan(world, plan, record=False):
    """Executes one plan. Returns (sim, violation or None)."""
    from . import seams
    sim = Sim(record)
    seams.reset()
    violation = None
    old = signal.signal(signal.SIGPROF, _on_alarm)
    # user CPU only, so that a loaded machine does not matter
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        world.execute(copy.deepcopy(plan), sim)
    except Violation as v:
        violation = v
    except NoProgress as e:
        violation = Violation("no-progress", "the run did not finish within its budget (%s)" % e)
    except Invalid:
        raise
    except Exception as e:
        if not raised_by_system(e):
            if isinstance(e, (OSError, MemoryError, ImportError)) or type(e) is RuntimeError:
                raise   # the machinery's own trouble
            # what the system handed out is of a kind that the judgement cannot even look at
            violation = Violation("unjudgeable", "what came out cannot be judged: %s: %s\n%s"
                                  % (type(e).__name__, e, traceback.format_exc()[-1500:]))
        else:
            violation = Violation("unexpected-error", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        seams.reset()
        seams.scheduler = None
        if not gc.isenabled():
            gc.enable()
    if violation is not None:
        sim.log("violation", violation.cls)
    return sim, violation


def plan_rng(seed, prop, index):
    return random.Random("%s:%s:%s" % (seed, prop, index))


# ---- batches ---------------------------------------------------------------------------------------------------------

def _worker(world, prop, seed, tier, indices, deadline, fd, keep_digests):
    out = {"runs": 0, "stats": Counter(), "faults": Counter(), "states": set(), "digests": {}, "violation": None,
           "error": None, "capped": False, "samples": [], "plans": 0, "plan_hashes": set(), "nontrivial": 0}
    try:
        for index in indices:
            if time.monotonic() > deadline:
                out["capped"] = True
                break
            plan = world.generate(plan_rng(seed, prop, index), tier)
            try:
                sim, violation = run_plan(world, plan)
            except Invalid as e:
                raise RuntimeError("generated an invalid plan: %s: %s" % (e, json.dumps(plan)[:2000]))
            out["runs"] += 1
            out["stats"].update(sim.stats)
            out["faults"].update(sim.faults)
            if len(out["states"]) < 400000:
                out["states"] |= sim.states
            h = zlib.crc32(json.dumps(plan, sort_keys=True).encode())
            if h not in out["plan_hashes"]:
                out["plan_hashes"].add(h)
                if sim.stats.get("steps", 0) > 0 or sim.stats.get("ops", 0) > 0:
                    out["nontrivial"] += 1
            if index in keep_digests:
                out["digests"][index] = sim.digest()
            if len(out["samples"]) < 1:
                out["samples"].append({"index": index, "plan": plan, "digest": sim.digest()})
            if violation is not None:
                out["violation"] = {"index": index, "cls": violation.cls, "message": violation.message,
                                    "history": [i for i in indices if i <= index]}
                break
    except BaseException:
        out["error"] = traceback.format_exc()
    import pickle
    with os.fdopen(fd, "wb") as f:
        pickle.dump(out, f)


def _start_worker(world, prop, seed, tier, w, indices, deadline, keep_digests):
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            sys.stdout.flush()
            _worker(world, prop, seed, tier, indices, deadline, wfd, set(keep_digests))
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    os.close(wfd)
    return pid, r, w


def _collect(procs, kill_at):
    """Reads what the workers write until they end. Returns ({worker: (status, bytes)}, whether some had to be killed)."""
    import selectors
    sel = selectors.DefaultSelector()
    bufs = {}
    killed = False
    for pid, r, w in procs:
        os.set_blocking(r, False)
        sel.register(r, selectors.EVENT_READ, (pid, w))
        bufs[r] = []
    open_fds = len(procs)
    while open_fds:
        left = kill_at - time.monotonic()
        if left <= 0:
            for pid, r, w in procs:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
            killed = True
            break
        for key, _ in sel.select(min(left, 5)):
            try:
                data = os.read(key.fd, 1 << 20)
            except BlockingIOError:
                continue
            if data:
                bufs[key.fd].append(data)
            else:
                sel.unregister(key.fd)
                os.close(key.fd)
                open_fds -= 1
    sel.close()
    return {w: (os.waitpid(pid, 0)[1], b"".join(bufs[r])) for pid, r, w in procs}, killed


def run_batch(world, prop, seed, tier, n, workers, wall_cap, keep_digests=()):
    """Runs plans 0..n-1, striped over forked workers. Returns the merged result."""
    import pickle
    deadline = time.monotonic() + wall_cap
    merged = {"runs": 0, "stats": Counter(), "faults": Counter(), "states": set(), "digests": {}, "violations": [],
              "errors": [], "capped": False, "samples": [], "plan_hashes": set(), "nontrivial": 0, "restarted": 0}
    start = lambda w, until: _start_worker(world, prop, seed, tier, w, list(range(w, n, workers)), until, keep_digests)
    ended, killed = _collect([start(w, deadline) for w in range(workers)], deadline + CPU_LIMIT + 60)
    if killed:
        merged["errors"].append("workers did not finish in time and were killed")
    else:
        # an interpreter that died (tracing threads very rarely crashes CPython 3.12 itself) is started once more
        dead = [w for w, (status, raw) in ended.items() if os.WIFSIGNALED(status)]
        if dead:
            merged["restarted"] = len(dead)
            print("restarting workers %s, which died: %s" % (dead, [ended[w][0] for w in dead]), file=sys.stderr, flush=True)
            until = time.monotonic() + wall_cap
            again, killed = _collect([start(w, until) for w in dead], until + CPU_LIMIT + 60)
            ended.update(again)
            if killed:
                merged["errors"].append("restarted workers did not finish in time and were killed")
    for w, (status, raw) in sorted(ended.items()):
        if status != 0 or not raw:
            merged["errors"].append("worker %d ended with status %s" % (w, status))
            continue
        try:
            out = pickle.loads(raw)
        except Exception as e:
            merged["errors"].append("worker %d: unreadable result (%s)" % (w, e))
            continue
        merged["runs"] += out["runs"]
        merged["stats"].update(out["stats"])
        merged["faults"].update(out["faults"])
        merged["states"] |= out["states"]
        merged["digests"].update(out["digests"])
        merged["plan_hashes"] |= out["plan_hashes"]
        merged["capped"] = merged["capped"] or out["capped"]
        merged["samples"].extend(out["samples"])
        merged["nontrivial"] += out["nontrivial"]
        if out["violation"]:
            merged["violations"].append(out["violation"])
        if out["error"]:
            merged["errors"].append(out["error"])
    merged["violations"].sort(key=lambda v: v["index"])
    return merged


def in_child(fn, timeout):
    """Runs fn() in a forked child and returns its (picklable) result, or None if it crashed or timed out."""
    import pickle
    import select
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            res = pickle.dumps(fn())
            with os.fdopen(w, "wb") as f:
                f.write(res)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    data = []
    end = time.monotonic() + timeout
    while True:
        left = end - time.monotonic()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        data.append(b)
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return pickle.loads(b"".join(data))
    except Exception:
        return None


def outcome_of(world, plans):
    """The violation class of the last plan when the plans are executed in order, or None."""
    v = None
    for p in plans:
        try:
            _, v = run_plan(world, p)
        except Exception:
            return None   # invalid plan, or the harness cannot run it
        if v is not None:
            break
    return None if v is None else v.cls


# ---- shrinking -------------------------------------------------------------------------------------------------------

def _paths(value, prefix=()):
    yield prefix, value
    if isinstance(value, dict):
        for k in value:
            yield from _paths(value[k], prefix + (k,))
    elif isinstance(value, list):
        for i in range(len(value)):
            yield from _paths(value[i], prefix + (i,))


def _replaced(plan, path, new):
    if not path:
        return new
    p = copy.copy(plan)
    p[path[0]] = _replaced(p[path[0]], path[1:], new)
    return p


def _candidates(plan):
    """Simpler plans, most drastic first."""
    nodes = list(_paths(plan))
    # turn whole features off
    for path, v in nodes:
        if path and isinstance(v, dict):
            yield _replaced(plan, path, None)
    # drop chunks of lists
    for path, v in nodes:
        if path and isinstance(v, list) and v:
            size = len(v)
            while size >= 1:
                for i in range(0, len(v), size):
                    yield _replaced(plan, path, v[:i] + v[i + size:])
                size //= 2
    for path, v in nodes:
        if not path:
            continue
        if v is True:
            yield _replaced(plan, path, False)
        elif isinstance(v, int) and not isinstance(v, bool) and v not in (0, 1):
            for c in (0, 1, v // 2, v - 1 if v > 0 else v + 1):
                if abs(c) < abs(v):
                    yield _replaced(plan, path, c)
        elif isinstance(v, int) and v == 1 and not isinstance(v, bool):
            yield _replaced(plan, path, 0)


def shrink(world, plan, cls, budget_s):
    end = time.monotonic() + budget_s
    tried = 0
    seen = set()
    progress = True
    size = lambda p: len(json.dumps(p))
    while progress and time.monotonic() < end:
        progress = False
        for cand in _candidates(plan):
            if time.monotonic() > end:
                break
            key = hashlib.md5(json.dumps(cand, sort_keys=True).encode()).digest()
            if key in seen or size(cand) > size(plan):
                continue
            seen.add(key)
            tried += 1
            if in_child(lambda: outcome_of(world, [cand]), max(5, min(CPU_LIMIT + 10, end - time.monotonic()))) == cls:
                plan = cand
                progress = True
                break
    return plan, tried


def shrink_history(world, plans, cls, budget_s):
    """Removes plans from the front part of a history-dependent failure (ddmin on the prefix)."""
    end = time.monotonic() + budget_s
    size = max(1, (len(plans) - 1) // 2)
    while size >= 1:
        i = 0
        while i < len(plans) - 1:
            if time.monotonic() > end:
                return plans
            cand = plans[:i] + plans[min(i + size, len(plans) - 1):]
            if in_child(lambda: outcome_of(world, cand), max(10, end - time.monotonic())) == cls:
                plans = cand
            else:
                i += size
        size //= 2
    return plans
