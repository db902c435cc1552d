"""Deterministic scheduling of threads. Real Python threads, of which exactly one runs at any time; the running one gives
up control at chosen points of netomaton's code (line or opcode events), in callbacks, in msgpack calls and when it has to
wait for a lock. The schedule is a list of slices [thread, number of events]; after it, threads run to completion in
order. Nothing else can switch threads, so one schedule is one exactly repeatable execution."""
import sys
import time
import _thread

from . import boot, seams
from .core import NoProgress, Violation, crc

_Lock = seams._real_Lock


ENGINE = ("/evolution.py", "/state.py", "/utils.py")


class Abort(BaseException):
    pass


class _T:
    def __init__(self, tid, fn):
        self.tid, self.fn = tid, fn
        self.gate = _Lock()
        self.gate.acquire()
        self.state = "ready"
        self.result = self.error = self.lock = None
        self.depth = 0        # nesting of user callbacks
        self.events = 0


class Scheduler:
    def __init__(self, sim, slices, opcodes, focus=None):
        """focus: 'models' or 'engine' restricts scheduling points to the code of the models' rules or to everything else."""
        self.sim, self.slices, self.opcodes = sim, [list(s) for s in slices], opcodes
        self.focus = focus
        self.threads = []
        self.ids = {}
        self.current = None
        self.left = 0
        self.abort = False
        self.verdict = None
        self.held = {}        # id(lock) -> callback depth of the owner when it acquired the lock
        self.finished = _Lock()
        self.root = boot.REPO.rstrip("/") + "/netomaton/"
        self.switches = 0
        self.trace = 0
        self.in_seam = None   # callable(kind) -> may raise; per-thread allocation faults

    # -- what SimLock needs
    def current_thread_id(self):
        return self.ids.get(_thread.get_ident())

    def me(self):
        return self.threads[self.ids[_thread.get_ident()]]

    def acquired(self, lock):
        me = self.me()
        self.held.setdefault(id(lock), me.depth)
        if lock._count == 1:
            self.held[id(lock)] = me.depth

    def block_on(self, lock):
        me = self.me()
        owner = self.threads[lock._owner]
        self.sim.probe("waited_for_lock")
        if owner.depth > self.held.get(id(lock), 0):
            self.fail("waits", "evolution %d waits for a lock that evolution %d holds while it runs its user's callback"
                      % (me.tid, owner.tid))
        me.state, me.lock = "blocked", lock
        self.next(me)

    def unblock(self, lock):
        self.held.pop(id(lock), None)
        for t in self.threads:
            if t.state == "blocked" and t.lock is lock:
                t.state, t.lock = "ready", None

    # -- scheduling
    def fail(self, cls, message):
        if self.verdict is None:
            self.verdict = (cls, message)
        self.abort = True
        raise Abort()

    def choose(self):
        """The next thread to run and for how long; None if nobody can."""
        while self.slices:
            tid, n = self.slices.pop(0)
            if tid < len(self.threads) and self.threads[tid].state == "ready" and n > 0:
                self.left = n
                return self.threads[tid]
        self.left = 1 << 60
        for t in self.threads:
            if t.state == "ready":
                return t
        return None

    def next(self, me):
        """Gives control to the next thread; returns when this one is scheduled again."""
        to = self.choose()
        if to is None:
            alive = [t for t in self.threads if t.state != "done"]
            if not alive:
                self.finished.release()
                return
            if self.verdict is None:
                self.verdict = ("deadlock", "evolutions %s wait for one another" % [t.tid for t in alive])
            self.abort = True
            for t in alive:
                t.state = "ready"
            to = alive[0]
            self.left = 1 << 60
        self.current = to
        if to is me:
            if self.abort and me.state != "done":
                raise Abort()
            return
        self.switches += 1
        to.gate.release()
        if me is not None and me.state != "done":
            me.gate.acquire()
            if self.abort:
                raise Abort()

    def point(self, where):
        me = self.threads[self.ids[_thread.get_ident()]]
        if self.abort:
            raise Abort()
        if self.focus == "models" and where in ("callback", "pack", "unpack"):
            return
        me.events += 1
        self.left -= 1
        if self.left <= 0:
            self.trace = crc(self.trace, me.tid, me.events, where)
            self.next(me)

    def _tracer(self, frame, event, arg):
        name = frame.f_code.co_filename
        if not name.startswith(self.root):
            return None
        if self.focus and (self.focus == "engine") != name.endswith(ENGINE):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local

    def _local(self, frame, event, arg):
        if event == "opcode" or event == "line":
            self.point(frame.f_code.co_name)
        return self._local

    def seam(self, kind):
        if _thread.get_ident() not in self.ids:
            return
        self.point(kind)
        if self.in_seam is not None:
            self.in_seam(self.me().tid, kind)

    def callback(self, fn):
        """Wraps a user callback: a scheduling point, and known to be user code."""
        def wrapped(*a):
            me = self.me()
            me.depth += 1
            try:
                self.point("callback")
                return fn(*a)
            finally:
                me.depth -= 1
        return wrapped

    def _body(self, t):
        t.gate.acquire()
        self.ids[_thread.get_ident()] = t.tid
        sys.settrace(self._tracer)
        try:
            if not self.abort:
                t.result = t.fn()
        except Abort:
            pass
        except BaseException as e:
            t.error = e
            if not isinstance(e, Exception) or isinstance(e, Violation):
                pass
        finally:
            sys.settrace(None)
            t.state = "done"
            # a thread that ends holding a lock would block the others for ever: they report the deadlock
            del self.ids[_thread.get_ident()]
            self.next(t)

    def run(self, fns):
        """Runs the functions to completion, each in its own thread. Returns [(result, error)]."""
        self.threads = [_T(i, f) for i, f in enumerate(fns)]
        seams.scheduler = self
        seams.S.pack = lambda o: self.seam("pack")
        seams.S.unpack = lambda o: self.seam("unpack")
        self.finished.acquire()
        # CPython 3.12 emits opcode events only to tracers set after some frame has asked for them
        sys._getframe().f_trace_opcodes = True
        # and 3.12 can crash when tracing is switched on or off for the interpreter (the first thread to set a tracer, the last one to
        # drop it) while another thread executes the code that is re-instrumented: this thread traces from before to after
        base = _thread._count()
        before = sys.gettrace()
        sys.settrace(_ignore)
        try:
            with seams.locks_simulated():
                for t in self.threads:
                    _thread.start_new_thread(self._body, (t,))
                self.next(None)
                try:
                    ok = self.finished.acquire(timeout=60)
                except BaseException:
                    self.abort = True
                    self.finished.acquire(timeout=10)
                    raise
                if not ok:
                    self.abort = True
                    raise NoProgress("the threads did not finish")
        finally:
            for _ in range(20000):
                if _thread._count() <= base:
                    break
                time.sleep(0.0002)
            sys.settrace(before)
            seams.scheduler = None
            seams.S.pack = seams.S.unpack = None
        self.sim.stats["switches"] += self.switches
        self.sim.stats["scheduling_points"] += sum(t.events for t in self.threads)
        self.sim.state(("interleaving", self.trace))
        self.sim.log("schedule", self.switches, [t.events for t in self.threads], self.trace)
        if self.verdict:
            raise Violation(*self.verdict)
        return [(t.result, t.error) for t in self.threads]


def _ignore(frame, event, arg):
    return None


def gen_slices(rng, n):
    kind = rng.choice(["fine", "mixed", "coarse", "lockstep", "pairs"])
    out = []
    if kind == "fine":
        for _ in range(rng.randrange(20, 120)):
            out.append([rng.randrange(n), rng.choice([1, 2, 3, 5, 8, 13, 30])])
    elif kind == "mixed":
        for _ in range(rng.randrange(5, 50)):
            out.append([rng.randrange(n), int(2 ** (rng.random() * 10))])
    elif kind == "coarse":
        for _ in range(rng.randrange(2, 8)):
            out.append([rng.randrange(n), rng.randrange(1, 1500)])
    elif kind == "lockstep":
        k = rng.choice([1, 2, 7, 20])
        for i in range(rng.randrange(30, 200)):
            out.append([i % n, k])
    else:
        for _ in range(rng.randrange(1, 4)):
            a, b = rng.randrange(n), rng.randrange(n)
            out += [[a, rng.randrange(1, 800)], [b, rng.randrange(1, 3000)]]
    return out
