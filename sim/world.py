"""The simulated world: clients (threads parked and released one at a time), processes that
crash and restart, a virtual clock, an event log, and the table of planned faults.

Everything that happens in a run is a function of the plan (a JSON value).  The plan holds the
programs of the clients, the points at which the scheduler switches client, and the faults.
"""
import hashlib
import threading
from collections import Counter


class SimCrash(BaseException):
    """The simulated process is dead: nothing it does from here on has any effect."""


class Deadlock(BaseException):
    pass


class StepLimit(BaseException):
    """The run used up its event budget."""


class HarnessError(Exception):
    """A mistake of the harness (never a verdict)."""


class Proc:
    """A simulated operating-system process: its own copy of the library, its own pid."""

    def __init__(self, world, name, universe=None):
        self.world = world
        self.name = name
        self.universe = universe
        self.pid = world.next_pid()
        self.dead = False
        self.open_fds = set()
        self.files = []  # weak use only: SimFileIO objects, closed without flushing on a crash

    def kill(self):
        self.dead = True
        for f in self.files:
            try:
                f.abandon()
            except Exception:
                pass
        self.files = []
        from . import seams
        for fd in self.open_fds:
            if fd in seams._fd_path:
                seams._fd_path.pop(fd)
                try:
                    seams.R["os_close"](fd)
                except OSError:
                    pass
        self.open_fds = set()


class Task:
    def __init__(self, world, idx, fn):
        self.world = world
        self.idx = idx
        self.fn = fn
        self.proc = None
        self.op = None  # id of the operation under way
        self.ev = 0  # events seen in this operation
        self.done = False
        self.waiting = None  # predicate the task waits for
        self.sem = threading.Semaphore(0)
        self.exc = None
        self.thread = None


_local = threading.local()
WORLD = None
FORKED = False  # in a process that the simulated program forked


def current():
    return getattr(_local, "task", None)


class World:
    def __init__(self, plan, root=None, max_events=20000):
        self.plan = plan
        self.root = root
        self.now = float(plan.get("t0", 1_700_000_000.0))
        self.t_start = self.now
        self.step = 0
        self.max_events = max_events
        self.switches = {}
        for s, tgt in plan.get("switches", []):
            self.switches.setdefault(int(s), int(tgt))
        self.faults = {}
        for f in plan.get("faults", []):
            if "ev" in f:
                self.faults.setdefault((f["op"], f["ev"]), f)
        self.kind_faults = {}
        self.lasting = {}  # errors that stay for a number of events of the kind
        for f in plan.get("faults", []):
            if "nth" in f and f.get("times"):
                self.lasting.setdefault((f["op"], f["kind"]), f)
            elif "nth" in f:
                self.kind_faults.setdefault((f["op"], f["kind"], f["nth"]), f)
        self.kind_seen = Counter()
        self.net_faults = {}
        for f in plan.get("faults", []):
            if "req" in f:
                for i in range(f.get("times") or 1):
                    self.net_faults.setdefault((f["op"], f["req"] + i), f)
        self.fired = Counter()
        self.events = Counter()
        self._h = hashlib.sha256()
        self.log = []
        self.keep_log = bool(plan.get("keep_log"))
        self.tasks = []
        self.main_sem = threading.Semaphore(0)
        self.fatal = None
        self._pid = 1000 + int(plan.get("pid0", 0))
        self.n_switches = 0
        self.on_event = None

    # ------------------------------------------------------------------ log
    def note(self, *items):
        s = "|".join(str(i) for i in items)
        self._h.update(s.encode("utf8", "surrogateescape"))
        self._h.update(b"\n")
        if self.keep_log:
            self.log.append(s)

    def digest(self):
        return self._h.hexdigest()[:20]

    def next_pid(self):
        self._pid += 1
        return self._pid

    # ------------------------------------------------------------------ events
    def event(self, kind, detail="", can_fault=True):
        """Called by every seam before it acts.  Returns the fault to apply, or None."""
        t = current()
        if t is None:
            return None
        if t.proc is not None and t.proc.dead:
            raise SimCrash("process is dead")
        if self.fatal is not None:
            raise StepLimit(str(self.fatal))
        self.step += 1
        if self.step > self.max_events:
            self.fatal = "event budget used up"
            raise StepLimit(self.fatal)
        ev = t.ev
        t.ev += 1
        self.now += 0.0005
        self.events[kind] += 1
        self.note(self.step, t.idx, t.op, ev, kind, detail)
        if self.on_event is not None:
            self.on_event(kind, detail)
        self.maybe_switch(t)
        if t.proc is not None and t.proc.dead:  # killed while parked
            raise SimCrash("process is dead")
        if not can_fault:
            return None
        n = self.kind_seen[t.op, kind]
        self.kind_seen[t.op, kind] += 1
        f = self.faults.get((t.op, ev)) or self.kind_faults.get((t.op, kind, n))
        if f is None:
            f = self.lasting.get((t.op, kind))
            if f is not None and not f["nth"] <= n < f["nth"] + f["times"]:
                f = None
        return f

    def crash(self, t=None, why="crash"):
        t = t or current()
        self.fired[why] += 1
        self.note("CRASH", t.idx, t.op)
        t.proc.kill()
        raise SimCrash(why)

    # ------------------------------------------------------------------ scheduler
    def maybe_switch(self, t, tgt=None):
        if tgt is None:
            tgt = self.switches.get(self.step)
        if tgt is None:
            return
        runnable = [o for o in self.tasks if o is not t and not o.done and self._ready(o)]
        if not runnable:
            return
        self.n_switches += 1
        self._hand_over(t, runnable[tgt % len(runnable)])

    def yield_now(self, t):
        """Voluntary: let every other runnable client go first (sleep, blocked lock)."""
        runnable = [o for o in self.tasks if o is not t and not o.done and self._ready(o)]
        if runnable:
            nxt = min(runnable, key=lambda o: (o.idx - t.idx) % (len(self.tasks) + 1))
            self._hand_over(t, nxt)
            return True
        return False

    def wait_for(self, pred, what="lock"):
        """Park the current client until pred() holds."""
        t = current()
        while not pred():
            t.waiting = pred
            if not self.yield_now(t):
                t.waiting = None
                if pred():
                    return
                self.fatal = f"deadlock waiting for {what}"
                raise Deadlock(self.fatal)
            t.waiting = None
            if t.proc is not None and t.proc.dead:
                raise SimCrash("process is dead")
            if self.fatal is not None:
                raise StepLimit(str(self.fatal))

    def _ready(self, o):
        return o.waiting is None or self.fatal is not None or o.waiting()

    def _activate(self, t):
        if t.proc is not None and t.proc.universe is not None:
            t.proc.universe.activate()

    def _hand_over(self, t, nxt):
        self.note("switch", t.idx, nxt.idx, self.step)
        nxt.sem.release()
        t.sem.acquire()
        self._activate(t)

    def _body(self, t):
        _local.task = t
        t.sem.acquire()
        self._activate(t)
        try:
            t.fn(t)
        except BaseException as e:  # noqa: reported by run()
            t.exc = e
        t.done = True
        _local.task = None
        rest = [o for o in self.tasks if not o.done]
        ready = [o for o in rest if self._ready(o)]
        if ready:
            ready[0].sem.release()
        elif rest:
            self.fatal = self.fatal or "deadlock: every remaining client is blocked"
            rest[0].sem.release()
        else:
            self.main_sem.release()

    def run(self, fns):
        """Run the client functions (each called with its Task) to the end, one at a time."""
        global WORLD
        self.tasks = [Task(self, i, f) for i, f in enumerate(fns)]
        WORLD = self
        try:
            for t in self.tasks:
                t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
                t.thread.start()
            if self.tasks:
                self.tasks[0].sem.release()
                self.main_sem.acquire()
            for t in self.tasks:
                t.thread.join()
        finally:
            WORLD = None
        for t in self.tasks:
            if t.exc is not None:
                raise HarnessError(f"client {t.idx} died: {t.exc!r}") from t.exc
        return self


def world():
    """The world if the calling thread is one of its clients, else None."""
    return WORLD if (WORLD is not None and current() is not None) else None
