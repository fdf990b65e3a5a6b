"""The simulation kernel: simulated processes and threads, virtual time, seeded choices.

Simulated threads are real Python threads of which exactly one holds the baton at any
time; who gets it next is decided here, from a recorded stream of choices.
"""
import heapq
import random
import zlib
import _thread

CURRENT = None  # the kernel of the run in progress (one per OS process)


_NUMS = {}


def _num(x):
    """A number for x that does not depend on the hash seed."""
    if type(x) is int:
        return x
    try:
        return _NUMS[x]
    except (KeyError, TypeError):
        pass
    n = zlib.crc32(repr(x).encode())
    if isinstance(x, str) and len(_NUMS) < 100000:
        _NUMS[x] = n
    return n


class SimKilled(BaseException):
    """Raised in a simulated thread that no longer exists (killed or run over)."""


class HarnessError(Exception):
    """The simulator itself was misused (never a verdict)."""


class Chooser:
    """The single source of decisions. Value 0 always is the plain choice."""

    def __init__(self, seed=None, replay=None, limit=400000):
        self.rng = random.Random(seed) if replay is None else None
        self.replay = replay
        self.pos = 0
        self.record = []
        self.limit = limit

    def _emit(self, draw, n):
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            if not 0 <= v < n:
                v = v % n
        else:
            v = draw()
        self.pos += 1
        self.record.append(v)
        return v

    def choose(self, n):
        if n <= 1:
            return 0
        return self._emit(lambda: self.rng.randrange(n), n)

    def flip(self, p):
        """1 with probability p, else 0."""
        if p <= 0:
            return 0
        return self._emit(lambda: 1 if self.rng.random() < p else 0, 2)

    def skewed(self, n, p0):
        """0 with probability p0, else uniform over the rest."""
        if n <= 1:
            return 0
        return self._emit(
            lambda: 0 if self.rng.random() < p0 else self.rng.randrange(1, n), n)

    def gap(self, mean):
        """A geometric gap; 0 stands for "never" (a very long gap)."""
        if mean <= 0:
            return 0
        n = 1 << 20

        def draw():
            return min(n - 1, 1 + int(self.rng.expovariate(1.0 / mean)))
        return self._emit(draw, n)


NEW, RUNNABLE, RUNNING, BLOCKED, DONE, PARKED = range(6)


class SimThread:
    def __init__(self, kernel, proc, fn, name, daemon):
        self.kernel = kernel
        self.proc = proc
        self.fn = fn
        self.name = name
        self.daemon = daemon
        self.tid = kernel.next_tid()
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.state = NEW
        self.wake_reason = None
        self.timer = None
        self.since = 0
        self.prio = 0
        self.pending_exc = None
        self.interruptible = False
        self.deaths = 0
        self.spin = 0
        self.on_exit = []
        self.os_thread = None
        self.waiting_on = None
        self.finished = False
        self.local = {}


class SimProcess:
    def __init__(self, kernel, parent, name):
        self.kernel = kernel
        self.parent = parent
        self.name = name
        self.pid = kernel.next_pid()
        self.ordinal = len(kernel.procs)
        self.alive = True
        self.exitcode = None
        self.threads = []
        self.sockets = {}
        self.exit_waiters = []
        self.ticks = 0
        self.kill_at = None  # tick count at which this process is killed
        self.started_at = kernel.now
        self.ended_at = None
        self.end_cause = None
        self.environ = dict(parent.environ) if parent else {}
        self.sysattrs = dict(parent.sysattrs) if parent else {}
        self.fdtable = dict(parent.fdtable) if parent else {}
        self.tag = {}
        self.main = None
        self.feeders = []


class Stop(Exception):
    pass


class Kernel:
    def __init__(self, chooser, sched=None, max_ticks=2_000_000, max_time=1e6):
        self.ch = chooser
        self.sched = dict(policy="random", gap=0.0, stall_p=0.0)
        self.sched.update(sched or {})
        self.now = 0.0
        self.busy = 0.0  # of which: computing
        self.wall_offset = 1.6e9  # what time.time() adds to the virtual clock
        self.seq = 0
        self.heap = []
        self.threads = []
        self.procs = []
        self.runnable = []  # in the order they became runnable
        self.current = None
        self.spaces = []  # module state, one per loaded daisy
        self.by_os = {}
        self._tid = 0
        self._pid = 1000
        self._fd = 100
        self.fds = {}
        self.ticks = 0
        self.max_ticks = max_ticks
        self.focus = self.sched.get("focus")
        self.focused = 0
        self.reused = None
        self.max_time = max_time
        self.dead = False
        self.ended = None  # why the run ended: done, deadlock, ticks, time, ...
        self.controller = _thread.allocate_lock()
        self.controller.acquire()
        self.countdown = 1 << 30
        self.stats = {}
        self.probes = {}
        self.trace = []
        self.trace_on = False
        self.hash = 0
        self.switches = 0
        self.interleave_hash = 0
        self.leaked = 0
        self.harness_errors = []
        self.stop_reason = None
        self.proc_exit_hooks = []
        self.loops = []
        self.det_hashes = {}
        self.on_tick = None
        self.unraisable = []
        self.fs = {}
        self.line_events = 0
        self.line_mode = False
        self.world = None
        self.net = None
        self.stalls = 0
        self.slow_term = False  # processes may take seconds to end after SIGTERM
        self._reset_countdown()

    # -- bookkeeping -------------------------------------------------------
    def next_tid(self):
        self._tid += 1
        return self._tid

    def next_pid(self):
        self._pid += 1
        return self._pid

    def next_fd(self):
        self._fd += 1
        return self._fd

    def stat(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def log(self, *what):
        h = self.hash
        for x in what:
            h = (h * 1000003 ^ _num(x)) & 0xFFFFFFFFFFFFFF
        self.hash = h
        if self.trace_on:
            cur = self.current
            self.trace.append((round(self.now, 6), cur.proc.ordinal if cur else -1,
                               cur.tid if cur else -1) + what)

    def mix(self, *what):
        """Feeds the interleaving fingerprint."""
        h = self.interleave_hash
        for x in what:
            h = (h * 1000003 ^ _num(x)) & 0xFFFFFFFFFFFFFF
        self.interleave_hash = h

    # -- running -----------------------------------------------------------
    def run(self, fn, name="main"):
        """Runs fn in a first simulated process until it returns; returns why the run ended."""
        global CURRENT
        CURRENT = self
        root = SimProcess(self, None, name)
        self.procs.append(root)
        self.root = root

        def main():
            try:
                fn()
            finally:
                if not self.dead:
                    self.finish("done")

        t = self.spawn_thread(root, main, name, daemon=False)
        root.main = t
        self._hand_over(None)
        if not self.controller.acquire(timeout=getattr(self, "wall_limit", 60.0)):
            self.ended = self.ended or "wall"
            self.dead = True
            return self.ended
        self.dead = True
        self._unwind()
        return self.ended

    def finish(self, why):
        """Ends the run; called from a simulated thread."""
        t = self.by_os.get(_thread.get_ident())
        if self.ended is None:
            self.ended = why
            self.log("end", why)
        if not self.dead:
            self.dead = True
            self.controller.release()
            t.baton.acquire()
        raise SimKilled()

    def _unwind(self):
        deadline = 3.0
        for t in list(self.threads):
            if t.finished or t.os_thread is None:
                continue
            self.current = t
            try:
                t.baton.release()
            except RuntimeError:
                pass
            t.done_evt.acquire(timeout=deadline)
            if not t.finished:
                self.leaked += 1
        for lp in self.loops:
            lp._closed = True
        self.current = None

    # -- threads -----------------------------------------------------------
    def spawn_thread(self, proc, fn, name="thread", daemon=True, delay=0.0):
        t = SimThread(self, proc, fn, name, daemon)
        t.done_evt = _thread.allocate_lock()
        t.done_evt.acquire()
        proc.threads.append(t)
        self.threads.append(t)
        if self.sched["policy"] == "pct":
            t.prio = self.ch.choose(1 << 16)
        if delay > 0:
            t.state = BLOCKED
            self.at(delay, lambda: self.make_runnable(t, "start"))
        else:
            self.make_runnable(t, "start")
        return t

    def _os_start(self, t):
        t.os_thread = _thread.start_new_thread(self._thread_main, (t,))

    def _thread_main(self, t):
        self.by_os[_thread.get_ident()] = t
        t.baton.acquire()
        try:
            if not self.dead and t.proc.alive:
                t.state = RUNNING
                t.fn()
        except SimKilled:
            pass
        except BaseException as e:  # noqa - uncaught in a simulated thread
            if not self.dead:
                self.thread_crash(t, e)
        finally:
            t.fn = None
            t.finished = True
            self.by_os.pop(_thread.get_ident(), None)
            if not self.dead:
                try:
                    self._thread_exit(t)
                except SimKilled:
                    pass
            t.done_evt.release()

    def thread_crash(self, t, e):
        import traceback
        self.log("uncaught", type(e).__name__, str(e)[:80])
        tb = traceback.format_exception(e)
        self.unraisable.append((t.name, "".join(tb[-3:])))

    def _thread_exit(self, t):
        t.state = DONE
        for f in t.on_exit:
            f()
        self.log("texit", t.tid)
        self._hand_over(t)

    def current_thread(self):
        return self.by_os.get(_thread.get_ident())

    def me(self):
        """The calling simulated thread; anyone else is not part of the run."""
        t = self.by_os.get(_thread.get_ident())
        if t is None:
            raise SimKilled()
        if self.dead or t.state == PARKED:
            self.die(t)
        return t

    def die(self, t):
        t.deaths += 1
        if t.deaths > 20000:  # code that swallows everything: never let it spin
            self.leaked += 1
            t.finished = True
            t.done_evt.release()
            lk = _thread.allocate_lock()
            lk.acquire()
            lk.acquire()
        raise SimKilled()

    # -- scheduling --------------------------------------------------------
    def make_runnable(self, t, reason=None):
        if t.state in (RUNNABLE, RUNNING, DONE, PARKED):
            return
        t.state = RUNNABLE
        t.wake_reason = reason
        t.timer = None
        self.runnable.append(t)

    def at(self, delay, fn):
        """Schedules fn (a simulator callback that must not block)."""
        self.seq += 1
        ev = [self.now + max(0.0, delay), self.seq, fn]
        heapq.heappush(self.heap, ev)
        return ev

    def at_abs(self, t, fn):
        self.seq += 1
        ev = [max(t, self.now), self.seq, fn]
        heapq.heappush(self.heap, ev)
        return ev

    def cancel(self, ev):
        if ev is not None:
            ev[2] = None

    def _pop_due(self):
        """Runs everything due at the current time."""
        heap = self.heap
        while heap and heap[0][0] <= self.now:
            ev = heapq.heappop(heap)
            if ev[2] is not None:
                f = ev[2]
                ev[2] = None
                f()

    def _advance(self):
        """Jumps to the next event; False if there is none."""
        heap = self.heap
        while heap and heap[0][2] is None:
            heapq.heappop(heap)
        if not heap:
            return False
        if heap[0][0] > self.now:
            self.now = heap[0][0]
        self._pop_due()
        return True

    def _pick(self, cur):
        """The next thread to run, or None if the run is over."""
        while True:
            if self.stop_reason is not None:
                self.ended = self.ended or self.stop_reason
                return None
            if self.runnable:
                break
            if self.now > self.max_time:
                self.ended = self.ended or "time"
                return None
            if not self._advance():
                self.ended = self.ended or "deadlock"
                return None
        r = self.runnable
        pol = self.sched["policy"]
        if len(r) == 1:
            i = 0
        elif pol == "pct":
            # highest priority, as recorded choice relative to FIFO order
            best = max(range(len(r)), key=lambda j: (r[j].prio, -r[j].tid))
            i = self.ch._emit(lambda: best, len(r))
        elif pol == "fifo":
            i = self.ch.skewed(len(r), 0.97)
        elif pol == "lifo":
            i = self.ch._emit(lambda: len(r) - 1 if self.ch.rng.random() < 0.8 else self.ch.rng.randrange(len(r)), len(r))
        else:
            i = self.ch.choose(len(r))
        return r.pop(i)

    def _hand_over(self, cur):
        """Gives the baton away. cur is the thread giving it (None: the controller)."""
        if self.now > self.max_time:
            self.ended = self.ended or "time"
            nxt = None
        else:
            nxt = self._pick(cur)
        if nxt is None:
            self.log("end", self.ended)
            self.dead = True
            self.controller.release()
            if cur is None or cur.state == DONE:
                return
            cur.baton.acquire()
            self.die(cur)
        self.switches += 1
        nxt.state = RUNNING
        self.current = nxt
        if nxt is cur:
            return
        for sp in self.spaces:
            if sp.cur is not nxt.proc:
                sp.switch(nxt.proc)
        self.log("run", nxt.tid)
        if nxt.os_thread is None:
            self._os_start(nxt)
        nxt.baton.release()
        if cur is None or cur.state == DONE:
            return
        cur.baton.acquire()
        if self.dead or cur.state == PARKED:
            self.die(cur)

    def block(self, timeout=None, what=None, interruptible=True):
        """Blocks the calling thread until woken; returns the reason ('timeout' or given)."""
        t = self.me()
        self.ticks += 1
        t.spin = 0
        if t.pending_exc is not None and interruptible:
            e, t.pending_exc = t.pending_exc, None
            raise e
        t.state = BLOCKED
        t.wake_reason = None
        t.waiting_on = what
        t.interruptible = interruptible
        if timeout is not None:
            t.timer = self.at(max(0.0, timeout), lambda: self.make_runnable(t, "timeout"))
        timer = t.timer
        self._hand_over(t)
        t.waiting_on = None
        t.interruptible = False
        if t.wake_reason != "timeout":
            self.cancel(timer)
        if t.pending_exc is not None and interruptible:
            e, t.pending_exc = t.pending_exc, None
            raise e
        return t.wake_reason

    def sleep(self, d):
        if d <= 0:
            self.yield_()
            return
        t = self.me()
        end = self.now + d
        while self.now < end - 1e-12:
            if self.block(end - self.now, "sleep") != "timeout":
                continue

    def yield_(self):
        """Lets others run; a scheduling decision."""
        t = self.me()
        self.ticks += 1
        self._check_caps(t)
        t.state = BLOCKED
        self.make_runnable(t, "yield")
        self._hand_over(t)
        self._deliver_pending(t)

    def _deliver_pending(self, t):
        if t.pending_exc is not None:
            e, t.pending_exc = t.pending_exc, None
            raise e

    def _check_caps(self, t):
        if self.ticks > self.max_ticks:
            self.finish("ticks")
        if self.now > self.max_time:
            self.finish("time")

    def _reset_countdown(self):
        g = self.ch.gap(self.sched["gap"]) if self.sched["gap"] else 0
        self.countdown = g if g else 1 << 30

    def tick(self, kind="s"):
        """A preemption point: anything may happen between any two of these."""
        t = self.by_os.get(_thread.get_ident())
        if t is None:
            raise SimKilled()
        if self.dead or t.state == PARKED:
            self.die(t)
        self.ticks += 1
        p = t.proc
        p.ticks += 1
        t.spin += 1
        # computing takes (a little) time, and spinning takes more and more
        dt = 2e-6 if t.spin < 3000 else 1e-3
        self.now += dt
        self.busy += dt
        if self.heap and self.heap[0][0] <= self.now:
            self._pop_due()
            if t.state == PARKED:
                self.park(t)
        if self.ticks > self.max_ticks:
            self.finish("ticks")
        if self.now > self.max_time:
            self.finish("time")
        if p.kill_at is not None and p.ticks >= p.kill_at:
            p.kill_at = None
            self.stat("fault.kill_at_tick")
            self.kill_process(p, -9, "kill_at_tick")
            self.park(t)
        safe = kind not in ("lock", "unlock")
        if t.pending_exc is not None and safe:
            e, t.pending_exc = t.pending_exc, None
            raise e
        self.countdown -= 1
        if self.countdown <= 0:
            self._preempt(t, safe)

    def linger_here(self):
        """A line of the function this run looks at closely: let others run, or time pass."""
        self.tick("line")
        t = self.by_os.get(_thread.get_ident())
        if self.focused >= 40 or not self.ch.flip(self.focus["p"]):
            return
        self.focused += 1
        self.stat("focus.preempt")
        if self.sched["policy"] == "pct":
            t.prio = -self.ticks
        d = (0, 0, 0.001, 0.004, 0.02, 0.05, 0.15, 0.5)[self.ch.choose(8)]
        if d:
            end = self.now + d
            while self.now < end - 1e-12:
                self.block(end - self.now, "stall", interruptible=False)
            return
        t.state = BLOCKED
        t.wake_reason = "preempt"
        t.state = RUNNABLE
        self.runnable.append(t)
        self._hand_over(t)
        self._deliver_pending(t)

    def _preempt(self, t, safe=True):
        self._reset_countdown()
        self.stat("preemptions")
        if self.sched["policy"] == "pct":
            t.prio = -self.ticks
        if self.sched["stall_p"] and self.stalls < 10 and self.ch.flip(self.sched["stall_p"]):
            self.stalls += 1
            d = (0.01, 0.05, 0.15, 0.5, 1.2, 3.0)[self.ch.choose(6)]
            self.stat("fault.stall")
            self.log("stall", d)
            end = self.now + d
            while self.now < end - 1e-12:
                self.block(end - self.now, "stall", interruptible=False)
            return
        t.state = BLOCKED
        # default choice: carry on
        t.wake_reason = "preempt"
        t.state = RUNNABLE
        self.runnable.insert(0, t)
        self._hand_over(t)
        if safe:
            self._deliver_pending(t)

    # -- processes ---------------------------------------------------------
    def fork(self, fn, name, delay=0.0, fresh=False):
        parent = self.me().proc
        p = SimProcess(self, parent, name)
        self.procs.append(p)
        for s in list(parent.sockets.values()):
            s.inherit(p)
        for sp in self.spaces:
            sp.fork(parent, p, fresh)

        t = self.spawn_thread(p, fn, name + ".main", daemon=False, delay=delay)
        p.main = t
        self.log("fork", p.ordinal)
        return p

    def kill_process(self, p, exitcode, cause):
        """The process stops existing at once."""
        if not p.alive:
            return
        p.alive = False
        p.exitcode = exitcode
        p.ended_at = self.now
        p.end_cause = cause
        self.log("pexit", p.ordinal, exitcode, cause)
        self.mix("pexit", p.ordinal, exitcode)
        for t in p.threads:
            if t.state == DONE:
                continue
            if t.state == RUNNABLE and t in self.runnable:
                self.runnable.remove(t)
            if t.timer is not None:
                self.cancel(t.timer)
            t.state = PARKED
        for s in list(p.sockets.values()):
            s.drop(p)
        p.sockets.clear()
        for w in p.exit_waiters:
            self.make_runnable(w, "exit")
        p.exit_waiters = []
        for f in self.proc_exit_hooks:
            f(p)
        if p is self.root:
            self.stop_reason = "root-killed"

    def park(self, t):
        """The calling thread is gone for good."""
        t.state = PARKED
        self._hand_over(t)
        self.die(t)

    def exit_process(self, code, cause="exit"):
        t = self.me()
        self.kill_process(t.proc, code, cause)
        self.park(t)

    def interrupt(self, t, exc):
        """Asynchronous exception (a signal handler raising) in a thread."""
        if t.state in (DONE, PARKED) or not t.proc.alive:
            return False
        t.pending_exc = exc
        if t.state == BLOCKED and t.interruptible:
            self.cancel(t.timer)
            self.make_runnable(t, "interrupt")
        return True
