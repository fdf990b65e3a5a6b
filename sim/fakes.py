"""Stand-ins for the modules daisy (and tornado) use to reach time, threads, processes, files.

threading.py, queue.py and concurrent.futures of the standard library are the real sources,
executed on top of a simulated `_thread` and `time`.
"""
import builtins
import importlib.util
import io
import os as _os
import pathlib as _pathlib
import pickle
import signal as _signal
import sys as _sys
import time as _time
import queue as _queue_real
import types
import weakref
import _thread as _real_thread

from . import kernel as K
from . import net as N
from . import space

NP = "/simfs"  # nothing below it exists for real


def k():
    c = K.CURRENT
    if c is None:
        raise K.SimKilled()
    return c


# ---------------------------------------------------------------- _thread
class SimLock:
    _per_process = False

    def __init__(self):
        self._owner = None
        self._locked = False
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        kk = K.CURRENT
        if kk is None:  # while the copied modules are being set up
            was, self._locked = self._locked, True
            return not was
        if self._per_process:
            return self._own(kk).acquire(blocking, timeout)
        kk.tick("lock")
        t = kk.me()
        if not self._locked:
            self._locked = True
            self._owner = t
            return True
        if not blocking:
            if timeout not in (-1, -1.0):
                raise ValueError("can't specify a timeout for a non-blocking call")
            return False
        end = None if timeout is None or timeout < 0 else kk.now + timeout
        while self._locked:
            left = None
            if end is not None:
                left = end - kk.now
                if left <= 0:
                    return False
            self._waiters.append(t)
            try:
                # signals interrupt waiting for an event, not for a mutex
                # (CPython itself is not signal safe there)
                kk.block(left, "lock", interruptible=self._owner is t)
            finally:
                if t in self._waiters:
                    self._waiters.remove(t)
        self._locked = True
        self._owner = t
        return True

    def release(self):
        kk = K.CURRENT
        if kk is None or kk.dead:
            self._locked = False
            return
        if self._per_process:
            return self._own(kk).release()
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        self._owner = None
        for w in self._waiters:
            kk.make_runnable(w, "lock")
        self._waiters = []
        kk.tick("unlock")

    def _own(self, kk):
        """A global lock of a library: each process has its own copy."""
        return kk.__dict__.setdefault("library_locks", {}).setdefault((id(self), kk.me().proc), SimLock())

    def locked(self):
        return self._own(K.CURRENT)._locked if self._per_process and K.CURRENT is not None else self._locked

    def _at_fork_reinit(self):
        self._locked = False
        self._waiters = []

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _release_quiet(self):
        self._locked = False
        self._owner = None
        for w in self._waiters:
            k().make_runnable(w, "lock")
        self._waiters = []


class SimLocal:
    def __init__(self):
        object.__setattr__(self, "_key", object())

    def _d(self):
        return k().me().local.setdefault(object.__getattribute__(self, "_key"), {})

    def __getattr__(self, a):
        try:
            return self._d()[a]
        except KeyError:
            raise AttributeError(a)

    def __setattr__(self, a, v):
        self._d()[a] = v

    def __delattr__(self, a):
        try:
            del self._d()[a]
        except KeyError:
            raise AttributeError(a)


def _start_new_thread(fn, args=(), kwargs=None):
    kk = k()
    kk.tick("thread")
    t = kk.me()
    kwargs = kwargs or {}
    nt = kk.spawn_thread(t.proc, lambda: fn(*args, **kwargs), getattr(fn, "__qualname__", "thread"))
    # daemon flag is known to the Thread object
    owner = getattr(fn, "__self__", None)
    nt.daemon = bool(getattr(owner, "daemon", True))
    return nt.tid


def _get_ident():
    c = K.CURRENT
    t = c.current_thread() if c is not None else None
    return t.tid if t is not None else 0


def _set_sentinel():
    lk = SimLock()
    if K.CURRENT is None:
        return lk
    t = k().me()
    t.on_exit.append(lk._release_quiet)
    return lk


def make__thread():
    m = types.ModuleType("_thread")
    m.error = RuntimeError
    m.LockType = SimLock
    m.TIMEOUT_MAX = _real_thread.TIMEOUT_MAX
    m.allocate_lock = SimLock
    m.allocate = SimLock
    m.start_new_thread = _start_new_thread
    m.start_new = _start_new_thread
    m.get_ident = _get_ident
    m.get_native_id = _get_ident
    m._set_sentinel = _set_sentinel
    m._local = SimLocal
    m.daemon_threads_allowed = lambda: True
    m._is_main_interpreter = lambda: True
    m.stack_size = lambda *a: 0
    m._ExceptHookArgs = _real_thread._ExceptHookArgs
    m.interrupt_main = lambda *a: None

    def _excepthook(args):
        if args.exc_type is K.SimKilled:
            return
        c = K.CURRENT
        if c is not None and not c.dead:
            c.unraisable.append((args.thread.name if args.thread else "?",
                                 f"{args.exc_type.__name__}: {args.exc_value}"))
            c.log("thread-exc", args.exc_type.__name__)
    m._excepthook = _excepthook
    m.exit = lambda: (_ for _ in ()).throw(SystemExit())
    return m


# ---------------------------------------------------------------- time
def make_time():
    m = types.ModuleType("time")
    for a in dir(_time):
        if not a.startswith("__"):
            setattr(m, a, getattr(_time, a))

    def in_sim():
        c = K.CURRENT
        return c is not None and c.current_thread() is not None

    def time():
        if not in_sim():
            return _time.time()
        kk = k()
        kk.tick("time")
        return kk.now + kk.wall_offset

    def monotonic():
        if not in_sim():
            return _time.monotonic()
        kk = k()
        return kk.now

    def sleep(s):
        kk = k()
        kk.tick("sleep")
        kk.sleep(s)

    m.time = time
    m.time_ns = lambda: int(time() * 1e9)
    m.monotonic = monotonic
    m.monotonic_ns = lambda: int(monotonic() * 1e9)
    m.perf_counter = monotonic
    m.perf_counter_ns = lambda: int(monotonic() * 1e9)
    m.process_time = monotonic
    m.thread_time = monotonic
    m.sleep = sleep
    return m


# ---------------------------------------------------------------- files
class SimFile(io.TextIOBase):
    """An open simulated file; content lives in the kernel's file system."""

    def __init__(self, kk, name, mode, fd):
        self.k = kk
        self.name = str(name)
        self.mode = mode
        self.fd = fd
        self._closed = False
        self.pos = 0

    def fileno(self):
        return self.fd

    def write(self, s):
        c = self.k
        if c.dead:
            return len(s)
        t = c.current_thread()
        proc = t.proc if t else None
        if isinstance(s, bytes):
            s = s.decode("utf8", "replace")
        target = proc.fdtable.get(self.fd, self.name) if proc is not None else self.name
        c.fs.setdefault(target, []).append((proc.ordinal if proc else -1, s))
        return len(s)

    def read(self, n=-1):
        return "".join(x[1] for x in self.k.fs.get(self.name, []))

    def flush(self):
        pass

    def isatty(self):
        return False

    def close(self):
        self._closed = True

    @property
    def closed(self):
        return self._closed

    @property
    def encoding(self):
        return "utf-8"

    def readable(self):
        return True

    def writable(self):
        return True

    def __del__(self):
        pass


def sim_open(name, mode="r", *a, **kw):
    c = K.CURRENT
    if c is None or c.current_thread() is None:
        raise K.SimKilled()
    c.tick("open")
    fail = c.fsfail(str(name), mode) if getattr(c, "fsfail", None) else None
    if fail:
        raise fail
    if isinstance(name, int):
        return SimFile(c, f"<fd {name}>", mode, name)
    name = _norm(name)
    if "r" not in mode and (_os.path.dirname(name) or ".") not in c.dirs:
        raise FileNotFoundError(2, "No such file or directory", name)
    if "w" in mode:
        c.fs[name] = []
        c.fslog.append(("open", c.me().proc.ordinal, name, mode))
    elif "a" in mode:
        c.fs.setdefault(name, [])
        c.fslog.append(("open", c.me().proc.ordinal, name, mode))
    elif "x" in mode:
        if name in c.fs:
            raise FileExistsError(17, "File exists", name)
        c.fs[name] = []
    elif name not in c.fs:
        raise FileNotFoundError(2, "No such file or directory", name)
    fd = c.next_fd()
    c.me().proc.fdtable[fd] = name
    return SimFile(c, name, mode, fd)


def _norm(p):
    return _os.path.normpath(str(p))


class SimPath(type(_pathlib.Path())):
    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        c = k()
        c.tick("mkdir")
        name = _norm(self)
        if name in c.fs or (name in c.dirs and not exist_ok):
            raise FileExistsError(17, "File exists", name)
        up = _os.path.dirname(name) or "."
        if up not in c.dirs:
            if not parents:
                raise FileNotFoundError(2, "No such file or directory", name)
            while up not in c.dirs:
                c.dirs.add(up)
                up = _os.path.dirname(up) or "."
        c.dirs.add(name)

    def exists(self, **kw):
        c = k()
        c.tick("exists")
        return _norm(self) in c.fs or _norm(self) in c.dirs

    def is_file(self):
        return _norm(self) in k().fs

    def is_dir(self):
        return _norm(self) in k().dirs

    def touch(self, mode=0o666, exist_ok=True):
        k().fs.setdefault(_norm(self), [])

    def unlink(self, missing_ok=False):
        k().fs.pop(_norm(self), None)

    def open(self, mode="r", *a, **kw):
        return sim_open(self, mode)

    def write_text(self, data, *a, **kw):
        with sim_open(self, "w") as f:
            f.write(data)

    def read_text(self, *a, **kw):
        return sim_open(self, "r").read()

    def resolve(self, strict=False):
        return self

    def absolute(self):
        return self


def make_pathlib():
    m = types.ModuleType("pathlib")
    for a in dir(_pathlib):
        if not a.startswith("__"):
            setattr(m, a, getattr(_pathlib, a))
    m.Path = SimPath
    m.PosixPath = SimPath
    return m


# ---------------------------------------------------------------- sys, os
class ProxyModule(types.ModuleType):
    """A module that falls through to the real one."""

    def __init__(self, name, real, over):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, a):
        return getattr(self.__dict__["_real"], a)


class SysProxy(types.ModuleType):
    PER_PROC = ("stdout", "stderr", "stdin", "__stdout__", "__stderr__", "__stdin__")

    def __getattr__(self, a):
        if a in SysProxy.PER_PROC:
            c = K.CURRENT
            t = c.current_thread() if c is not None else None
            if t is None:
                raise K.SimKilled()
            return std_of(t.proc, a)
        return getattr(_sys, a)

    def __setattr__(self, a, v):
        if a in SysProxy.PER_PROC:
            k().me().proc.sysattrs[a] = v
        else:
            self.__dict__[a] = v


def std_of(proc, a):
    v = proc.sysattrs.get(a)
    if v is None and a not in proc.sysattrs:
        c = proc.kernel
        fd = {"stdin": 0, "stdout": 1, "stderr": 2}[a.strip("_")]
        v = SimFile(c, "<terminal>", "w", fd)
        proc.sysattrs[a] = v
        proc.fdtable.setdefault(fd, "<terminal>")
    return v


def make_os():
    def getpid():
        return k().me().proc.pid

    def getppid():
        p = k().me().proc.parent
        return p.pid if p else 1

    def _exit(code):
        k().exit_process(code, "os._exit")

    def kill(pid, sig):
        kk = k()
        kk.tick("kill")
        for p in kk.procs:
            if p.pid == pid and p.alive:
                signal_process(kk, p, sig)
                t = kk.me()
                if not t.proc.alive:
                    kk.park(t)
                return
        raise ProcessLookupError(3, "No such process")

    def close(fd):
        kk = k()
        kk.tick("close")
        p = kk.me().proc
        if fd in p.fdtable:
            del p.fdtable[fd]
        elif fd in (0, 1, 2):
            pass
        else:
            raise OSError(9, "Bad file descriptor")

    def dup2(a, b, inheritable=True):
        kk = k()
        kk.tick("dup2")
        p = kk.me().proc
        if a not in p.fdtable:
            raise OSError(9, "Bad file descriptor")
        p.fdtable[b] = p.fdtable[a]
        return b

    def dup(a):
        p = k().me().proc
        fd = k().next_fd()
        p.fdtable[fd] = p.fdtable[a]
        return fd

    def write(fd, data):
        kk = k()
        p = kk.me().proc
        name = p.fdtable.get(fd, "<terminal>")
        kk.fs.setdefault(name, []).append((p.ordinal, data.decode("utf8", "replace")))
        return len(data)

    def makedirs(name, mode=0o777, exist_ok=False):
        SimPath(name).mkdir(parents=True, exist_ok=exist_ok)

    def getenv(key, default=None):
        return k().me().proc.environ.get(key, default)

    def putenv(key, v):
        k().me().proc.environ[key] = v

    def register_at_fork(before=None, after_in_parent=None, after_in_child=None):
        if after_in_child is not None and K.CURRENT is not None:
            k().child_hooks.append(lambda p: after_in_child())

    class OsProxy(ProxyModule):
        def __getattr__(self, a):
            if a == "environ":
                return k().me().proc.environ
            return getattr(_os, a)

    over = dict(getpid=getpid, getppid=getppid, _exit=_exit, kill=kill, close=close,
                dup2=dup2, dup=dup, write=write, makedirs=makedirs, getenv=getenv, putenv=putenv,
                mkdir=lambda n, mode=0o777: SimPath(n).mkdir(),
                register_at_fork=register_at_fork,
                remove=lambda p: k().fs.pop(_norm(p), None),
                unlink=lambda p: k().fs.pop(_norm(p), None))
    m = OsProxy("os", _os, over)
    path = ProxyModule("posixpath", _os.path, dict(
        exists=lambda p: SimPath(p).exists(), isfile=lambda p: SimPath(p).is_file(),
        isdir=lambda p: SimPath(p).is_dir()))
    m.__dict__["path"] = path
    return m


def signal_process(kk, p, sig):
    """Delivers a signal with its default action."""
    if sig == 0 or not p.alive:
        return
    if sig == _signal.SIGINT:
        if p.main is not None and p.main.state != K.DONE:
            kk.interrupt(p.main, KeyboardInterrupt())
        return
    kk.kill_process(p, -int(sig), f"signal {int(sig)}")


# ---------------------------------------------------------------- stdlib copies
class Fakes:
    """All stand-in modules; built once per OS process, reset before each run."""

    def __init__(self):
        self.mods = {}
        self.code = {}
        m = self.mods
        m["_thread"] = make__thread()
        m["time"] = make_time()
        m["os"] = make_os()
        m["sys"] = SysProxy("sys")
        m["pathlib"] = make_pathlib()
        m["threading"] = self._copy("threading")
        m["threading"]._CRLock = None
        m["threading"].RLock = m["threading"]._PyRLock
        m["queue"] = self._copy("queue")
        m["queue"].Full = _queue_real.Full  # user code raises and catches the same classes
        m["socket"] = None
        m["atexit"] = self._atexit()
        m["tqdm"], m["tqdm.auto"], m["tqdm.std"] = self._tqdm()
        m["signal"] = ProxyModule("signal", _signal, dict(
            signal=lambda s, h: None, getsignal=lambda s: None))
        self._mp()
        m["random"] = self._random()

    # import hook used by the copied sources
    def _imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if name == "_queue":
            m = types.ModuleType("_queue")
            m.Empty = _queue_real.Empty  # no SimpleQueue: the pure Python one is used
            return m
        if name in ("sys", "os"):
            return builtins.__import__(name, globals, locals, fromlist, level)
        if name in self.mods:
            return self.mods[name]
        return builtins.__import__(name, globals, locals, fromlist, level)

    def _copy(self, name):
        spec = importlib.util.find_spec(name)
        src = open(spec.origin).read()
        mod = types.ModuleType(name)
        mod.__file__ = spec.origin
        b = dict(vars(builtins))
        b["__import__"] = self._imp
        mod.__dict__["__builtins__"] = b
        if name == "threading":
            # no import-time side effects on the interpreter
            src = src.replace('if hasattr(_os, "register_at_fork"):', "if False:")
        src = src.replace("if hasattr(os, 'register_at_fork'):", "if False:")
        exec(compile(src, spec.origin + " (simulated)", "exec"), mod.__dict__)
        return mod

    def _atexit(self):
        m = types.ModuleType("atexit")
        m.register = lambda f, *a, **kw: f
        m.unregister = lambda f: None
        return m

    def _random(self):
        import random as r
        return ProxyModule("random", r, {})

    def _tqdm(self):
        class tqdm:
            def __init__(self, iterable=None, *a, total=None, desc=None, **kw):
                self.iterable = iterable
                self.total = total
                self.desc = desc
                self.n = 0
                self.closed = False
                self.shown = {}
                c = K.CURRENT
                if c is not None:
                    c.bars.append(self)

            def update(self, n=1):
                self.n += n

            def set_description(self, d=None, refresh=True):
                self.desc = d

            set_description_str = set_description

            def set_postfix(self, ordered_dict=None, refresh=True, **kw):
                self.shown = dict(ordered_dict or {}, **kw)

            def set_postfix_str(self, *a, **kw):
                pass

            def refresh(self, *a, **kw):
                pass

            def clear(self, *a, **kw):
                pass

            def reset(self, total=None):
                self.n = 0

            def close(self):
                self.closed = True

            def __iter__(self):
                return iter(self.iterable)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()

            @classmethod
            def write(cls, s, file=None, end="\n", nolock=False):
                pass

        a = types.ModuleType("tqdm")
        a.__path__ = []
        b = types.ModuleType("tqdm.auto")
        c = types.ModuleType("tqdm.std")
        for x in (a, b, c):
            x.tqdm = tqdm
            x.trange = lambda *r, **kw: tqdm(range(*r), **kw)
        a.auto, a.std = b, c
        return a, b, c

    # ------------------------------------------------------------ multiprocessing
    def _mp(self):
        th, qm, tm = self.mods["threading"], self.mods["queue"], self.mods["time"]
        fakes = self

        class Process:
            _count = 0

            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
                self._target = target
                self._args = tuple(args)
                self._kwargs = dict(kwargs or {})
                c = k()
                Process._count = getattr(c, "mp_count", 0) + 1
                c.mp_count = Process._count
                self.name = name or f"Process-{Process._count}"
                self._daemon = bool(daemon)
                self._p = None
                self._closed = False
                self._parent = c.me().proc

            @property
            def daemon(self):
                return self._daemon

            @daemon.setter
            def daemon(self, v):
                self._daemon = v

            def run(self, target=None):
                target = target or self._target
                if target:
                    target(*self._args, **self._kwargs)

            def start(self):
                kk = k()
                kk.tick("fork")
                if self._p is not None:
                    raise AssertionError("cannot start a process twice")
                if kk.fork_fails is not None:
                    e = kk.fork_fails()
                    if e is not None:
                        kk.stat("fault.fork_fails")
                        raise e
                delay = (0.001, 0.01, 0.06, 0.3, 1.1)[kk.ch.skewed(kk.fork_delays, 0.6)]
                child = space.copied_self(self._target)
                p = kk.fork(lambda: self._bootstrap(child), self.name, delay)
                p.tag["mp"] = self
                self._p = p
                for f in kk.fork_hooks:
                    f(p, self)
                kk.tick("forked")

            def _bootstrap(self, child=None):
                kk = k()
                p = kk.me().proc
                for f in kk.child_hooks:
                    f(p)
                code = 0
                cause = "return"
                try:
                    try:
                        kk.tick("boot")
                        if type(self).run is Process.run:
                            self.run(child)
                        else:
                            self.run()
                    finally:
                        if not kk.dead:
                            fakes._join_threads(kk, p)
                except K.SimKilled:
                    raise
                except SystemExit as e:
                    cause = "SystemExit"
                    if e.code is None:
                        code = 0
                    elif isinstance(e.code, int):
                        code = e.code
                    else:
                        code = 1
                except BaseException as e:
                    code = 1
                    cause = "exception " + type(e).__name__
                    std_of(p, "stderr").write(f"{type(e).__name__}: {e}\n")
                # flush multiprocessing queues written by this process
                for fd in p.feeders:
                    fd.join_feeder()
                # children that were not joined
                for c in list(kk.procs):
                    if c.parent is p and c.alive:
                        mpo = c.tag.get("mp")
                        if mpo is not None and mpo._daemon:
                            kk.kill_process(c, -15, "daemon")
                        elif mpo is not None:
                            mpo.join()
                kk.exit_process(code & 0xFF if code >= 0 else code, cause)

            def _need(self):
                if self._closed:
                    raise ValueError("process object is closed")

            def join(self, timeout=None):
                kk = k()
                kk.tick("join")
                self._need()
                assert self._p is not None, "can only join a started process"
                end = None if timeout is None else kk.now + timeout
                while self._p.alive:
                    left = None
                    if end is not None:
                        left = end - kk.now
                        if left <= 0:
                            return
                    self._p.exit_waiters.append(kk.me())
                    kk.block(left, "join")

            def is_alive(self):
                kk = k()
                kk.tick("is_alive")
                self._need()
                return self._p is not None and self._p.alive

            @property
            def exitcode(self):
                kk = k()
                kk.tick("exitcode")
                self._need()
                return None if self._p is None or self._p.alive else self._p.exitcode

            @property
            def pid(self):
                self._need()
                return None if self._p is None else self._p.pid

            ident = pid

            @property
            def sentinel(self):
                return self._p.pid

            def terminate(self):
                kk = k()
                kk.tick("terminate")
                self._need()
                if self._p is not None and self._p.alive:
                    p = self._p
                    kk.stat("terminate")
                    d = (0.0, 0.0005, 0.02, 3.0)[kk.ch.skewed(4 if kk.slow_term else 3, 0.7)]
                    kk.termlog.append((kk.now, p.ordinal, kk.me().proc.ordinal))
                    for f in kk.term_hooks:
                        f(p)
                    if d == 0.0:
                        kk.kill_process(p, -15, "terminate")
                    else:
                        kk.at(d, lambda: kk.kill_process(p, -15, "terminate"))

            def kill(self):
                kk = k()
                kk.tick("terminate")
                self._need()
                if self._p is not None and self._p.alive:
                    kk.termlog.append((kk.now, self._p.ordinal, kk.me().proc.ordinal))
                    for f in kk.term_hooks:
                        f(self._p)
                    kk.kill_process(self._p, -9, "terminate")

            def close(self):
                if self._p is not None and self._p.alive:
                    raise ValueError("Cannot close a process while it is still running.")
                self._closed = True

            def __repr__(self):
                return f"<Process {self.name}>"

        class Queue:
            """Pickles in a feeder thread of the putting process, like the real one."""

            def __init__(self, maxsize=0, *, ctx=None):
                self._max = maxsize if maxsize > 0 else 1 << 30
                self._cond = th.Condition()
                self._pipe = []  # (arrival order) pickled items
                self._count = 0
                self._bufs = {}
                self._busy = {}
                self._closed = False

            def put(self, obj, block=True, timeout=None):
                kk = k()
                kk.tick("mpput")
                if self._closed:
                    raise ValueError("Queue is closed")
                with self._cond:
                    if not self._cond.wait_for(lambda: self._count < self._max,
                                               0 if not block else timeout):
                        raise qm.Full
                    self._count += 1
                p = kk.me().proc
                buf = self._bufs.get(p.pid)
                if buf is None:
                    buf = self._bufs[p.pid] = []
                    p.feeders.append(self)
                    kk.spawn_thread(p, lambda: self._feed(p), "QueueFeederThread", daemon=True)
                buf.append(obj)
                self._wake(p)

            def _wake(self, p):
                w = self._busy.pop(("w", p.pid), None)
                if w is not None:
                    k().make_runnable(w, "put")

            def _feed(self, p):
                kk = k()
                buf = self._bufs[p.pid]
                while True:
                    while not buf:
                        self._busy[("w", p.pid)] = kk.me()
                        kk.block(None, "feeder")
                    obj = buf[0]
                    try:
                        data = pickle.dumps(obj)
                    except Exception as e:
                        std_of(p, "stderr").write(f"feeder: {e!r}\n")
                        kk.probe("mp.unpicklable")
                        self._count -= 1
                        buf.pop(0)
                        self._done(p)
                        continue
                    d = (0.0002, 0.005, 0.15)[kk.ch.skewed(3, 0.7)]
                    kk.sleep(d)
                    self._pipe.append(data)
                    buf.pop(0)
                    for w in self._busy.pop("r", []):
                        kk.make_runnable(w, "data")
                    self._done(p)

            def _done(self, p):
                if not self._bufs[p.pid]:
                    for w in self._busy.pop(("j", p.pid), []):
                        k().make_runnable(w, "flushed")

            def join_feeder(self):
                kk = k()
                p = kk.me().proc
                while self._bufs.get(p.pid):
                    self._busy.setdefault(("j", p.pid), []).append(kk.me())
                    kk.block(None, "join feeder", interruptible=False)

            def get(self, block=True, timeout=None):
                kk = k()
                kk.tick("mpget")
                end = None if timeout is None else kk.now + timeout
                while not self._pipe:
                    if not block:
                        raise qm.Empty
                    left = None
                    if end is not None:
                        left = end - kk.now
                        if left <= 0:
                            raise qm.Empty
                    self._busy.setdefault("r", []).append(kk.me())
                    kk.block(left, "mpget")
                data = self._pipe.pop(0)
                self._count -= 1
                return pickle.loads(data)

            def get_nowait(self):
                return self.get(False)

            def put_nowait(self, obj):
                return self.put(obj, False)

            def empty(self):
                k().tick("mpempty")
                return not self._pipe

            def full(self):
                return self._count >= self._max

            def qsize(self):
                return self._count

            def close(self):
                self._closed = True

            def join_thread(self):
                self.join_feeder()

            def cancel_join_thread(self):
                pass

        class Value:
            def __init__(self, typecode, *args, lock=True):
                self._v = args[0] if args else 0
                self._lock = th.RLock() if lock in (True, None) else lock

            @property
            def value(self):
                k().tick("value")
                return self._v

            @value.setter
            def value(self, v):
                k().tick("value")
                self._v = v

            def get_lock(self):
                return self._lock

            def get_obj(self):
                return self

            def acquire(self, *a):
                return self._lock.acquire(*a)

            def release(self):
                return self._lock.release()

            def __enter__(self):
                return self._lock.__enter__()

            def __exit__(self, *a):
                return self._lock.__exit__(*a)

        class Connection:
            def __init__(self):
                self._in = []
                self._w = []
                self._peer = None

            def send(self, obj):
                k().tick("pipe")
                self._peer._in.append(pickle.dumps(obj))
                for w in self._peer._w:
                    k().make_runnable(w, "pipe")
                self._peer._w = []

            def poll(self, timeout=0.0):
                kk = k()
                end = None if timeout is None else kk.now + timeout
                while not self._in:
                    left = None if end is None else end - kk.now
                    if left is not None and left <= 0:
                        return False
                    self._w.append(kk.me())
                    kk.block(left, "pipe")
                return True

            def recv(self):
                self.poll(None)
                return pickle.loads(self._in.pop(0))

            def close(self):
                pass

        def Pipe(duplex=True):
            a, b = Connection(), Connection()
            a._peer, b._peer = b, a
            return a, b

        class ApplyResult:
            def __init__(self):
                self._c = th.Condition()
                self._ready = False
                self._val = None
                self._ok = True

            def _set(self, ok, v):
                with self._c:
                    self._ready, self._ok, self._val = True, ok, v
                    self._c.notify_all()

            def ready(self):
                return self._ready

            def successful(self):
                if not self._ready:
                    raise ValueError("not ready")
                return self._ok

            def wait(self, timeout=None):
                with self._c:
                    self._c.wait_for(lambda: self._ready, timeout)

            def get(self, timeout=None):
                self.wait(timeout)
                if not self._ready:
                    raise mp.TimeoutError
                if self._ok:
                    return self._val
                raise self._val

        class ThreadPool:
            def __init__(self, processes=None, initializer=None, initargs=()):
                self._n = processes or 4
                self._q = qm.SimpleQueue()
                self._threads = []
                self._init = (initializer, initargs)
                self._state = "RUN"
                for i in range(self._n):
                    t = th.Thread(target=self._work, daemon=True, name=f"ThreadPool-{i}")
                    t.start()
                    self._threads.append(t)

            def _work(self):
                if self._init[0] is not None:
                    self._init[0](*self._init[1])
                while True:
                    job = self._q.get()
                    if job is None:
                        return
                    f, a, kw, res, cb, ecb = job
                    try:
                        v = f(*a, **kw)
                        ok = True
                    except Exception as e:
                        v, ok = e, False
                    res._set(ok, v)
                    if ok and cb:
                        cb(v)
                    if not ok and ecb:
                        ecb(v)

            def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
                if self._state != "RUN":
                    raise ValueError("Pool not running")
                r = ApplyResult()
                self._q.put((func, tuple(args), dict(kwds), r, callback, error_callback))
                return r

            def apply(self, func, args=(), kwds={}):
                return self.apply_async(func, args, kwds).get()

            def map_async(self, func, iterable, chunksize=None):
                items = list(iterable)
                return self.apply_async(lambda: [func(x) for x in items])

            def map(self, func, iterable, chunksize=None):
                rs = [self.apply_async(func, (x,)) for x in iterable]
                return [r.get() for r in rs]

            def starmap(self, func, iterable, chunksize=None):
                rs = [self.apply_async(func, x) for x in iterable]
                return [r.get() for r in rs]

            def imap(self, func, iterable, chunksize=1):
                return iter(self.map(func, iterable))

            imap_unordered = imap

            def close(self):
                if self._state == "RUN":
                    self._state = "CLOSE"
                    for _ in self._threads:
                        self._q.put(None)

            def terminate(self):
                # threads cannot be stopped: idle ones leave, busy ones stay behind
                if self._state != "TERMINATE":
                    was, self._state = self._state, "TERMINATE"
                    if was == "RUN":
                        for _ in self._threads:
                            self._q.put(None)

            def join(self):
                for t in self._threads:
                    t.join()

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.terminate()

        class CurrentProcess:
            def __init__(self, p):
                mpo = p.tag.get("mp")
                self.name = mpo.name if mpo else "MainProcess"
                self.pid = self.ident = p.pid
                self.daemon = mpo._daemon if mpo else False
                self.exitcode = None
                self.authkey = b""

        mp = types.ModuleType("multiprocessing")
        mp.__path__ = []

        class TimeoutError_(Exception):
            pass
        mp.TimeoutError = TimeoutError_
        mp.ProcessError = Exception
        ctxd = dict(
            Process=Process, Queue=Queue, JoinableQueue=Queue, SimpleQueue=Queue,
            Event=th.Event, Lock=th.Lock, RLock=th.RLock, Condition=th.Condition,
            Semaphore=th.Semaphore, BoundedSemaphore=th.BoundedSemaphore, Barrier=th.Barrier,
            Value=Value, Pipe=Pipe, RawValue=lambda t, *a: Value(t, *a, lock=False),
            cpu_count=lambda: 8,
            current_process=lambda: CurrentProcess(k().me().proc),
            parent_process=lambda: None,
            active_children=lambda: [p.tag["mp"] for p in k().procs
                                     if p.alive and p.parent is k().me().proc and "mp" in p.tag],
            get_start_method=lambda allow_none=False: "fork",
            set_start_method=lambda *a, **kw: None,
            get_all_start_methods=lambda: ["fork"],
            freeze_support=lambda: None,
            get_logger=lambda: __import__("logging").getLogger("multiprocessing"),
        )
        ctxd["TimeoutError"] = TimeoutError_
        ctx = types.SimpleNamespace(**ctxd)
        ctx.get_context = lambda method=None: ctx
        ctxd["get_context"] = lambda method=None: ctx
        mp.__dict__.update(ctxd)
        sub = {}
        for n, d in dict(
                pool=dict(ThreadPool=ThreadPool, AsyncResult=ApplyResult, ApplyResult=ApplyResult),
                queues=dict(Queue=Queue, SimpleQueue=Queue, Empty=qm.Empty, Full=qm.Full),
                process=dict(BaseProcess=Process, current_process=ctxd["current_process"]),
                context=dict(Process=Process),
                connection=dict(Connection=Connection, wait=lambda l, timeout=None: []),
                synchronize=dict(Event=th.Event, Lock=th.Lock),
                sharedctypes=dict(Value=Value),
                dummy=dict(Process=th.Thread),
                util=dict(),
        ).items():
            s = types.ModuleType("multiprocessing." + n)
            s.__dict__.update(d)
            setattr(mp, n, s)
            sub["multiprocessing." + n] = s
        mp.process.current_process = ctxd["current_process"]
        self.mods["multiprocessing"] = mp
        self.mods.update(sub)
        self.Process = Process
        self.MPQueue = Queue

    def _join_threads(self, kk, p):
        """threading._shutdown(): wait for non-daemon threads."""
        me = kk.me()
        for t in list(p.threads):
            if t is me or t.daemon or t.state in (K.DONE, K.PARKED):
                continue
            done = []
            t.on_exit.append(lambda: kk.make_runnable(me, "thread done"))
            while t.state not in (K.DONE, K.PARKED):
                kk.block(None, "join threads")

    def futures(self):
        if "concurrent.futures" in self.mods:
            return self.mods["concurrent.futures"]
        base = types.ModuleType("concurrent.futures")
        base.__path__ = []
        _b = self._copy("concurrent.futures._base")
        self.mods["concurrent.futures._base"] = _b
        # `from concurrent.futures import _base` inside thread.py
        base._base = _b
        self.mods["concurrent.futures"] = base
        t = self._copy("concurrent.futures.thread")
        for v in list(vars(t).values()):
            if isinstance(v, SimLock):
                v._per_process = True
        base.thread = t
        self.mods["concurrent.futures.thread"] = t
        for a in ("Future", "wait", "as_completed", "TimeoutError", "CancelledError", "Executor",
                  "FIRST_COMPLETED", "FIRST_EXCEPTION", "ALL_COMPLETED"):
            if hasattr(_b, a):
                setattr(base, a, getattr(_b, a))
        base.ThreadPoolExecutor = t.ThreadPoolExecutor
        c = types.ModuleType("concurrent")
        c.__path__ = []
        c.futures = base
        self.mods["concurrent"] = c
        return base

    # ------------------------------------------------------------ per run
    def reset(self, kk):
        th = self.mods["threading"]
        th._active.clear()
        th._limbo.clear()
        th._dangling = weakref.WeakSet()
        th._shutdown_locks.clear()
        th._counter = __import__("itertools").count(1).__next__
        kk.dirs = {".", "/", "/tmp"}
        kk.fslog = []
        kk.bars = []
        kk.termlog = []
        kk.term_hooks = []
        kk.fork_hooks = []
        kk.child_hooks = []
        kk.fork_fails = getattr(kk, "fork_fails", None)
        kk.fork_delays = getattr(kk, "fork_delays", 3)
        kk.fsfail = None
        import random as r
        seed = kk.ch.choose(1 << 16)
        rnd = r.Random(seed)
        for a in ("random", "randint", "choice", "shuffle", "uniform", "randrange", "sample",
                  "getrandbits", "gauss", "choices", "expovariate"):
            self.mods["random"].__dict__[a] = getattr(rnd, a)


def sim_print(*args, sep=" ", end="\n", file=None, flush=False):
    c = K.CURRENT
    t = c.current_thread() if c is not None else None
    if t is None:
        return
    if file is None:
        file = std_of(t.proc, "stdout")
        if file is None:
            return          # as print() does without a stdout
    file.write((sep or " ").join(str(a) for a in args) + (end if end is not None else "\n"))
