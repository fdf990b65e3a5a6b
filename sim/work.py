"""User code of the simulated runs: everything daisy gets from its caller, importable and picklable.

All behaviour comes from the world of the current run; these objects only carry a task id.
"""
import functools
import queue as _real_queue
import threading as _real_threading

import numpy

from . import kernel as K


def W():
    """The world of the run the calling process belongs to."""
    kk = K.CURRENT
    t = kk.current_thread()
    p = t.proc if t is not None else None
    while p is not None:
        w = p.tag.get("world")
        if w is not None:
            return w
        p = p.parent
    return kk.world


class ProcFn:
    """process_function(block)"""

    def __init__(self, task):
        self.task = task

    def __call__(self, block):
        W().process(self.task, block)


class SpawnFn:
    """A worker main function: no arguments, brings its own client loop."""

    def __init__(self, task):
        self.task = task

    def __call__(self):
        W().spawn(self.task)


class CheckFn:
    def __init__(self, task):
        self.task = task

    def __call__(self, block):
        return W().check(self.task, block)


class InitFn:
    def __init__(self, task):
        self.task = task

    def __call__(self, context):
        W().init(self.task, context)


class Owner:
    def __init__(self, fn):
        self.fn = fn

    def one(self, block):
        self.fn(block)

    def none(self):
        self.fn()


def two(fn, block):
    fn(block)


def styled(fn, style):
    """The same function as another kind of callable."""
    one = isinstance(fn, ProcFn)
    if style == "lambda":
        return (lambda b: fn(b)) if one else (lambda: fn())
    if style == "closure":
        if one:
            def work_on(blk):
                return fn(blk)
        else:
            def work_on():
                return fn()
        return work_on
    if style == "method":
        return Owner(fn).one if one else Owner(fn).none
    if style == "partial" and one:
        return functools.partial(two, fn)
    if style == "result" and one:
        # what the function returns does not matter
        def gives(block):
            fn(block)
            return False
        return gives
    return fn


class Boom(Exception):
    """An ordinary user exception; it notes when it arrives in the main process."""

    def __reduce__(self):
        return (_boom, (self.args[0],))


def _boom(msg):
    kk = K.CURRENT
    t = kk.current_thread() if kk is not None else None
    if t is not None:
        w = W()
        if t.proc is getattr(w, "main_proc", None):
            w.unpacked.setdefault(msg, kk.now)
    return Boom(msg)


class BadInit(Exception):
    """Can be pickled but not unpickled."""

    def __init__(self, a, b):
        super().__init__(f"{a}/{b}")


class NoPickle(Exception):
    """Cannot be pickled."""

    def __init__(self, msg):
        super().__init__(msg)
        self.lock = _real_threading.Lock()


class Chatty(Exception):
    """Pickles through __reduce__ with extra state."""

    def __init__(self, msg, code=0):
        super().__init__(msg)
        self.code = code

    def __reduce__(self):
        return (Chatty, (self.args[0], self.code))


class BadRepr(Exception):
    """Cannot be printed."""

    def __repr__(self):
        return "BadRepr(%s)" % self.details

    __str__ = __repr__


class Foreign(Exception):
    """Of a class that exists only in the worker (defined in the script it runs)."""

    def __reduce__(self):
        return (_foreign, (self.args[0], K.CURRENT.me().proc.ordinal))


def _foreign(msg, ordinal):
    if K.CURRENT.me().proc.ordinal != ordinal:
        raise AttributeError("Can't get attribute 'Foreign' on <module '__main__'>")
    return Foreign(msg)


def text(e):
    """All an exception says."""
    out = []
    for f in (str, repr, lambda x: str(x.args)):
        try:
            out.append(f(e))
        except Exception:
            pass
    return " ".join(out)


def truth(how, res):
    """Values that are true or false without being bools."""
    if how == "np":
        return numpy.bool_(res)
    if how == "int":
        return int(res)
    if how == "text":
        return "done" if res else ""
    if how == "list":
        return [0] if res else None
    return res


def make_exc(kind, msg):
    if kind == "foreign":
        return Foreign(msg)
    if kind == "badrepr":
        return BadRepr(msg)
    if kind == "badinit":
        return BadInit(msg, "x")
    if kind == "nopickle":
        return NoPickle(msg)
    if kind == "chatty":
        return Chatty(msg, 7)
    if kind == "key":
        return KeyError(msg)
    if kind == "conn":
        return ConnectionResetError(msg)
    if kind == "stopiter":
        return StopIteration(msg)
    if kind == "assert":
        return AssertionError(msg)
    if kind == "timeout":
        return TimeoutError(msg)
    if kind == "os":
        return FileNotFoundError(2, msg)
    if kind == "empty":
        return _real_queue.Empty(msg)
    if kind == "runtime":
        return RuntimeError(msg)
    if kind == "value":
        return ValueError(msg)
    if kind == "notconnected":
        return W().d.tcp.exceptions.NotConnected(msg)
    if kind == "closed":
        return W().d.tcp.exceptions.StreamClosedError(msg)
    return Boom(msg)


EXC_KINDS = ("boom", "key", "badinit", "nopickle", "chatty", "conn", "assert", "timeout", "os", "empty", "stopiter", "runtime",
             "value", "notconnected", "closed", "badrepr", "foreign")


class PoolFn:
    """Main function of the workers of a bare pool."""

    def __call__(self):
        W().worker()
