"""Process-local module state: what daisy keeps in module globals and class attributes is copied by a fork."""
import collections
import copy
import enum
import logging
import sys
import types
import weakref

CODE = (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, types.MethodType, type, staticmethod, classmethod, property,
        logging.Logger, types.GetSetDescriptorType, types.MemberDescriptorType, types.GenericAlias)
CONTAINERS = (dict, list, set, collections.deque, collections.OrderedDict, collections.defaultdict, collections.Counter, weakref.WeakSet,
              weakref.WeakKeyDictionary, weakref.WeakValueDictionary)
MISSING = object()


def data(name, v):
    return not (name.startswith("__") and name.endswith("__")) and not isinstance(v, CODE) and not isinstance(v, enum.Enum) and type(v).__module__ not in ("typing", "__future__")


def copied(v, depth=3):
    """What a forked process has instead of v. Objects stay shared (nobody but their process uses them), containers and locks do not."""
    t = type(v)
    if t in CONTAINERS:
        if depth and isinstance(v, dict):
            w = copy.copy(v)
            for k, x in list(w.items()):
                w[k] = copied(x, depth - 1)
            return w
        if depth and t in (list, collections.deque):
            w = copy.copy(v)
            for i, x in enumerate(v):
                w[i] = copied(x, depth - 1)
            return w
        return copy.copy(v)
    if hasattr(v, "_at_fork_reinit") and t.__module__.startswith("sim"):
        try:
            return t()
        except TypeError:
            return v
    return v


def copied_self(fn, prefix="daisy"):
    """The target of a forked process: a bound method works on the child's copy of its object."""
    if isinstance(fn, types.MethodType) and type(fn.__self__).__module__.partition(".")[0] == prefix:
        o = fn.__self__
        try:
            c = copy.copy(o)
            for k, v in list(vars(c).items()):
                if type(v).__module__.partition(".")[0] == prefix and hasattr(v, "__dict__"):
                    w = copy.copy(v)
                    for k2, v2 in list(vars(w).items()):
                        vars(w)[k2] = copied(v2)
                    vars(c)[k] = w
                else:
                    vars(c)[k] = copied(v)
        except Exception:
            return fn
        return types.MethodType(fn.__func__, c)
    return fn


class Space:
    """The module state of one loaded daisy."""

    def __init__(self, proc):
        self.slots = []
        self.known = set()
        self.sizes = {}
        self.mods = [m for n, m in list(sys.modules.items()) if n == "daisy" or n.startswith("daisy.")]
        self.scan()
        self.cur = proc
        self.vals = {proc: None}
        self.first = [copied(self.get(s)) for s in self.slots]

    def scan(self):
        n = len(self.slots)
        for m in self.mods:
            self.scan_one(m)
            for c in list(vars(m).values()):
                if isinstance(c, type) and c.__module__ == m.__name__ and not isinstance(c, enum.EnumMeta):
                    self.scan_one(c)
        return len(self.slots) - n

    def scan_one(self, owner):
        d = vars(owner)
        if self.sizes.get(owner) == len(d):
            return
        self.sizes[owner] = len(d)
        for name, v in list(d.items()):
            if (owner, name) not in self.known and data(name, v):
                self.known.add((owner, name))
                self.slots.append((owner, name))

    @staticmethod
    def get(s):
        return vars(s[0]).get(s[1], MISSING)

    def fork(self, parent, child, fresh=False):
        if parent not in self.vals:
            return
        if fresh:
            self.vals[child] = [copied(v) for v in self.first] + [MISSING] * (len(self.slots) - len(self.first))
            return
        if self.cur is parent:
            self.scan()
            vals = [self.get(s) for s in self.slots]
        else:
            vals = self.vals[parent]
        self.vals[child] = [copied(v) for v in vals]

    def switch(self, proc):
        new = self.vals.get(proc, MISSING)
        if new is MISSING:
            return
        old = self.vals[self.cur] = [self.get(s) for s in self.slots]
        self.cur = proc
        self.vals[proc] = None
        for s, a, b in zip(self.slots, old, new + [MISSING] * (len(old) - len(new))):
            if a is b:
                continue
            if b is MISSING:
                try:
                    delattr(*s)
                except AttributeError:
                    pass
            else:
                setattr(*s, b)
