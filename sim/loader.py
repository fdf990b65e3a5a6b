"""Loads /repo/daisy freshly for each run, with its view of the outside world replaced."""
import asyncio
import builtins
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import fakes as F
from . import kernel as K
from . import lines
from . import net as N
from . import space

REPO = os.environ.get("VERIF_REPO", "/repo")
_state = {}


def _det_hash(self):
    """Identity hash that does not depend on memory addresses."""
    c = K.CURRENT
    if c is None:
        return object.__hash__(self)
    e = c.det_hashes.get(id(self))
    if e is None:
        e = c.det_hashes[id(self)] = (len(c.det_hashes) + 1, self)
    return e[0]


def _build_class(func, name, *bases, **kw):
    cls = builtins.__build_class__(func, name, *bases, **kw)
    try:
        if cls.__hash__ is object.__hash__ and "__eq__" not in cls.__dict__:
            cls.__hash__ = _det_hash
    except (AttributeError, TypeError):
        pass
    return cls


def fakes():
    f = _state.get("fakes")
    if f is None:
        N.install()
        f = _state["fakes"] = F.Fakes()
        f.mods["socket"] = N.install.module
        import tornado.ioloop
        tornado.ioloop.time = f.mods["time"]
        f.futures()
        # what run_coroutine_threadsafe() returns is waited for
        asyncio.tasks.concurrent = asyncio.futures.concurrent = f.mods["concurrent"]
        b = dict(vars(builtins))
        b["__import__"] = sim_import
        b["open"] = F.sim_open
        b["print"] = F.sim_print
        b["__build_class__"] = _build_class
        _state["builtins"] = b
    return f


def sim_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        mods = _state["fakes"].mods
        top = name.partition(".")[0]
        if name.startswith("concurrent"):
            _state["fakes"].futures()
        if top in mods and (name in mods or top in ("multiprocessing", "tqdm", "concurrent")):
            if name not in mods:
                raise ImportError(f"{name} is not simulated")
            if fromlist:
                return mods[name]
            return mods[top] if "." in name else mods[name]
    return builtins.__import__(name, globals, locals, fromlist, level)


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = get_code(self.path)
        module.__dict__["__builtins__"] = _state["builtins"]
        module.__file__ = self.path
        exec(code, module.__dict__)


_codes = {}


def get_code(path):
    code = _codes.get(path)
    if code is None:
        with open(path, "rb") as f:
            src = f.read()
        code = _codes[path] = compile(src, path, "exec", dont_inherit=True)
    return code


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "daisy" and not fullname.startswith("daisy."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            spec = importlib.machinery.ModuleSpec(fullname, _Loader(p), origin=p, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        p = base + ".py"
        if os.path.exists(p):
            return importlib.machinery.ModuleSpec(fullname, _Loader(p), origin=p)
        return None


def install():
    fakes()
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())


def load():
    """A fresh daisy. Must be called from inside a simulated thread."""
    purge()
    d = importlib.import_module("daisy")
    K.CURRENT.spaces.append(space.Space(K.CURRENT.me().proc))
    kk = K.CURRENT
    if getattr(kk, "focus", None) is not None:
        lines.enable([focus_code(kk.focus["at"], kk.focus.get("files"))])
        kk.line_mode = True
    elif getattr(kk, "want_lines", False):
        lines.enable(all_code())
        kk.line_mode = True
    return d


def purge():
    for n in [n for n in sys.modules if n == "daisy" or n.startswith("daisy.")]:
        del sys.modules[n]


COMPUTING = ("dependency_graph.py", "blocks.py", "block.py", "ready_surface.py", "processing_queue.py", "task_state.py", "coordinate.py", "roi.py",
             "freezable.py", "exceptions.py", "context.py", "message.py")


def focus_code(at, files=None):
    """The function at this place (0..1) among those that do more than compute."""
    c = [x for x in all_code() if x.co_name not in ("<module>", "<lambda>", "__repr__") and x.co_flags & 2 and not
         os.path.basename(x.co_filename) in COMPUTING]
    if files:
        c = [x for x in c if any(f in x.co_filename for f in files)] or c
    c.sort(key=lambda x: (x.co_filename, x.co_firstlineno))
    return c[min(int(at * len(c)), len(c) - 1)]


def all_code():
    """Every code object of daisy loaded so far (recursively)."""
    out = []

    def rec(c):
        out.append(c)
        for x in c.co_consts:
            if hasattr(x, "co_code"):
                rec(x)
    for c in _codes.values():
        rec(c)
    return out
