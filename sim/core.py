"""Executes one configuration under one stream of choices and returns what happened."""
import gc
import importlib
import logging
import sys
import time
import warnings

from . import kernel as K
from . import lines
from . import loader as L
from . import net as N

SCENARIOS = ("e2e", "sched", "tcp", "pool", "serial", "resume", "book", "addr")
_mods = {}
_ready = False
_n = 0


def scenario(name):
    m = _mods.get(name)
    if m is None:
        m = _mods[name] = importlib.import_module("sim.sc_" + name)
    return m


def setup():
    global _ready
    if _ready:
        return
    _ready = True
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    L.install()
    gc.disable()

    def hook(u):
        kk = K.CURRENT
        if kk is None or kk.dead or issubclass(u.exc_type, K.SimKilled):
            return
        kk.unraisable.append(("__del__", repr(u.exc_value)))
    sys.unraisablehook = hook


class Result:
    pass


def execute(cfg, seed=None, choices=None, trace=False, wall=60.0):
    global _n
    setup()
    _n += 1
    if _n % 40 == 0:
        gc.collect()
    t0 = time.time()
    ch = K.Chooser(seed, choices)
    kk = K.Kernel(ch, cfg.get("sched"), max_ticks=cfg.get("max_ticks", 3_000_000),
                  max_time=cfg.get("max_time", 4000.0))
    kk.trace_on = trace
    kk.want_lines = bool(cfg.get("lines"))
    kk.wall_limit = wall
    kk.net = N.Network(kk, cfg.get("net"))
    kk.fork_delays = cfg.get("fork_delays", 3)
    kk.fork_fails = None
    kk.slow_term = bool(cfg.get("slow_term"))
    K.CURRENT = kk
    L.fakes().reset(kk)
    bads = []
    r = Result()
    try:
        worlds = scenario(cfg["scenario"]).run(kk, cfg, bads)
    finally:
        kk.line_mode = False
        lines.disable()
        if not cfg.get("keep_modules"):
            L.purge()
    r.kk = kk
    r.cfg = cfg
    r.seed = seed
    r.bads = bads
    r.worlds = worlds
    r.ended = kk.ended
    r.choices = ch.record
    r.hash = kk.hash
    r.inter = kk.interleave_hash
    r.sim_time = kk.now
    r.ticks = kk.ticks
    r.stats = dict(kk.stats)
    r.probes = dict(kk.probes)
    r.wall = time.time() - t0
    r.leaked = kk.leaked
    r.errors = list(kk.harness_errors)
    if kk.ended == "wall":
        r.errors.append("wall-clock limit")
    K.CURRENT = None
    return r
