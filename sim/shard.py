"""One OS process of a check: executes runs and reports them as JSON lines on stdout.

Usage: python -m sim.shard '<json>' with mode run | find | replay | shrink.
"""
import collections
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback


def run_seed(base, prop, g):
    return int.from_bytes(hashlib.sha256(f"{base}/{prop}/{g}".encode()).digest()[:7], "big")


def make_cfg(base, prop, g):
    from . import profiles
    rng = random.Random(run_seed(base, prop, g) ^ 0x5eed)
    return profiles.make(prop, rng)


_out = None


def emit(**kw):
    _out.write(json.dumps(kw) + "\n")
    _out.flush()


def stray(r):
    """Exceptions in daisy's own threads that nobody saw (kept for the evidence)."""
    return len(r.kk.unraisable)


def mode_run(a):
    from . import core
    prop, base, shard, n = a["prop"], a["seed"], a["shard"], a["shards"]
    tot = collections.Counter()
    stats = collections.Counter()
    probes = collections.Counter()
    scen = collections.Counter()
    inters = set()
    cfgs = set()
    sim_time = 0.0
    ticks = 0
    switches = 0
    recheck_bad = []
    sample = None
    g = shard
    while g < a["runs"] and time.time() < a["deadline"]:
        cfg = make_cfg(base, prop, g)
        seed = run_seed(base, prop, g)
        emit(at=g)
        try:
            r = core.execute(cfg, seed, wall=a.get("wall", 30.0))
        except Exception:
            emit(error="exception in the simulator", g=g, tb=traceback.format_exc()[-1500:])
            os._exit(3)
        if r.ended == "wall":
            emit(wall=g)
            os._exit(4)
        if r.errors or r.leaked:
            emit(error=f"simulator: {r.errors} leaked={r.leaked}", g=g)
            os._exit(3)
        tot["runs"] += 1
        stats.update(r.stats)
        probes.update(r.probes)
        scen[cfg["scenario"] + ("/" + cfg["mode"] if cfg.get("mode") and cfg["mode"] != cfg["scenario"] else "")] += 1
        if cfg.get("lines"):
            tot["line_runs"] += 1
        tot["stray_exceptions"] += stray(r)
        sim_time += r.sim_time
        ticks += r.ticks
        switches += r.kk.switches
        nontrivial = r.probes.get("events", 0) + sum(len(w.H) for w in r.worlds if hasattr(w, "H")) >= 2
        if nontrivial:
            inters.add(r.inter ^ (hash_cfg(cfg) & 0xFFFFFFFFFFFF))
            tot["nontrivial"] += 1
        cfgs.add(hash_cfg(cfg))
        mine = [b for b in r.bads if prop in b.tags]
        other = [b for b in r.bads if prop not in b.tags]
        if other and not mine:
            tot["other_property_alarms"] += 1
        if mine:
            emit(violation=dict(g=g, seed=seed, cfg=cfg, choices=r.choices, bad=mine[0].as_dict(),
                                others=[b.oracle for b in r.bads][:10], ended=r.ended, hash=r.hash))
            break
        if sample is None and nontrivial and tot["runs"] > 3:
            sample = dict(seed=seed, run=g, scenario=cfg["scenario"], config=compact(cfg), ended=r.ended,
                          simulated_seconds=round(r.sim_time, 3), choices=len(r.choices),
                          history=[list(h) for w in r.worlds if hasattr(w, "H") for h in w.H][:12])
        if tot["runs"] % 50 == 7:
            r2 = core.execute(cfg, None, choices=list(r.choices), wall=a.get("wall", 30.0))
            tot["rechecks"] += 1
            if r2.hash != r.hash:
                recheck_bad.append(g)
        g += n
    emit(done=dict(tot=tot, stats=stats, probes=probes, scen=scen, inters=list(inters), cfgs=len(cfgs),
                   sim_time=sim_time, ticks=ticks, switches=switches, recheck_bad=recheck_bad, sample=sample))
    _out.flush()
    os._exit(0)


def hash_cfg(cfg):
    return int.from_bytes(hashlib.sha256(json.dumps(cfg, sort_keys=True).encode()).digest()[:7], "big")


def compact(cfg):
    out = {}
    for k, v in cfg.items():
        if v in ({}, [], None, False):
            continue
        out[k] = v
    return out


def mode_replay(a):
    """Runs one configuration with recorded choices (or a seed); reports what it violates."""
    from . import core
    f = a["file"]
    r = core.execute(f["cfg"], f.get("seed") if f.get("choices") is None else None, choices=f.get("choices"),
                     trace=bool(a.get("trace")), wall=a.get("wall", 60.0))
    emit(replay=dict(bads=[b.as_dict() for b in r.bads], ended=r.ended, hash=r.hash, errors=r.errors,
                     leaked=r.leaked, choices=r.choices, sim_time=r.sim_time,
                     history=[list(h) for w in r.worlds if hasattr(w, "H") for h in w.H],
                     trace=[list(map(str, t)) for t in r.kk.trace][-400:] if a.get("trace") else []))
    os._exit(0)


def mode_shrink(a):
    from . import shrink
    cfg, choices, n = shrink.shrink(a["cfg"], a["prop"], a["sig"], a["seed"], a["choices"], a.get("budget", 45.0))
    emit(shrunk=dict(cfg=cfg, choices=choices, tried=n))
    os._exit(0)


def main():
    global _out
    _out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    a = json.loads(sys.stdin.read())
    if a.get("cpu") is not None:
        try:
            os.sched_setaffinity(0, {a["cpu"]})
        except OSError:
            pass
    if a["mode"] == "run":
        signal.signal(signal.SIGTERM, lambda *x: a.update(deadline=0.0))
    globals()["mode_" + a["mode"]](a)


if __name__ == "__main__":
    main()
