"""Minimises a failing run: first its configuration, then its stream of choices."""
import copy
import time

from . import core


def bads_of(r, prop):
    return [b for b in r.bads if prop in b.tags]


def fails(cfg, prop, sig, seed=None, choices=None, wall=15.0):
    try:
        r = core.execute(cfg, seed, choices, wall=wall)
    except Exception:
        return None
    if r.errors or r.leaked:
        return None
    for b in bads_of(r, prop):
        if b.oracle == sig:
            return r
    return None


def candidates(cfg):
    """Simpler configurations."""
    def c():
        return copy.deepcopy(cfg)

    if cfg.get("lines"):
        x = c()
        x["lines"] = False
        yield x
    for key, simple in (("rounds", 1), ("obs_last", False), ("misuse", None), ("before", []), ("places", []), ("others", []), ("race", False), ("other_loop", []), ("reuse", False), ("where", "main")):
        if cfg.get(key, simple) != simple:
            x = c()
            x[key] = simple
            yield x
    for key in ("net", "sched"):
        if cfg.get(key):
            x = c()
            x[key] = {} if key == "net" else dict(policy="fifo")
            yield x
    s = cfg.get("sched") or {}
    if s.get("focus"):
        x = c()
        del x["sched"]["focus"]
        yield x
    elif s.get("stall_p"):
        x = c()
        x["sched"]["stall_p"] = 0.0
        yield x
    if s.get("gap"):
        x = c()
        x["sched"]["gap"] = 0
        yield x
    n = cfg.get("net") or {}
    for k, v in (("short_p", 0.0), ("seg", 0), ("lat", 0), ("sndbuf", 1 << 20)):
        if n.get(k, v) != v:
            x = c()
            x["net"][k] = v
            yield x
    if cfg.get("tasks"):
        used = {u for t in cfg["tasks"] for u in t["up"]}
        for t in cfg["tasks"]:
            if len(cfg["tasks"]) > 1 and t["id"] not in used:
                x = c()
                tid = t["id"]
                x["tasks"] = [q for q in x["tasks"] if q["id"] != tid]
                for key in ("order", "targets"):
                    if key in x:
                        x[key] = [i for i in x[key] if i != tid]
                if not x.get("targets", [1]):
                    x["targets"] = [x["tasks"][-1]["id"]]
                x["plan"] = {k: v for k, v in x.get("plan", {}).items() if not k.startswith(tid + "@")}
                for key in ("skip", "check_raise"):
                    x[key] = [k for k in x.get(key, []) if not k.startswith(tid + "@")]
                yield x
    for key in ("faults", "skip", "check_raise", "clients", "behave"):
        l = cfg.get(key)
        if not l:
            continue
        if len(l) > 3:
            for a, b in ((0, len(l) // 2), (len(l) // 2, len(l))):
                x = c()
                del x[key][a:b]
                yield x
        for i in range(min(len(l), 12)):
            x = c()
            del x[key][i]
            yield x
    for i, ops in enumerate(cfg.get("threads") or ()):
        if len(cfg["threads"]) > 1:
            x = c()
            del x["threads"][i]
            yield x
        for j in range(len(ops)):
            x = c()
            del x["threads"][i][j]
            yield x
    if len(cfg.get("crashes") or ()) > 1:
        for i in range(len(cfg["crashes"])):
            x = c()
            del x["crashes"][i]
            del x["modes"][i]
            yield x
    p = cfg.get("plan")
    if p:
        ks = list(p)
        if len(ks) > 3:
            for part in (ks[:len(ks) // 2], ks[len(ks) // 2:]):
                x = c()
                for k in part:
                    del x["plan"][k]
                yield x
        for k in ks[:12]:
            x = c()
            del x["plan"][k]
            yield x
    for i, t in enumerate(cfg.get("tasks") or ()):
        if t["workers"] > 1:
            x = c()
            x["tasks"][i]["workers"] = 1
            yield x
        if t.get("kind") == "spawn" and not t.get("spawn_err") and not t.get("misbehave"):
            x = c()
            x["tasks"][i]["kind"] = "proc"
            yield x
    if cfg.get("durs"):
        x = c()
        x["durs"] = max(0, cfg["durs"] - 2)
        yield x


def shrink(cfg, prop, sig, seed, choices, budget=45.0):
    """Returns (cfg, choices, runs tried)."""
    end = time.time() + budget * 0.6
    n = 0
    changed = True
    while changed and time.time() < end:
        changed = False
        for cand in candidates(cfg):
            if time.time() > end:
                break
            for s in (seed, seed + 1):
                n += 1
                r = fails(cand, prop, sig, s)
                if r is not None:
                    cfg, choices = cand, list(r.choices)
                    changed = True
                    break
            if changed:
                break
    end = time.time() + budget * 0.4
    # choices: shorter (the rest are zeros), then fewer non-zero ones
    hi = len(choices)
    while hi > 0 and choices[hi - 1] == 0:
        hi -= 1
    choices = choices[:hi]
    lo = 0
    while lo < hi and time.time() < end:
        mid = (lo + hi) // 2
        n += 1
        if fails(cfg, prop, sig, choices=choices[:mid]):
            hi = mid
        else:
            lo = mid + 1
    if fails(cfg, prop, sig, choices=choices[:hi]):
        choices = choices[:hi]
    size = max(1, len(choices) // 2)
    while size >= 1 and time.time() < end:
        i = 0
        while i < len(choices) and time.time() < end:
            if any(choices[i:i + size]):
                cand = choices[:i] + [0] * len(choices[i:i + size]) + choices[i + size:]
                n += 1
                if fails(cfg, prop, sig, choices=cand):
                    choices = cand
            i += size
        if size == 1:
            break
        size = max(1, size // 4)
    while choices and choices[-1] == 0:
        choices = choices[:-1]
    return cfg, choices, n
