"""Scenario: the scheduler alone, driven by simulated requests, results and losses in any order.

No network and no processes here: what varies is the geometry of the tasks, the order of requests
and returns, and which attempts fail. This reaches far more geometries than whole runs do.
"""
from . import kernel as K
from . import loader as L
from .sc_e2e import build_tasks, check_counts
from .world import COUNTS, World


def ready_keys(w, task):
    out = []
    for b in w.model.of_task[task]:
        k = b.key
        if k in w.accepted or k in w.outstanding or k in w.failed:
            continue
        if all(u in w.accepted for u in w.deps.get(k, ())):
            out.append(k)
    return out


def run(kk, cfg, bads):
    worlds = []

    def main():
        d = L.load()
        w = World(kk, cfg, bads)
        kk.world = w
        worlds.append(w)
        w.rogue_blocks = []
        w.last_snap = {}
        w.patch(d)
        tasks = build_tasks(d, cfg)
        try:
            drive(kk, cfg, d, w, tasks)
        except K.SimKilled:
            raise
        except Exception as e:
            import traceback
            tb = "".join(traceback.format_exception(e)[-3:])
            w.bad(("C01", "C03", "C04", "C05", "C06", "C17") + (("C10",) if cfg["skip"] else ()), "scheduler-raises", f"{type(e).__name__}: {e} {tb[-400:]}")
    kk.run(main)
    return worlds


def drive(kk, cfg, d, w, tasks):
    S = d.BlockStatus
    s = d.Scheduler([tasks[t] for t in cfg["order"]])
    out = []
    rng = kk.ch
    ids = list(cfg["order"])
    cap = {t["id"]: t["workers"] for t in cfg["tasks"]}
    total = len(w.model.blocks)
    for t in ids:
        check(kk, w, s, t)
    steps = 0
    idle = 0
    while True:
        steps += 1
        if steps > 60 * total + 200:
            w.bad(("C06", "C01", "C04"), "no-end", f"not finished after {steps} steps")
            return
        free = [t for t in ids if sum(1 for b in out if b.task_id == t) < cap[t]]
        # ask for a block (of any task, also if none is ready), or return one
        n = len(free) + len(out)
        if n == 0:
            break
        i = rng.choose(n)
        if i < len(free):
            t = free[i]
            want = ready_keys(w, t)
            b = s.acquire_block(t)
            if b is None:
                now = ready_keys(w, t)
                if now:
                    w.bad(("C21", "C01", "C06"), "not-offered", f"task {t} has ready blocks {now[:4]} but no block is handed out")
                    return
                idle += 1
            else:
                out.append(b)
                idle = 0
                if not want and not cfg["skip"]:
                    w.bad(("C03", "C02"), "not-ready", f"block {b} of task {t} is handed out although none is ready")
        else:
            b = out.pop(i - len(free))
            key = w.ok_key(b, "return")[0]
            k = w.handouts[key] - 1
            seq = w.plan.get(key, ())
            good = (seq[k] if k < len(seq) else "ok") == "ok" and not cfg.get("first_fails")
            b.status = S.SUCCESS if good else S.FAILED
            s.release_block(b)
            idle = 0
        for t in ids:
            check(kk, w, s, t)
        if bad_enough(w):
            return
        if not out and idle > 3 * len(ids) and not any(ready_keys(w, t) for t in ids):
            break
        if not out and idle > 40 * len(ids):
            break
    st = w.status()
    left = {t: w.unfinished(t, st) for t in w.tasks}
    left = {t: l for t, l in left.items() if l}
    if left:
        w.bad(("C01", "C05", "C06"), "unfinished", f"nothing is ready any more but blocks are unfinished: {str(left)[:200]}")
    tr = w.truth(st)
    for t in ids:
        x = s.task_states[t]
        for a in ("completed", "skipped", "failed", "orphaned"):
            v = int(getattr(x, a + "_count"))
            if v != tr[t][a]:
                tags = {"completed": ("C01", "C09", "C17"), "skipped": ("C10", "C09"), "failed": ("C04", "C09"),
                        "orphaned": ("C05", "C09", "C17")}[a]
                w.bad(tags, "state-" + a, f"task {t}: {a}_count {v}, truth is {tr[t]}")
        if not left and not x.is_done():
            w.bad(("C05", "C06", "C09"), "not-done", f"all blocks of {t} are resolved but the task is not done: {tr[t]}")
    for k, v in st.items():
        if v == "orphaned" and w.handouts.get(k):
            w.bad("C05", "orphan-attempted", f"{k} depends on a failed block but was handed out")


def bad_enough(w):
    return len(w.bads) > 5


def check(kk, w, s, t):
    x = s.task_states[t]
    snap = {c: int(getattr(x, c)) for c in COUNTS}
    check_counts(w, "step", t, snap)
    r = len(ready_keys(w, t))
    if snap["ready_count"] != r:
        w.bad(("C17", "C21"), "ready-count", f"task {t}: ready_count {snap['ready_count']}, but {r} blocks are ready")
    listed = t in [y.task_id for y in s.get_ready_tasks()]
    if listed != (r > 0):
        w.bad(("C21",), "ready-tasks", f"task {t} is {'' if listed else 'not '}listed as ready with {r} ready blocks")
