"""Scenario: a run that is killed or stopped at any point, and is started again.

Only the completion marks written by the user's process function survive. Each run has a server
process of its own, which is killed alone (its workers stay behind) or together with its workers.
"""
import copy

from . import kernel as K
from . import loader as L
from .sc_e2e import judge, run_round
from .world import SETTLE, World


def run(kk, cfg, bads):
    worlds = []
    marks = {}
    base = (kk.fork_hooks, kk.proc_exit_hooks, kk.term_hooks)

    def main():
        n = len(cfg["modes"])
        for rnd, mode in enumerate(cfg["modes"]):
            # a new interpreter: nothing of the previous run is left in memory
            kk.child_hooks.clear()
            d = L.load()
            last = rnd == n - 1
            c = copy.deepcopy(cfg)
            c["mode"] = mode
            crash = cfg["crashes"][rnd] if rnd < len(cfg["crashes"]) else None
            c["faults"] = cfg["faults"] if not last or cfg.get("late_faults") else []
            c.pop("reuse", None)
            if mode in ("serial", "serialconv"):
                c["faults"] = []
                # without multiprocessing, only successes and marked failures exist
                c["plan"] = {k: ["fail" if o not in ("ok", "okset") else o for o in v] for k, v in c["plan"].items()}
            c["faults"] = [f for f in c["faults"] if f["kind"] != "stop"]
            if crash and crash["how"] in ("event", "main", "group"):
                c["faults"] = c["faults"] + [dict(kind="stop", at=crash["at"], how=crash["how"])]
            w = World(kk, c, bads)
            w.mode = mode
            w.marks = marks
            w.marked_before = frozenset(marks)
            w.t_begin = kk.now
            worlds.append(w)
            kk.probe("resume.marked.%s" % ("none" if not marks else "all" if len(marks) == len(w.model.blocks) else "some"))

            def server(w=w, c=c, d=d):
                run_round(kk, c, d, w, 0)
                kk.exit_process(0, "return")
            p = kk.fork(server, f"server{rnd}", 0.0)
            w.main_proc = p
            if crash and crash["how"] in ("kill", "killall"):
                arrange(kk, w, p, crash)
            while p.alive:
                kk.sleep(0.05)
            if w.returned_at is None:
                w.abandoned = True
                w.ev("server-killed")
                kk.probe("resume.killed")
                if w.outstanding:
                    kk.probe("resume.killed.outstanding")
            for h in base:
                h.clear()
            kk.fork_fails = None
            if w.returned_at is None and not (crash and crash["how"] in ("kill", "killall")):
                return
            if w.abandoned:
                settle(kk, w)
                if any(q.alive for q, o in w.forked):
                    return
            if not w.abandoned and w.exc is not None and not c["faults"]:
                return
    why = kk.run(main)
    kk.line_mode = False
    if why == "wall":
        return worlds
    for i, w in enumerate(worlds):
        if w.abandoned:
            continue
        judge(kk, w, w.cfg, why if i == len(worlds) - 1 else "done")
    w = worlds[-1]
    if len(worlds) == len(cfg["modes"]) and w.returned_at is not None and w.exc is None and w.stop_at is None:
        st = w.status()
        for k, s in st.items():
            if s == "completed" and k not in marks and k not in w.skip:
                w.bad(("C10", "C01"), "never-processed", f"{k} counts as completed in the end but no run processed it")
                break
    for b in bads:
        if b.oracle in ("hang", "aborted", "unfinished", "state-completed", "state-skipped", "summary-completed", "summary-skipped"):
            b.tags = tuple(dict.fromkeys(tuple(b.tags) + ("C10",)))
    return worlds


def arrange(kk, w, p, crash):
    def die():
        if not p.alive:
            return
        kk.stat("fault.server_killed")
        if crash["how"] == "killall":
            kk.stat("fault.workers_killed_too")
            for q in [q for q, o in w.forked if q.alive]:
                kk.kill_process(q, -9, "killall")
        w.died_at = kk.now
        kk.kill_process(p, -9, "SIGKILL")
    if "tick" in crash:
        p.kill_at = crash["tick"]
        if crash["how"] == "killall":
            def hook(q):
                if q is p:
                    for x in [x for x, o in w.forked if x.alive]:
                        kk.kill_process(x, -9, "killall")
            kk.proc_exit_hooks.append(hook)
    else:
        kk.at(crash["at"], die)


def settle(kk, w):
    """Waits until the workers that lost their server are gone."""
    end = kk.now + SETTLE
    while kk.now < end and any(q.alive for q, o in w.forked):
        kk.sleep(0.25)
    orphans(kk, w)


def orphans(kk, w):
    died = w.main_proc.ended_at
    for q, o in w.forked:
        if q.alive and kk.now - died >= SETTLE - 1:
            where = "; ".join(f"{t.name}:{t.waiting_on}" for t in q.threads if t.state != K.DONE)[:160]
            w.bad(("C14", "C10"), "orphan-worker", f"worker process {o} still runs {kk.now - died:.0f} s after its server was killed ({where})")
            return
