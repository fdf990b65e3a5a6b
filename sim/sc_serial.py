"""Scenario: the same tasks and the same behaviour per block, run serially and with workers; outcomes are compared."""
import copy

from . import loader as L
from .sc_e2e import judge, run_round
from .world import COUNTS, World


def run(kk, cfg, bads):
    worlds = []

    def main():
        d = L.load()
        for rnd, mode in enumerate(cfg["modes"]):
            c = copy.deepcopy(cfg)
            c["mode"] = mode
            c.pop("reuse", None)
            c["faults"] = cfg["faults"] if mode in ("server", "conv") else []
            w = World(kk, c, bads)
            w.mode = mode
            worlds.append(w)
            run_round(kk, c, d, w, rnd)
            for h in (kk.fork_hooks, kk.proc_exit_hooks, kk.term_hooks):
                h.clear()
            kk.fork_fails = None
            if w.returned_at is None:
                break
    base = (list(kk.fork_hooks), list(kk.proc_exit_hooks), list(kk.term_hooks))
    assert base == ([], [], [])
    why = kk.run(main)
    kk.line_mode = False
    for i, w in enumerate(worlds):
        n = len(bads)
        judge(kk, w, w.cfg, why if i == len(worlds) - 1 else "done")
        if "serial" in w.mode:
            for b in bads[n:]:
                # whatever is wrong with the serial run alone also is a difference to a correct parallel one
                if b.oracle in ("hang", "aborted", "unfinished", "no-state", "state-completed", "state-skipped", "state-failed",
                                "state-orphaned", "return-value", "gave-up", "leftover"):
                    b.tags = tuple(b.tags) + ("C15",)
    if why == "wall" or len(worlds) < len(cfg["modes"]) or any(w.returned_at is None or w.exc is not None for w in worlds):
        return worlds
    a, b = worlds[0], worlds[1]
    for t in a.tasks:
        ca, cb = [counts(w, t) for w in (a, b)]
        if ca is not None and cb is not None and ca != cb:
            a.bad("C15", "counts-differ", f"task {t}: {a.mode} gives {ca}, {b.mode} gives {cb}")
    sa, sb = set(a.starts), set(b.starts)
    if sa != sb:
        a.bad("C15", "blocks-differ", f"processed only by {a.mode}: {sorted(sa - sb)[:4]}, only by {b.mode}: {sorted(sb - sa)[:4]}")
    if not cfg["faults"]:
        for k in sorted(sa & sb):
            if a.starts[k] != b.starts[k]:
                a.bad(("C15", "C04"), "attempts-differ", f"{k}: {a.starts[k]} attempts with {a.mode}, {b.starts[k]} with {b.mode}")
                break
    return worlds


def counts(w, t):
    if w.task_states is None or t not in w.task_states:
        return None
    return {c: int(getattr(w.task_states[t], c)) for c in COUNTS}
