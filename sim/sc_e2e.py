"""Scenario: a whole block-wise run - server, worker processes, clients, network - end to end."""
import os

from . import fakes as F
from . import kernel as K
from . import loader as L
from . import work
from .world import ABORT, COUNTS, HANG, SETTLE, World, summary


def build_tasks(d, cfg, marks=None):
    out = {}
    todo = list(cfg["tasks"])
    while todo:
        for t in list(todo):
            if all(u in out for u in t["up"]):
                todo.remove(t)
                fn = work.styled(work.SpawnFn(t["id"]) if t.get("kind") == "spawn" else work.ProcFn(t["id"]), t.get("style"))
                out[t["id"]] = d.Task(
                    t["id"],
                    d.Roi(*[tuple(x) for x in t["total"]]),
                    d.Roi(*[tuple(x) for x in t["read"]]),
                    d.Roi(*[tuple(x) for x in t["write"]]),
                    process_function=fn,
                    check_function=work.CheckFn(t["id"]) if t.get("check") else None,
                    init_callback_fn=work.InitFn(t["id"]) if t.get("init", True) else None,
                    read_write_conflict=t["conflict"], num_workers=t["workers"],
                    max_retries=t["retries"], fit=t["fit"],
                    upstream_tasks=[out[u] for u in t["up"]] if t["up"] else None)
    return out


def make_observer(d, w, server):
    class Rec(d.server_observer.ServerObserver):
        def note(self, kind, task, state):
            if w.retired:
                return
            snap = {c: int(getattr(state, c)) for c in COUNTS}
            w.obs.append((len(w.H), kind, task, snap))
            w.ev("obs", kind, task)
            check_counts(w, kind, task, snap)
            w.linger()
            if w.cfg.get("obs_err") == len(w.obs):
                w.user_error("boom", "observer")

        def on_task_start(self, task_id, task_state):
            self.note("task_start", task_id, task_state)

        def on_acquire_block(self, task_id, task_state):
            self.note("acquire", task_id, task_state)

        def on_release_block(self, task_id, task_state):
            self.note("release", task_id, task_state)

        def on_task_done(self, task_id, task_state):
            self.note("task_done", task_id, task_state)

        def on_block_failure(self, block, exception, context):
            if w.retired:
                return
            w.obs.append((len(w.H), "failure", block.task_id, None))
            w.ev("obs", "failure", block.task_id)
            w.reported.append((w.ok_key(block, "failure report")[0], str(context["worker_id"]),
                               exception, w.kk.now))
            w.listed.append((block.task_id, block.block_id[1], str(context["worker_id"]), exception))

        def on_server_exit(self):
            if w.retired:
                return
            w.obs.append((len(w.H), "exit", None, None))
            w.ev("obs", "exit")
            w.exit_seq = len(w.H)
    return Rec(server)


def check_counts(w, kind, task, s):
    for c in COUNTS:
        if s[c] < 0:
            w.bad("C17", "negative-count", f"{task}: {c} = {s[c]} at {kind}")
    tot = sum(s[c] for c in COUNTS if c not in ("skipped_count", "total_block_count"))
    if tot != s["total_block_count"]:
        w.bad("C17", "sum", f"{task}: counts {s} do not add up at {kind}")
    if s["total_block_count"] != w.model.total(task):
        w.bad(("C17", "C01"), "total", f"{task}: total {s['total_block_count']}, expected {w.model.total(task)}")
    if s["skipped_count"] > s["completed_count"]:
        w.bad("C17", "skipped", f"{task}: more skipped than completed: {s}")
    out = sum(1 for k in w.outstanding if w.model.blocks.get(k) and w.model.blocks[k].task == task)
    if s["processing_count"] != out:
        w.bad("C17", "processing", f"{task}: processing_count {s['processing_count']} at {kind}, "
              f"but {out} blocks are handed out and unresolved")
    done = sum(1 for k in w.accepted if w.model.blocks.get(k) and w.model.blocks[k].task == task)
    if s["completed_count"] != done:
        w.bad(("C17", "C09", "C01"), "completed", f"{task}: completed_count {s['completed_count']} at {kind}, but {done} blocks completed")
    sk = sum(1 for k in w.checked_true if w.model.blocks.get(k) and w.model.blocks[k].task == task)
    if s["skipped_count"] != sk:
        w.bad(("C17", "C09", "C10"), "skipped-count", f"{task}: skipped_count {s['skipped_count']} at {kind}, but {sk} blocks were skipped")
    fl = sum(1 for k in w.failed if w.model.blocks.get(k) and w.model.blocks[k].task == task)
    if s["failed_count"] != fl:
        w.bad(("C17", "C09", "C04"), "failed-count", f"{task}: failed_count {s['failed_count']} at {kind}, but {fl} blocks failed for good")
    if kind != "return" and w.exc is None:
        # blocks that nothing keeps from being handed out, and blocks that never will be
        rd = [b.key for b in w.model.of_task[task] if b.key not in w.accepted and b.key not in w.failed and b.key not in w.outstanding
              and all(u in w.accepted for u in w.deps.get(b.key, ()))]
        if s["ready_count"] != len(rd):
            w.bad("C17", "ready", f"{task}: ready_count {s['ready_count']} at {kind}, but {len(rd)} blocks are ready: {rd[:5]}")
        if w.failed:
            orph = sum(1 for k, x in w.status().items() if x == "orphaned" and w.model.blocks[k].task == task)
            if s["orphaned_count"] != orph:
                w.bad(("C17", "C05", "C09"), "orphaned-count", f"{task}: orphaned_count {s['orphaned_count']} at {kind}, but {orph} blocks "
                      "depend on failed ones")
    prev = w.last_snap.get(task)
    if prev:
        for c in ("completed_count", "skipped_count", "failed_count", "orphaned_count"):
            if s[c] < prev[c]:
                w.bad("C17", "decrease", f"{task}: {c} fell from {prev[c]} to {s[c]}")
    w.last_snap[task] = s


FAULT_ENDS = ("kill_time", "kill_at_tick", "SIGKILL", "killall")


def install_faults(kk, w, cfg, root):
    """Worker kills, partitions, fork failures, stop requests, clock jumps - from the config."""
    state = dict(forks=0)
    w.rogue_blocks = []
    w.last_snap = {}
    kills = {}
    parts = {}
    forkfail = set()
    for f in cfg.get("faults", ()):
        if f["kind"] == "kill_tick":
            kills[f["worker"]] = f["tick"]
        elif f["kind"] == "partition":
            parts.setdefault(f["worker"], []).append(f)
        elif f["kind"] == "forkfail":
            forkfail.add(f["n"])
        elif f["kind"] == "kill_time":
            kk.at(f["at"], lambda f=f: kill_some(kk, w, f))
        elif f["kind"] == "jump":
            def jump(f=f):
                kk.wall_offset += f["delta"]
                kk.stat("fault.clock_jump")
                kk.log("jump", f["delta"])
            kk.at(f["at"], jump)
        elif f["kind"] == "stop":
            kk.at(f["at"], lambda f=f: request_stop(kk, w, f, root))

    def on_fork(p, mpobj):
        n = state["forks"]
        state["forks"] += 1
        w.forked.append((p, p.ordinal))
        w.ev("fork", p.ordinal)
        w.progress()
        if w.returned_at is not None or w.exit_seq is not None:
            w.bad("C11", "fork-after-teardown", f"worker process {p.ordinal} is started after the run ended")
        if n in kills:
            p.kill_at = kills[n]
        for f in parts.get(n, ()):
            def cut(f=f, p=p):
                if p.alive:
                    kk.net.partitions[p.pid] = kk.now + f["dur"]
                    kk.stat("fault.partition")
            kk.at(f["at"], cut)
    kk.fork_hooks.append(on_fork)

    def on_exit(p):
        w.ev("pexit", p.ordinal, p.exitcode)
        w.pexits.append(p.ordinal)
        w.progress()
        for (o, key) in [x for x in w.running if x[0] == p.ordinal]:
            del w.running[(o, key)]
        w.idle.pop(p.ordinal, None)
    kk.proc_exit_hooks.append(on_exit)

    def on_term(p):
        w.ev("term", p.ordinal)
        w.terms.append((kk.now, p, w.raised.get(p.ordinal, 0), w.all_finished(), w.stop_at,
                        bool(w.spawn_errors), w.exit_seq))
    kk.term_hooks.append(on_term)

    logfail = {f["n"]: f["errno"] for f in cfg.get("faults", ()) if f["kind"] == "logfail"}
    opens = dict(n=0)

    def fs_fails(name, mode):
        p = kk.me().proc
        if p is root or "w" not in mode and "a" not in mode:
            return None
        opens["n"] += 1
        no = logfail.get(opens["n"] - 1)
        if no is None:
            return None
        kk.stat("fault.log_open")
        e = OSError(no, f"injected-{opens['n']}", name)
        w.spawn_errors.append((kk.now, w.proc_task(p), type(e).__name__, f"injected-{opens['n']}", p.ordinal))
        w.ev("open_err", p.ordinal)
        return e
    kk.fsfail = fs_fails if logfail else None

    fs = dict(n=0)

    def fork_fails():
        fs["n"] += 1
        if fs["n"] - 1 in forkfail:
            w.fork_failed = kk.now
            return OSError(11, "Resource temporarily unavailable")
        return None
    w.fork_failed = None
    kk.fork_fails = fork_fails if forkfail else None


def kill_some(kk, w, f):
    alive = [p for p, o in w.forked if p.alive]
    if not alive:
        return
    p = alive[f["which"] % len(alive)]
    kk.stat("fault.kill_at_time")
    kk.kill_process(p, f.get("sig", -9), "kill_time")


def request_stop(kk, w, f, root):
    if w.abandoned:
        return
    if w.returned_at is not None or not w.forked:
        if w.returned_at is None and not w.forked and f.get("tries", 0) < 50:
            f2 = dict(f, tries=f.get("tries", 0) + 1)
            kk.at(0.05, lambda: request_stop(kk, w, f2, root))
        return
    w.stop_at = kk.now
    kk.stat("fault.stop_" + f["how"])
    w.ev("stop", f["how"])
    if f["how"] == "event":
        kk.spawn_thread(root, w.stop_event.set, "stopper")
        return
    F.signal_process(kk, root, 2)
    if f["how"] == "group":
        for p, o in w.forked:
            if p.alive:
                p.tag["sigint"] = True
                F.signal_process(kk, p, 2)


def watch(kk, w):
    """Periodic sampling by the simulator (costs no choices)."""
    w.sampled = kk.now

    def sample():
        if w.returned_at is not None or kk.dead or w.abandoned:
            return
        if kk.now - w.last_progress > w.cfg.get("hang_after", 150.0):
            kk.stop_reason = "hang"
            return
        pool_strength(kk, w)
        kk.at(0.5, sample)
    kk.at(0.5, sample)


def pool_strength(kk, w):
    if w.cfg["mode"] not in ("server", "conv"):
        return
    alive, normal, unknown = {}, {}, 0
    for p, o in w.forked:
        t = w.proc_task(p)
        if p.alive:
            if t is None:
                unknown += 1
            else:
                alive[t] = alive.get(t, 0) + 1
        elif p.exitcode == 0 and t is not None:
            normal[t] = normal.get(t, 0) + 1
    st = None
    for t in set(alive) | set(normal) | set(w.deficit_since) | w.seen_tasks:
        w.seen_tasks.add(t)
        need = w.tasks[t]["workers"]
        if alive.get(t, 0) + normal.get(t, 0) + unknown < need:
            st = st or w.status()
            if not w.unfinished(t, st):
                w.deficit_since.pop(t, None)
                continue
            since = w.deficit_since.setdefault(t, kk.now)
            if kk.now - since > SETTLE and w.stop_at is None and not w.spawn_errors:
                restarted = any(q[2] > 3 and w.proc_task(q[1]) == t for q in w.terms)
                w.bad(("C08", "C19") if restarted else "C08", "not-replaced", f"task {t} has {alive.get(t, 0)} of {need} workers "
                      f"({normal.get(t, 0)} exited normally) for {kk.now - since:.0f} s")
                w.deficit_since[t] = 1e18
        else:
            w.deficit_since.pop(t, None)


def run_round(kk, cfg, d, w, rnd):
    root = kk.me().proc
    kk.world = w
    root.tag["world"] = w
    w.main_proc = root
    w.seen_tasks = set()
    if rnd == 0:
        w.patch(d)
    else:
        w.d = d
        for hooks in (kk.fork_hooks, kk.proc_exit_hooks, kk.term_hooks):
            del hooks[:]
    install_faults(kk, w, cfg, root)
    watch(kk, w)
    w.progress()
    if "logdir" in cfg:
        d.logging.set_log_basedir(cfg["logdir"])
    if cfg.get("env"):
        # e.g., a run started by a worker of another run
        kk.me().proc.environ["DAISY_CONTEXT"] = cfg["env"]
    tasks = build_tasks(d, cfg)
    if cfg.get("marks"):
        w.marks = {}
    w.t_begin = kk.now
    w.term_start = len(kk.fs.get("<terminal>", ()))
    w.bar_start, w.bars = len(kk.bars), ()
    try:
        if cfg["mode"] == "server":
            kw = {}
            if cfg.get("host"):
                kw["host"] = cfg["host"]
            server = kk.reused if cfg.get("reuse") and kk.reused is not None else d.Server(**kw)
            if cfg.get("reuse"):
                kk.reused = server
            w.server_addr = (server.hostname, server.port)
            w.stop_event = server.stop_event
            first = make_observer(d, w, server) if not cfg.get("obs_last") else None
            if not cfg.get("reuse"):
                d.cl_monitor.CLMonitor(server)
            if first is None:
                make_observer(d, w, server)
            ts = [tasks[t] for t in cfg["order"]]
            w.own_sched = d.scheduler.Scheduler(ts) if cfg.get("own_sched") else None
            w.task_states = server.run_blockwise(ts, **(dict(scheduler=w.own_sched) if w.own_sched else {}))
        elif cfg["mode"] == "conv":
            given = [tasks[t] for t in cfg["targets"]]
            w.ret = d.run_blockwise(given)
            if given != [tasks[t] for t in cfg["targets"]]:
                w.bad("C09", "list-changed", "run_blockwise changes the list of tasks it is given")
        elif cfg["mode"] == "serial":
            server = kk.reused if cfg.get("reuse") and kk.reused is not None else d.SerialServer()
            make_observer(d, w, server)
            if cfg.get("reuse"):
                kk.reused = server
            else:
                d.cl_monitor.CLMonitor(server)
            ts = [tasks[t] for t in cfg["order"]]
            w.own_sched = d.scheduler.Scheduler(ts) if cfg.get("own_sched") else None
            w.task_states = server.run_blockwise(ts, **(dict(scheduler=w.own_sched) if w.own_sched else {}))
        elif cfg["mode"] == "serialconv":
            w.task_states = d.run_blockwise([tasks[t] for t in cfg["targets"]], multiprocessing=False)
    except K.SimKilled:
        raise
    except BaseException as e:
        w.exc = e
    w.returned_at = kk.now
    w.term_end = len(kk.fs.get("<terminal>", ()))
    w.bars = [(b.desc, b.n, b.total, b.shown) for b in kk.bars[w.bar_start:]]
    w.open_conns = w.alive_later = ()
    w.ev("returned", work.text(w.exc)[:60] if w.exc is not None else "ok")
    w.alive_at_return = [o for p, o in w.forked if p.alive]
    kk.sleep(2.0)
    w.open_conns = [s for s in root.sockets.values()
                    if getattr(s, "peer", None) is not None and not s.closed_ and s.conn is not None and not s.peer.closed_
                    and not any("ext" in q.tag and not q.tag.get("used") for q in s.peer.owners.values())]
    w.alive_later = [o for p, o in w.forked if p.alive]
    if w.ext:
        end = kk.now + 15.0
        while any(p.alive for p in w.ext) and kk.now < end:
            kk.sleep(0.2)
        for p in w.ext:
            # (one that came too late to get a block might have connected after the end)
            if p.alive and p.tag.get("used") and not any(o == p.ordinal for o, k in w.running):
                where = "; ".join(f"{t.name}:{t.waiting_on}" for t in p.threads if t.state != K.DONE)[:160]
                w.bad(("C11", "C14"), "left-client", f"a worker started by the user still waits {kk.now - w.returned_at:.0f} s after the run ended ({where})")


def run(kk, cfg, bads):
    worlds = []

    def main():
        d = L.load()
        kk.reused = None
        todo = [warm_up(cfg, mode) for mode in cfg.get("before", ())] + [cfg] * cfg.get("rounds", 1)
        places = cfg.get("places", ())
        for rnd, c in enumerate(todo):
            if cfg.get("reuse") and worlds:
                worlds[-1].retired = True
            w = World(kk, c, bads)
            worlds.append(w)
            place(kk, places[rnd % len(places)] if places else "main", lambda: run_round(kk, c, d, w, rnd))
    why = kk.run(main)
    kk.line_mode = False
    for i, w in enumerate(worlds):
        judge(kk, w, w.cfg, why if i == len(worlds) - 1 else "done")
    return worlds


def warm_up(cfg, mode):
    """A small run before the one that is of interest: of an unrelated task, or of one with the same name but other blocks."""
    t = dict(id="before", total=[[0], [3]], read=[[0], [1]], write=[[0], [1]], conflict=False, workers=1 + len(cfg["tasks"]) % 2, retries=0,
             fit="valid", up=[])
    root = next(x for x in cfg["tasks"] if not x["up"])
    how = cfg.get("before_is", "other")
    if how in ("name", "grown"):
        t["id"] = root["id"]
    if how == "grown":
        t.update({k: root[k] for k in ("read", "write", "conflict", "fit")})
        t["total"] = [list(root["total"][0]), [n + w if i == 0 else n for i, (n, w) in enumerate(zip(root["total"][1], root["write"][1]))]]
    out = dict(mode=mode, tasks=[t], order=[t["id"]], targets=[t["id"]], plan={}, faults=[])
    if mode == cfg["mode"] and cfg.get("reuse"):
        out["reuse"] = True
    out.update({k: cfg[k] for k in ("scenario", "sched", "net", "lines", "logdir", "env", "host") if k in cfg})
    return out


def place(kk, where, fn):
    """Calls fn in this thread or in another one, and waits for it."""
    if where == "main":
        return fn()
    end = []

    def body():
        try:
            fn()
        finally:
            end.append(1)
    kk.spawn_thread(kk.me().proc, body, "user", daemon=False)
    while not end:
        kk.sleep(0.1)


# ---------------------------------------------------------------- verdicts
def judge(kk, w, cfg, why):
    if why in ("wall",):
        return
    hung = w.returned_at is None
    if hung and why in ("ticks", "time") and kk.now - w.last_progress < cfg.get("hang_after", 150.0) and (
            kk.ticks - w.last_tick < kk.max_ticks / 3):
        # a long run that went on when the simulation ended
        kk.probe("too-long")
        return
    st = w.status()
    tr = w.truth(st)
    left = {t: w.unfinished(t, st) for t in w.tasks}
    left = {t: l for t, l in left.items() if l}
    expect_err = bool(w.spawn_errors) or w.fork_failed is not None or bool(w.user_errors)
    stopped = w.stop_at is not None
    if hung:
        if kk.ended == "root-killed":
            return
        where = "; ".join(f"{t.proc.name}/{t.name}:{t.waiting_on}" for t in kk.threads
                          if t.proc is w.main_proc and t.state != K.DONE)[:200]
        tags = HANG
        if w.stop_at is not None or w.fork_failed is not None or w.user_errors:
            tags = ("C11", "C06")
        elif w.spawn_errors:
            tags = ("C12", "C06")
        elif cfg.get("gate"):
            tags = ("C21", "C06")
        held = [k for k in w.outstanding if w.cur.get(k, {}).get("proc") is not None and not w.cur[k]["proc"].alive]
        if held:
            # their worker died long ago: the assignment never ends
            tags = tuple(tags) + ("C07",)
        w.bad(tags, "hang", f"the run does not end ({why}, no progress since {w.last_progress:.1f}, now "
              f"{kk.now:.1f}); unfinished: {str(left)[:200]}; outstanding {list(w.outstanding)[:4]}; {where}")
        if cfg["mode"] in ("server", "conv"):
            judge_pool(kk, w, cfg)
        return
    e = w.exc
    # ---- errors
    if e is not None and not expect_err and not (stopped and isinstance(e, KeyboardInterrupt)):
        # a worker that cannot write its logs
        w.bad(ABORT + ("C23",) if isinstance(e, (FileExistsError, FileNotFoundError)) else ABORT, "aborted", f"the run raises {type(e).__name__}: {work.text(e)}"[:300])
    if w.spawn_errors:
        names = {(n, m) for _, _, n, m, _ in w.spawn_errors}
        if e is None:
            # (a worker that is killed while it raises cannot tell)
            told = [x for x in w.spawn_errors if not killed(w, x[4])]
            first = told[0] if told else None
            if first is None:
                pass
            elif left and not stopped:
                w.bad("C12", "swallowed", f"a worker raised {first[2]}({first[3]}) and the run returned "
                      f"with unfinished blocks {str(left)[:120]}")
            elif w.returned_at - first[0] > 30.0 and not stopped:
                w.bad("C12", "swallowed-late", f"a worker raised {first[2]}({first[3]}) and the run went on for "
                      f"{w.returned_at - first[0]:.0f} s and returned normally")
        elif w.fork_failed is None and not stopped and not w.user_errors:
            if not any(m in work.text(e) or n == "BadRepr" for n, m in names):
                w.bad("C12", "wrong-error", f"workers raised {sorted(names)}, the run raised {work.text(e)}")
            elif w.returned_at - next((x[0] for x in w.spawn_errors if not killed(w, x[4])), 1e18) > SETTLE:
                w.bad("C12", "late-error", f"an error of {w.spawn_errors} surfaced only at {w.returned_at:.0f} s")
            elif (type(e).__name__, ) and not any(type(e).__name__ == n for n, _ in names) \
                    and not any(n in ("NoPickle", "BadInit", "BadRepr", "Foreign") for n, _ in names):
                w.bad("C12", "wrong-type", f"workers raised {sorted(names)}, the run raised {work.text(e)}")
    if w.user_errors and not w.spawn_errors and w.fork_failed is None and not stopped:
        if e is None or not any(m in work.text(e) for _, m in w.user_errors):
            w.bad("C11", "error-lost", f"the user's function raised {w.user_errors} in the server, the run ended with {work.text(e)}")
        elif w.returned_at - w.user_errors[0][0] > SETTLE:
            w.bad(("C11", "C06"), "slow-stop", f"the run ended {w.returned_at - w.user_errors[0][0]:.0f} s after an error")
    complete = e is None and not stopped and not expect_err
    # ---- completeness
    if complete:
        if left:
            w.bad(("C01", "C05", "C09", "C06"), "unfinished", f"the run ended with unfinished blocks {str(left)[:200]}")
        if w.outstanding:
            w.bad(("C07", "C01"), "outstanding", f"the run ended with assigned blocks {list(w.outstanding)[:5]}")
    # ---- counts
    if w.task_states is not None and e is None:
        for t in w.tasks:
            if t not in w.task_states:
                w.bad(("C09", "C15"), "no-state", f"no state is returned for task {t}")
                continue
            s = {c: int(getattr(w.task_states[t], c)) for c in COUNTS}
            check_counts(w, "return", t, s)
            if complete:
                for a in ("completed", "skipped", "failed", "orphaned"):
                    if s[a + "_count"] != tr[t][a]:
                        tags = {"completed": ("C09", "C01"), "skipped": ("C09", "C10"), "failed": ("C09", "C04"),
                                "orphaned": ("C09", "C05", "C17")}[a]
                        w.bad(tags, "state-" + a, f"task {t}: {a}_count {s[a + '_count']}, truth is {tr[t]}")
                if not left and (s["ready_count"] or s["processing_count"] or s["pending_count"]):
                    w.bad("C17", "leftover", f"task {t} is done but has {s}")
            elif stopped and s["orphaned_count"] != tr[t]["orphaned"]:
                w.bad(("C09", "C05", "C17"), "state-orphaned", f"task {t}: orphaned_count {s['orphaned_count']}, truth is {tr[t]}")
    everything = all(tr[t]["completed"] == w.model.total(t) for t in w.tasks)
    if cfg["mode"] == "conv" and e is None:
        if w.ret not in (True, False) or bool(w.ret) != everything:
            w.bad("C09", "return-value", f"run_blockwise returned {w.ret!r}; blocks: {tr}")
    # ---- printed summary
    text = "".join(s for o, s in kk.fs.get("<terminal>", ())[w.term_start:w.term_end] if o == w.main_proc.ordinal)
    summ = summary(text)
    n_summ = text.count("Execution Summary")
    if e is None or expect_err:
        if n_summ != 1 and not cfg.get("reuse"):
            w.bad(("C18", "C09"), "summary-count", f"{n_summ} execution summaries were printed")
    if summ is not None:
        for t, c in summ.items():
            if t not in tr:
                w.bad("C09", "summary-task", f"the summary lists an unknown task {t}")
                continue
            for a in ("completed", "skipped", "failed", "orphaned"):
                if c.get(a) != tr[t][a]:
                    w.bad("C09", "summary-" + a, f"summary says {c} for task {t}, truth is {tr[t]}")
            if c.get("total") != w.model.total(t):
                w.bad("C09", "summary-total", f"summary says {c} for task {t}, total is {w.model.total(t)}")
            if bool(c.get("all")) != (tr[t]["completed"] == w.model.total(t)):
                w.bad("C09", "summary-all", f"summary says all={c.get('all')} for {t}, truth is {tr[t]}")
        if complete:
            for t in w.tasks:
                if t not in summ:
                    w.bad("C09", "summary-missing", f"the summary does not list task {t}")
    if e is None and cfg["mode"] in ("server", "serial") and not cfg.get("reuse"):
        judge_display(kk, w, summ)
    if getattr(w, "own_sched", None) is not None and w.task_states is not None:
        for t, x in w.task_states.items():
            y = w.own_sched.task_states[t]
            if any(getattr(x, c) != getattr(y, c) for c in COUNTS):
                w.bad(("C09", "C17"), "own-scheduler", f"the run was given a scheduler; task {t} ends as {x!r}, there as {y!r}")
    # ---- attempts and orphans
    if complete:
        for k, s in st.items():
            mb = w.model.blocks[k]
            lim = 1 + w.tasks[mb.task]["retries"]
            if s == "orphaned" and w.handouts.get(k):
                w.bad("C05", "orphan-attempted", f"{k} depends on a failed block but was handed out")
            if s == "completed" and k not in w.accepted and w.fails.get(k, 0) < lim:
                w.bad(("C04", "C01"), "gave-up", f"{k} was given up after {w.fails.get(k, 0)} failed attempts of {lim}")
    # ---- leftovers
    if w.alive_at_return and cfg["mode"] in ("server", "conv"):
        w.bad("C11", "left-processes", f"worker processes {w.alive_at_return} still run when the run has ended "
              f"({'raised ' + work.text(e)[:80] if e is not None else 'returned'}; stop {stopped})")
    elif w.open_conns:
        w.bad("C11", "left-connections", f"{len(w.open_conns)} client connections are open after the run has ended")
    if stopped and w.returned_at - w.stop_at > SETTLE:
        w.bad(("C11", "C06"), "slow-stop", f"the run ended {w.returned_at - w.stop_at:.0f} s after it was asked to stop")
    if cfg["mode"] in ("server", "conv"):
        judge_pool(kk, w, cfg)
    judge_reports(kk, w, cfg, complete)
    if cfg["mode"] in ("server", "serial"):
        judge_observers(kk, w, cfg, complete, tr)
    if cfg["mode"] in ("server", "conv"):
        judge_idle(kk, w, cfg)
    # ---- logs
    for o, tok, want in w.tokens:
        hits = [n for n, chunks in kk.fs.items() if any(tok in s for _, s in chunks)]
        if hits != [want]:
            w.bad("C23", "log-file", f"what worker process {o} printed is in {hits}, expected in {want}")
            break


def first_line(e):
    try:
        return (repr(e) + "\n").splitlines()[0]
    except Exception:
        return None


SYMBOLS = {"\u29d7": "pending_count", "\u25b6": "processing_count", "\u2714": "completed_count", "\u2717": "failed_count",
           "\u2205": "orphaned_count"}


def judge_display(kk, w, summ):
    """Progress bars and the listed failures against what observers were told."""
    last, fails, done = {}, {}, {}
    for i, kind, t, snap in w.obs:
        if kind in ("acquire", "release"):
            last[t] = snap
        elif kind == "task_done":
            done[t] = snap
        elif kind == "failure":
            fails[t] = fails.get(t, 0) + 1
    for t, snap in last.items():
        n = snap["completed_count"]
        bars = [(n, total, shown, str(desc)[len(t):].strip()) for desc, n, total, shown in w.bars if str(desc).startswith(t)
                and not any(x.isalnum() for x in str(desc)[len(t):])]
        if len(bars) != 1:
            w.bad("C09", "progress-bars", f"{len(bars)} progress bars were shown for task {t}")
            continue
        if bars[0][:2] != (n, w.model.total(t)):
            w.bad("C09", "progress", f"the progress bar of task {t} shows {bars[0][:2]}, "
                  f"when it was last updated {n} of {w.model.total(t)} blocks were completed")
        for sym, count in SYMBOLS.items():
            if sym in bars[0][2] and bars[0][2][sym] != snap[count]:
                w.bad("C09", "progress-counts", f"next to the progress bar of task {t}, {sym} is {bars[0][2][sym]}, "
                      f"when it was last updated {count} was {snap[count]}")
        if t in done and bars[0][3] in ("\u2714", "\u2717", "\u2205"):
            want = "\u2717" if done[t]["failed_count"] else "\u2205" if done[t]["orphaned_count"] else "\u2714"
            if bars[0][3] != want:
                w.bad("C09", "progress-status", f"the progress bar of task {t} ends with {bars[0][3]}, the task is done with {done[t]}")
    for t, c in (summ or {}).items():
        if c.get("listed", 0) != fails.get(t, 0):
            w.bad("C09", "summary-failures", f"the summary lists {c.get('listed', 0)} failures of task {t}, there were {fails.get(t, 0)}")
            continue
        rep = [x for x in w.listed if x[0] == t]
        if len(c.get("entries", ())) == min(100, len(rep)):
            left = [(str(no), wid, first_line(x)) for _, no, wid, x in rep]
            for e in c.get("entries", ()):
                if e in left:
                    left.remove(e)
                else:
                    w.bad(("C09", "C16"), "summary-failure", f"the summary of task {t} lists block {e[0]} in worker {e[1]} with {e[2][:80]!r}, "
                          f"reported were {left[:3]}")
                    break
        base = w.cfg.get("logdir", "daisy_logs")
        if base is not None and not w.cfg.get("log_change"):
            ok = {os.path.normpath(os.path.join(base, t, "worker_" + wid)) for _, _, wid, _ in rep}
            for x in c.get("logs", ()):
                if os.path.normpath(x) not in ok:
                    w.bad(("C23", "C09"), "summary-logs", f"the summary of task {t} names the logs {x}, failures were reported by the workers of {sorted(ok)[:5]}")
                    break


def judge_pool(kk, w, cfg):
    # never more than the requested number of workers; judged in the order of events
    alive = {}
    task = {o: w.proc_task(p) for p, o in w.forked}
    restarts, abnormal, forks = {}, {}, {}
    exits = {}
    for p, o in w.forked:
        exits[o] = p.exitcode
    for ev in w.H:
        if ev[1] == "fork":
            t = task.get(ev[2])
            if t is None:
                continue
            forks[t] = forks.get(t, 0) + 1
            alive[t] = alive.get(t, 0) + 1
            if t in w.tasks and alive[t] > w.tasks[t]["workers"]:
                w.bad("C08", "too-many", f"{alive[t]} workers of task {t} are alive at {ev[0]}, "
                      f"{w.tasks[t]['workers']} were requested")
        elif ev[1] == "pexit":
            t = task.get(ev[2])
            if t is not None:
                alive[t] = alive.get(t, 0) - 1
                if ev[3] != 0:
                    abnormal[t] = abnormal.get(t, 0) + 1
    # an attempt can only be lost together with its worker process
    gone = {}
    for p, o in w.forked:
        if not p.alive:
            gone[task[o]] = gone.get(task[o], 0) + 1
    for p in w.ext:
        if not p.alive:
            gone[p.tag["ext_task"]] = gone.get(p.tag["ext_task"], 0) + 1
    for t, n in w.losses.items():
        if n > gone.get(t, 0):
            w.bad(("C04", "C07"), "lost-too-often", f"{n} attempts of task {t} count as lost, but only {gone.get(t, 0)} of its workers ended")
    for t, n in forks.items():
        if t in w.tasks and n > w.tasks[t]["workers"] + abnormal.get(t, 0):
            w.bad("C08", "replaced-normal", f"task {t}: {n} workers were started, {w.tasks[t]['workers']} requested, "
                  f"{abnormal.get(t, 0)} died abnormally")
    # workers that keep failing
    for (tm, p, raised, fin, stop, err, ex) in w.terms:
        if fin or stop is not None or err or ex is not None or w.exc is not None:
            continue
        if raised <= 3:
            w.bad("C19", "terminated", f"worker process {p.ordinal} is terminated at {tm:.2f} although only {raised} of its blocks raised")
    byw = {}
    for key, wid, exc, t in w.reported:
        byw.setdefault(wid, []).append(t)
    wid_proc = {str(v): o for o, v in w.worker_ids.items()}
    procs = {o: p for p, o in w.forked}
    for wid, ts in byw.items():
        if len(ts) > 3:
            p = procs.get(wid_proc.get(wid))
            end = ts[3] + SETTLE
            over = w.returned_at if w.returned_at is not None else kk.now
            if p is not None and (p.ended_at is None or p.ended_at > end) and over > end:
                w.bad("C19", "not-restarted", f"worker {wid} had {len(ts)} failing blocks and was not restarted")
            elif p is not None and len(ts) > 5 and ts[5] > ts[3] + 5.0:
                # it went on for long enough to be given (and to fail) several more blocks
                w.bad("C19", "not-restarted", f"worker {wid} had {len(ts)} failing blocks, the fourth at {ts[3]:.2f}, and was still given others")


def killed(w, ordinal):
    """Did a fault end this worker process?"""
    return any(o == ordinal and p.end_cause in FAULT_ENDS for p, o in w.forked)


def judge_reports(kk, w, cfg, complete):
    if cfg["mode"] != "server":
        return
    # every raising attempt whose worker lived on is reported exactly once, with block, worker, exception
    want = {}
    for key, p, wid, msg, typ in w.raise_log:
        want[(key, str(wid), msg)] = (p, typ)
    got = {}
    for key, wid, exc, t in w.reported:
        m = [x for x in want if x[0] == key and x[1] == wid and (x[2] in work.text(exc) or want[x][1] == "BadRepr" and x not in got)]
        if not m:
            w.bad("C16", "report-unknown", f"observers are told that {key} failed in worker {wid} with {work.text(exc)}, which did not happen")
            continue
        got[m[0]] = got.get(m[0], 0) + 1
        typ = want[m[0]][1]
        if typ not in ("BadInit", "NoPickle", "BadRepr", "Foreign") and type(exc).__name__ != typ:
            w.bad("C16", "report-type", f"{key}: observers are told {work.text(exc)}, raised was a {typ}")
    for x, n in got.items():
        if n > 1:
            w.bad(("C16", "C19"), "report-twice", f"observers are told {n} times about the failure {x}")
    if complete:
        for x, (p, typ) in want.items():
            if x in got or p.tag.get("sigint"):
                continue
            early = any(q is p and not fin for _, q, _, fin, *_ in w.terms)
            if went_on(w, p, x):
                w.bad("C16", "report-missing", f"observers are not told about the failure {x}, although the worker was given another block")
            elif p.end_cause not in FAULT_ENDS and (p.exitcode in (0, None) or (p.exitcode == -15 and not early)):
                # the worker was not killed by a fault: its message must have arrived
                w.bad("C16", "report-missing", f"observers are not told about the failure {x}")
            elif x[2] in w.unpacked and handled_since(w, w.unpacked[x[2]]):
                w.bad("C16", "report-missing", f"observers are not told about the failure {x}, although the report arrived before its worker died")


def handled_since(w, t):
    """Did the server handle a message that was sent after this time?"""
    done = set()
    for e in w.H:
        if e[1] == "end" and e[0] > t + 0.01:
            done.add(e[3])
        elif e[1] == "start" and e[3] in done:
            return True
    return False


def went_on(w, p, x):
    """Did the worker get another block after this attempt? Then its report arrived before."""
    seen = False
    for e in w.H:
        if e[1] == "start" and e[3] == p.ordinal:
            if seen:
                return True
            seen = x[2] == f"{e[2]}#{e[4] + 1}"
    return False


def judge_observers(kk, w, cfg, complete, tr):
    seq = [(i, k, t) for i, k, t, s in w.obs]
    exits = [i for i, k, t in seq if k == "exit"]
    if len(exits) != 1:
        w.bad("C18", "exit-count", f"the end of the run is reported {len(exits)} times")
    elif seq[-1][1] != "exit":
        w.bad("C18", "exit-last", f"{seq[-1][1:]} is reported after the end of the run")
    H = w.H
    prompt = w.stop_at is not None and w.exc is None and not w.user_errors and not cfg.get("slow") and not cfg["sched"].get("stall_p")
    for t in w.tasks:
        starts = [i for i, k, t2 in seq if k == "task_start" and t2 == t]
        dones = [i for i, k, t2 in seq if k == "task_done" and t2 == t]
        acq = [i for i, e in enumerate(H) if e[1] == "acq" and w.model.blocks.get(e[2]) and w.model.blocks[e[2]].task == t]
        rel = [i for i, e in enumerate(H) if e[1] == "rel" and w.model.blocks.get(e[2]) and w.model.blocks[e[2]].task == t]
        oacq = [i for i, k, t2 in seq if k == "acquire" and t2 == t]
        orel = [i for i, k, t2 in seq if k == "release" and t2 == t]
        inits = [i for i, e in enumerate(H) if e[1] == "init" and e[2] == t]
        if acq:
            if len(starts) != 1:
                w.bad("C18", "start-count", f"the start of task {t} is reported {len(starts)} times")
            elif cfg["mode"] == "server" and starts[0] > acq[0]:
                w.bad("C18", "start-late", f"task {t} is reported as started after its first hand-out")
            elif starts and oacq and starts[0] > oacq[0]:
                w.bad("C18", "start-late", f"task {t} is reported as started after its first hand-out was reported")
            if cfg["mode"] == "server" and w.tasks[t].get("init", True):
                if len(inits) != 1:
                    w.bad("C18", "init-count", f"the start-up callback of task {t} ran {len(inits)} times")
                elif inits[0] > acq[0]:
                    w.bad("C18", "init-late", f"the start-up callback of task {t} ran after a hand-out")
        elif len(inits) > 1 or len(starts) > 1:
            w.bad("C18", "start-count", f"start of task {t}: {len(starts)} reports, {len(inits)} callbacks")
        if len(dones) > 1:
            w.bad("C18", "done-count", f"task {t} is reported done {len(dones)} times")
        if dones and rel and dones[0] < rel[-1]:
            w.bad("C18", "done-early", f"task {t} is reported done before its last block is resolved")
        if complete and not dones:
            w.bad("C18", "done-missing", f"task {t} is finished but never reported done")
        elif not dones and rel and prompt and H[rel[-1]][0] < w.stop_at - 1.5 and tr.get(t) and \
                sum(tr[t][x] for x in ("completed", "failed", "orphaned")) == w.model.total(t):
            w.bad("C18", "done-missing", f"task {t} is finished since {H[rel[-1]][0]:.2f} but never reported done (the run was stopped at {w.stop_at:.2f})")
        if any(o < a for o, a in zip(orel, rel)) or any(o < a for o, a in zip(oacq, acq)):
            w.bad("C18", "reported-early", f"task {t}: a hand-out or a resolution is reported before it took effect")
        if w.exc is None:
            if len(oacq) != len(acq):
                w.bad("C18", "acquire-reports", f"task {t}: {len(acq)} hand-outs, {len(oacq)} reported")
            if len(orel) != len(rel):
                w.bad("C18", "release-reports", f"task {t}: {len(rel)} resolutions, {len(orel)} reported")


def judge_idle(kk, w, cfg):
    """C21: a ready block is not left lying around while a worker of its task waits."""
    ready_at = {}
    done = {}
    acq = {}
    for e in w.H:
        if e[1] == "check" and e[3] is True:
            done[e[2]] = e[0]
        elif e[1] == "rel" and e[3] == "SUCCESS":
            done[e[2]] = e[0]
        elif e[1] == "acq":
            acq.setdefault(e[2], e[0])
    busy = {}   # proc -> list of (start, end)
    open_ = {}
    for e in w.H:
        if e[1] == "start":
            open_[e[3]] = e[0]
        elif e[1] == "end" and e[3] in open_:
            busy.setdefault(e[3], []).append((open_.pop(e[3]), e[0]))
    for o, t0 in open_.items():
        busy.setdefault(o, []).append((t0, 1e18))  # busy when it died or was stopped
    for k, mb in w.model.blocks.items():
        ups = w.deps.get(k, ())
        if any(u not in done for u in ups) or k not in acq:
            continue
        r = max([done[u] for u in ups] + [w.t_begin])
        if acq[k] - r <= SETTLE:
            continue
        for p, o in w.forked:
            if w.proc_task(p) != mb.task or p.started_at > r or (p.ended_at or 1e18) < acq[k]:
                continue
            iv = busy.get(o, [])
            if not iv or iv[0][0] > r:
                continue
            last = max(b for a, b in iv if a <= r)
            nxt = min([a for a, b in iv if a > last] + [1e18])
            if last < r and nxt > r + SETTLE:
                w.bad("C21", "starved", f"{k} was ready at {r:.1f} and worker process {o} waited for a block of its task, "
                      f"but it was handed out only at {acq[k]:.1f}")
                return
