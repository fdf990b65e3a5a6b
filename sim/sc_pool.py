"""Scenario: worker pools that several threads resize, reap and stop while worker processes crash, exit and fail."""
from . import kernel as K
from . import loader as L
from . import work
from .world import Bad, parse_env


class PW:
    def __init__(self, kk, cfg, sink):
        self.kk, self.cfg, self.bads = kk, cfg, sink
        self.H = []
        self.forked = []
        self.ids = {}      # process ordinal -> (pool, worker id)
        self.op = {}       # tid -> operation in progress
        self.terms = []    # (op, process)
        self.n = 0
        self.errors = []

    def bad(self, tags, oracle, msg):
        if len(self.bads) < 50:
            self.bads.append(Bad(tags, oracle, msg, self.kk.now))

    def ev(self, *a):
        self.H.append((round(self.kk.now, 6),) + a)
        self.kk.log(*a)

    def worker(self):
        """What a worker process does."""
        kk = self.kk
        p = kk.me().proc
        ctx = parse_env(p.environ.get("DAISY_CONTEXT"))
        wid, pool = ctx.get("worker_id"), ctx.get("task_id")
        for o, (pl, w) in self.ids.items():
            if w == wid:
                self.bad("C20", "id-twice", f"two workers have the id {wid}")
        self.ids[p.ordinal] = (pool, wid)
        self.ev("up", p.ordinal, pool)
        n = self.n
        self.n += 1
        b = self.cfg["behave"]
        how = b[n % len(b)] if b else "run"
        what, _, t = how.partition(":")
        if what == "run":
            while True:
                kk.sleep(1000.0)
        kk.sleep(float(t))
        self.kk.stat("fault.worker_" + what)
        if what == "exit":
            return
        if what == "raise":
            raise work.Boom("pool worker")
        if what == "code":
            raise SystemExit(3)
        kk.kill_process(p, -11, "crash")
        kk.park(kk.me())


def run(kk, cfg, bads):
    w = PW(kk, cfg, bads)
    kk.world = w

    def on_fork(p, obj):
        w.forked.append(p)
        w.ev("fork", p.ordinal)
        kk.mix("fork", p.ordinal)
    kk.fork_hooks.append(on_fork)

    def on_exit(p):
        w.ev("pexit", p.ordinal, p.exitcode)
    kk.proc_exit_hooks.append(on_exit)

    def on_term(p):
        t = kk.current_thread()
        w.ev("term", p.ordinal)
        kk.mix("term", p.ordinal)
        w.terms.append((w.op.get(t.tid) if t else None, p))
    kk.term_hooks.append(on_term)
    fails = set(cfg.get("forkfail", ()))
    cnt = [0]

    def fork_fails():
        cnt[0] += 1
        if cnt[0] - 1 in fails:
            kk.stat("fault.fork")
            return OSError(11, "Resource temporarily unavailable")
        return None
    kk.fork_fails = fork_fails if fails else None

    def main():
        d = L.load()
        me = kk.me().proc
        names = [f"p{i}" for i in range(cfg["pools"])]
        pools = [d.worker_pool.WorkerPool(work.PoolFn(), d.Context(hostname="h", port=1, task_id=n)) for n in names]
        done = [0]
        sets = {i: [] for i in range(len(pools))}   # pool -> [(begin, end, size)]
        reaped = {i: 0 for i in range(len(pools))}
        alone = len(cfg["threads"]) == 1

        def alive(i):
            return [p for p in w.forked if p.alive and pool_of(p) == i]

        def pool_of(p):
            o = w.ids.get(p.ordinal)
            if o is not None:
                return names.index(o[0])
            return w.pool_guess.get(p.ordinal)
        w.pool_guess = {}

        def held(i):
            return list(pools[i].workers.keys())

        def do(op):
            kind, i = op[0], op[1] if len(op) > 1 else 0
            me_t = kk.me()
            o = dict(op=op, begin=kk.now, pos=len(w.forked), before=[p for p in w.forked])
            w.op[me_t.tid] = o
            nt = len(w.terms)
            size0 = len(pools[i].workers) if kind != "sleep" else 0
            ids0 = held(i) if kind != "sleep" else []
            w.ev("op", *op)
            kk.mix("op", *op)
            kk.probe("events")
            rec = None
            try:
                if kind == "sleep":
                    kk.sleep(op[1])
                elif kind == "set":
                    rec = [kk.now, None, op[2], len(w.H)]
                    sets[i].append(rec)
                    pools[i].set_num_workers(op[2])
                elif kind == "stop":
                    rec = [kk.now, None, 0, len(w.H)]
                    sets[i].append(rec)
                    pools[i].stop()
                elif kind == "reap":
                    n = pools[i].reap_dead_workers()
                    reaped[i] += n
                    w.ev("reaped", i, n)
                elif kind == "check":
                    try:
                        pools[i].check_for_errors()
                    except work.Boom:
                        w.ev("error", i)
                elif kind == "inc":
                    pools[i].inc_num_workers(op[2])
                elif kind == "stop1":
                    ids = held(i)
                    if ids:
                        pools[i].stop(ids[op[2] % len(ids)])
            except OSError as e:
                if not fails:
                    raise
                w.ev("failed", kind)
            finally:
                if not kk.dead:
                    w.op.pop(me_t.tid, None)
            if rec is not None:
                rec[1] = len(w.H)
            mine = [p for o2, p in w.terms[nt:] if o2 is o]
            if kind == "set":
                for p in mine:
                    for q in o["before"]:
                        if q.ordinal > p.ordinal and q.alive and pool_of(q) == pool_of(p) and pool_of(q) is not None \
                                and str(w.ids.get(q.ordinal, (0, None))[1]) in [str(x) for x in held(i)]:
                            w.bad("C20", "not-youngest", f"set_num_workers({op[2]}) stopped process {p.ordinal} but kept the younger {q.ordinal}")
            if alone and kind == "set":
                if op[2] >= size0 and mine:
                    w.bad("C20", "stopped-growing", f"growing from {size0} to {op[2]} stopped {len(mine)} workers")
                if not fails and len(pools[i].workers) != op[2]:
                    w.bad("C20", "size", f"after set_num_workers({op[2]}) the pool holds {len(pools[i].workers)} workers")
                if op[2] < size0:
                    keep = ids0[:op[2]]
                    if sorted(held(i)) != sorted(keep):
                        w.bad("C20", "not-youngest", f"shrinking {ids0} to {op[2]} kept {held(i)}")
            if alone and kind == "inc" and not fails and len(pools[i].workers) != size0 + op[2]:
                w.bad("C20", "size", f"adding {op[2]} to {size0} workers gives {len(pools[i].workers)}")
            if alone and kind == "inc" and mine:
                w.bad("C20", "stopped-growing", f"adding workers stopped {len(mine)}")
            if alone and kind == "stop1" and ids0 and len(mine) > 1:
                w.bad("C20", "stopped-others", f"stopping one worker terminated {len(mine)}")
            if alone and kind == "stop":
                left = [p.ordinal for p in alive(i)]
                if left:
                    w.bad("C20", "left", f"processes {left} are alive after stop()")

        def thread(ops):
            def go():
                try:
                    for op in ops:
                        do(op)
                except K.SimKilled:
                    raise
                except Exception as e:
                    import traceback
                    w.bad("C20", "raises", f"{type(e).__name__}: {e} " + "".join(traceback.format_exception(e)[-2:])[-300:])
                done[0] += 1
            return go
        for ops in cfg["threads"]:
            kk.spawn_thread(me, thread(ops), "resizer", daemon=False)
        t0 = kk.now
        while done[0] < len(cfg["threads"]):
            kk.sleep(0.2)
            if kk.now - t0 > 300:
                w.bad("C20", "hang", f"resizing does not end: {[o['op'] for o in w.op.values()]}")
                return
        kk.sleep(10.0)

        def consistent(when):
            for i in range(len(pools)):
                h = {str(x) for x in held(i)}
                for p in w.forked:
                    if p.alive and pool_of(p) == i and str(w.ids[p.ordinal][1]) not in h:
                        w.bad("C20", "not-held", f"{when}: process {p.ordinal} (worker {w.ids[p.ordinal][1]}) of pool {i} "
                              f"is alive but the pool holds only {sorted(h)}")
        consistent("after resizing")
        for i in range(len(pools)):
            # the size set last: every set that did not end before another began may be the last one
            ss = sets[i]
            cand = {s[2] for s in ss if s[1] is not None and not any(o[3] > s[1] for o in ss)}
            n = len(pools[i].workers)
            unlocked = any(op[0] in ("inc", "stop1") for ops in cfg["threads"] for op in ops)
            if ss and not fails and not unlocked:
                if not any(c - reaped[i] <= n <= c for c in cand):
                    w.bad("C20", "size", f"pool {i} holds {n} workers; the sizes set last are {sorted(cand)}, reaped {reaped[i]}")
        # settle: reap what is dead, set a final size
        kk.fork_fails = None
        for i, n in enumerate(cfg["final"]):
            pools[i].reap_dead_workers()
            have = set(map(str, held(i)))
            n0 = len(have)
            pools[i].set_num_workers(n)
            if len(pools[i].workers) != n:
                w.bad("C20", "size", f"pool {i} holds {len(pools[i].workers)} workers after it was set to {n}")
            now = set(map(str, held(i)))
            if n >= n0 and not have <= now:
                w.bad("C20", "stopped-growing", f"growing pool {i} from {n0} to {n} gave up workers {have - now}")
        kk.sleep(0.5)
        consistent("after the last resize")
        for i, pl in enumerate(pools):
            pl.stop()
            left = [p.ordinal for p in w.forked if p.alive and (pool_of(p) == i or p.ordinal not in w.ids and i == len(pools) - 1)]
            if left:
                w.bad("C20", "left", f"processes {left} are alive after pool {i} was stopped")
            if pl.workers:
                w.bad("C20", "left", f"pool {i} still holds {len(pl.workers)} workers after it was stopped")
        kk.sleep(1.0)
        left = [p.ordinal for p in w.forked if p.alive]
        if left:
            w.bad("C20", "left", f"processes {left} are alive after all pools were stopped")
        wid = [x[1] for x in w.ids.values()]
        if len(set(wid)) != len(wid):
            w.bad("C20", "id-twice", f"worker ids {wid} are not unique")
    why = kk.run(main)
    if why not in ("done", "wall"):
        w.bad("C20", "hang", f"resizing does not end ({why}): {[o['op'] for o in w.op.values()]}")
    return [w]
