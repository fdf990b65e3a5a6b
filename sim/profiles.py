"""Which configurations each property is explored with (swarm style: every run draws its own mix)."""
from . import gen, work
from .gen import wchoice
from .model import Model

SOFT = ("fail", "raise", "failraise")
HARD = ("kill0", "kill1", "exit:3", "killin")
ALL = SOFT + HARD


def e2e(rng, outs=ALL, frac=(0.0, 0.2, 0.5), exhaust=(0.0, 0.0, 0.3), kills=0.35, parts=0.25, skips=0.25,
        spawn=0.3, mode=None, max_tasks=3, max_blocks=10, lines=0.12, post=None, conflict=None, clock=0.08, ext=0.05, rounds=0.04, slow=0.15, **kw):
    large = rng.random() < 0.008
    if large:
        max_tasks, max_blocks, lines = 2, 125, 0.0
    cfg = gen.finish(rng, gen.graph(rng, max_tasks=max_tasks, max_blocks=max_blocks, conflict=conflict, zero_p=0.02, large=large),
                     mode=mode, **kw)
    if large:
        # many blocks, workers and failures
        for t in cfg["tasks"]:
            t["workers"] = rng.choice((2, 8, 12, 16))
    cfg["lines"] = rng.random() < lines
    if cfg["lines"]:
        cfg["sched"]["gap"] = rng.choice((100, 400, 1500))
    f = rng.choice(frac)
    if f and outs:
        sub = [o for o in outs if rng.random() < 0.6] or [rng.choice(outs)]
        gen.add_plan(rng, cfg, sub, frac=f, exhaust=rng.choice(exhaust))
    if rng.random() < kills:
        gen.add_kills(rng, cfg)
    if rng.random() < parts:
        gen.add_partitions(rng, cfg)
    if rng.random() < skips:
        gen.add_skips(rng, cfg)
    for t in cfg["tasks"]:
        if rng.random() < spawn:
            t["kind"] = "spawn"
    if rng.random() < clock:
        for _ in range(rng.choice((1, 1, 3))):
            cfg["faults"].append(dict(kind="jump", at=round(rng.uniform(0, 3.0), 3), delta=rng.choice((-86400.0, -3600.0, -30.0, -2.0, 2.0, 3600.0, 1e8))))
    if rng.random() < ext:
        t = rng.choice(cfg["tasks"])
        t["init"] = True
        t["ext"] = rng.choice((1, 1, 2, 3))
    if rng.random() < rounds:
        cfg["rounds"] = 2
    if rng.random() < 0.04:
        # other runs came before in the same process
        cfg["before"] = [rng.choice(("conv", "server", "serial", "serialconv")) for _ in range(rng.choice((1, 1, 2)))]
    if rng.random() < slow:
        cfg["slow"] = rng.choice((0.1, 0.5, 1.0))
    if post:
        post(rng, cfg)
    if cfg["mode"] in ("server", "serial") and rng.random() < 0.06 and cfg.get("rounds", 1) == 1 and "obs_err" not in cfg and not any(
            f["kind"] in ("stop", "forkfail", "logfail") for f in cfg["faults"]) and not any(
            t.get("ext") or "spawn_err" in t or "init_err" in t for t in cfg["tasks"]):
        # several runs of one server
        cfg["reuse"] = True
        if rng.random() < 0.5:
            cfg["rounds"] = 2
        else:
            cfg["before"] = cfg.get("before", []) + [cfg["mode"]]
    if cfg.get("before"):
        cfg["before_is"] = rng.choice(("other", "name", "grown"))
        if cfg["before_is"] == "grown" and Model(cfg).total(next(t["id"] for t in cfg["tasks"] if not t["up"])) > 12:
            cfg["before_is"] = "name"
    if rng.random() < (0.5 if cfg.get("before") or cfg.get("rounds") else 0.04) and not any(
            f["kind"] == "stop" and f["how"] != "event" for f in cfg["faults"]):
        # not in the main thread
        cfg["places"] = rng.choice((["user"], ["user", "main"], ["main", "user"]))
    for t in cfg["tasks"]:
        if t.get("ext") and "spawn_err" not in t and "long" not in cfg and rng.random() < 0.3:
            # only workers that the user starts, which nobody replaces
            t["workers"] = 0
            cfg["faults"] = [f for f in cfg["faults"] if f["kind"] in ("jump", "stop")]
            for seq in cfg["plan"].values():
                seq[:] = [o if o in ("fail", "okset", "failraise") or o.startswith("raise:") else "fail" for o in seq]
    return cfg


def sched(rng, **kw):
    return gen.sched_cfg(rng, **kw)


# ---------------------------------------------------------------- per property
def c01(rng):
    if rng.random() < 0.4:
        return sched(rng, exhaust=0.0)
    return e2e(rng, exhaust=(0.0,), kills=0.5)


def c02(rng):
    if rng.random() < 0.5:
        return sched(rng, conflict=True, big_ctx=rng.random() < 0.5, skip=0.1)
    return e2e(rng, conflict=True, kills=0.5, skips=0.1, durs=rng.choice((2, 4, 5)))


def c03(rng):
    while True:
        if rng.random() < 0.6:
            c = sched(rng, big_ctx=rng.random() < 0.4, skip=0.2)
        else:
            c = e2e(rng, kills=0.4, max_tasks=4)
        if any(t["up"] for t in c["tasks"]):
            return c


def c04(rng):
    if rng.random() < 0.25:
        return sched(rng, fail=0.5, exhaust=0.5, skip=0.1)
    return e2e(rng, frac=(0.3, 0.6, 0.9), exhaust=(0.0, 0.3, 0.6), kills=0.3, skips=0.1)


def c05(rng):
    if rng.random() < 0.015:
        return gen.big_cfg(rng, chain=True)
    if rng.random() < 0.6:
        return sched(rng, fail=0.4, exhaust=1.0, skip=0.15)
    return e2e(rng, frac=(0.15, 0.4), exhaust=(0.5, 1.0), kills=0.2, skips=0.15)


def c06(rng):
    if rng.random() < 0.1:
        return sched(rng)

    def post(rng, cfg):
        if rng.random() < 0.05:
            # workers that wait for long
            cfg["long"] = rng.choice((0.2, 0.5))
            cfg["hang_after"] = 400.0
            for t in cfg["tasks"]:
                t["workers"] = rng.choice((1, 1, 2, 3))
    return e2e(rng, exhaust=(0.0, 0.3, 0.8), kills=0.45, parts=0.35, skips=0.4, max_tasks=4, post=post)


def c07(rng):
    if rng.random() < 0.2:
        return gen.book_cfg(rng)

    def post(rng, cfg):
        for t in cfg["tasks"]:
            t["kind"] = "spawn"
            t["misbehave"] = rng.random() < 0.8
    return e2e(rng, frac=(0.0, 0.3, 0.5), kills=0.4, parts=0.3, skips=0.1, post=post)


def c08(rng):
    def post(rng, cfg):
        if rng.random() < 0.12:
            # several deaths at once while the blocks that go on take long
            cfg["long"] = 0.5
            cfg["hang_after"] = 400.0
            at = round(rng.uniform(0.2, 5.0), 3)
            for i in range(rng.randint(1, 4)):
                cfg["faults"].append(dict(kind="kill_time", at=at, which=rng.randrange(8), sig=rng.choice((-9, -15, -11))))
            for t in cfg["tasks"]:
                t["workers"] = rng.choice((2, 3, 4))
        elif rng.random() < 0.1:
            cfg["slow_term"] = True
    return e2e(rng, outs=("kill0", "kill1", "exit:3", "killin", "raise", "raise", "raisekill"), frac=(0.2, 0.5, 0.8), kills=0.8, skips=0.1,
               exhaust=(0.0, 0.3), post=post)


def add_stop(rng, cfg, hows=("event", "main", "group")):
    cfg["faults"].append(dict(kind="stop", at=round(rng.choice((rng.uniform(0, 0.3), rng.uniform(0, 1.5),
                                                                rng.uniform(0, 6))), 3), how=rng.choice(hows)))


def c09(rng):
    def post(rng, cfg):
        if rng.random() < 0.25:
            add_stop(rng, cfg, ("event",) if cfg["mode"] == "server" else ("main", "group"))
    return e2e(rng, exhaust=(0.0, 0.4, 1.0), kills=0.25, skips=0.4, mode=rng.choice(("conv", "server", "conv")),
               post=post)


def c10(rng):
    x = rng.random()
    if x < 0.03:
        return gen.big_cfg(rng)
    if x < 0.2:
        return sched(rng, skip=1.0)
    if x < 0.65:
        return gen.resume_cfg(rng, e2e)
    cfg = e2e(rng, skips=1.0, kills=0.3, frac=(0.0, 0.3))
    if rng.random() < 0.5:
        # the check sees what has been completed in this run, too
        cfg["marks"] = True
        for t in cfg["tasks"]:
            t["check"] = True
    return cfg


def c11(rng):
    def post(rng, cfg):
        x = rng.random()
        cfg["slow_term"] = rng.random() < 0.2
        if x < 0.65:
            add_stop(rng, cfg, ("event",) if cfg["mode"] == "server" else ("main", "group"))
        elif x < 0.8:
            add_spawn_err(rng, cfg)
        elif x < 0.88:
            cfg["faults"].append(dict(kind="forkfail", n=rng.randrange(5)))
        elif x < 0.96:
            add_init_err(rng, cfg)
    return e2e(rng, mode=rng.choice(("conv", "server")), kills=0.3, parts=0.2, skips=0.1, frac=(0.0, 0.0, 0.3),
               durs=rng.choice((2, 4, 5)), post=post)


SPAWN_WHERE = ("start", "connected", "after1", "after2", "end")
SPAWN_KINDS = work.EXC_KINDS


def add_spawn_err(rng, cfg):
    t = rng.choice(cfg["tasks"])
    t["kind"] = "spawn"
    t["spawn_err"] = {str(rng.randint(1, 4)): [rng.choice(SPAWN_WHERE), rng.choice(SPAWN_KINDS)]
                      for _ in range(rng.randint(1, 2))}


def add_init_err(rng, cfg):
    if rng.random() < 0.4 and cfg["mode"] == "server":
        cfg["obs_err"] = rng.choice((1, 2, 3, 5, 8, 13, 20))
        return
    t = rng.choice(cfg["tasks"])
    t["init"] = True
    t["init_err"] = rng.choice(("boom", "key", "os", "runtime", "conn", "closed"))


def c12(rng):
    def post(rng, cfg):
        if rng.random() < 0.08:
            # the disk is full, or the log directory not writable
            cfg["faults"].append(dict(kind="logfail", n=rng.randrange(8), errno=rng.choice((28, 13, 5, 24))))
            return
        add_spawn_err(rng, cfg)
        if rng.random() < 0.6:
            # nobody left to do the work, or the work takes long: the error must not get lost
            t = next(t for t in cfg["tasks"] if "spawn_err" in t)
            kind = rng.choice(SPAWN_KINDS)
            if rng.random() < 0.6:
                t["workers"] = rng.choice((1, 1, 2))
                t["spawn_err"] = {str(i + 1): [rng.choice(SPAWN_WHERE), kind] for i in range(t["workers"])}
            else:
                cfg["long"] = 0.7
                cfg["hang_after"] = 400.0
                t["spawn_err"] = {str(rng.randint(1, t["workers"])): [rng.choice(SPAWN_WHERE), kind]}
    return e2e(rng, kills=0.2, parts=0.2, skips=0.1, frac=(0.0, 0.0, 0.3), post=post)


def c16(rng):
    kinds = ("boom", "key", "chatty", "assert", "badinit", "nopickle") if rng.random() < 0.4 else work.EXC_KINDS
    def post(rng, cfg):
        for t in cfg["tasks"]:
            if rng.random() < 0.4:
                t["tidy"] = rng.choice((0.05, 0.5))
    return e2e(rng, post=post, outs=("fail", "raise", "failraise", "okset", "kbd", "exit:3", "raise", "raise", "raisekill"),
               frac=(0.3, 0.6, 0.9), exhaust=(0.0, 0.3), kills=0.2, skips=0.05, exc_kinds=kinds, early=rng.choice((0, 0.3)),
               mode=wchoice(rng, [("server", 9), ("conv", 1)]))


def c17(rng):
    if rng.random() < 0.5:
        return sched(rng, fail=0.4, exhaust=0.6)
    return e2e(rng, exhaust=(0.0, 0.5), mode="server")


def c18(rng):
    x = rng.random()
    if x < 0.12:
        return gen.serial_cfg(rng, e2e)
    if x < 0.17:
        # without multiprocessing, an exception ends the run
        return e2e(rng, outs=("fail", "raise", "okset", "kbd"), frac=(0.3, 0.6), kills=0.0, parts=0.0, skips=0.4, spawn=0.0,
                   mode=rng.choice(("serial", "serialconv")), max_tasks=4, lines=0.03)

    def post(rng, cfg):
        if rng.random() < 0.2:
            add_stop(rng, cfg, ("event",))
            if rng.random() < 0.5:
                # some tasks are finished by then
                cfg["base"], cfg["durs"] = rng.choice((0.5, 1.5)), 2
                cfg["faults"][-1]["at"] = round(rng.uniform(1, 15), 3)
        elif rng.random() < 0.1:
            add_spawn_err(rng, cfg)
        elif rng.random() < 0.06:
            add_init_err(rng, cfg)
    return e2e(rng, exhaust=(0.0, 0.5), mode="server", skips=0.4, post=post, max_tasks=4)


def c19(rng):
    cfg = e2e(rng, outs=("raise", "raise", "failraise", "fail"), frac=(0.6, 0.9, 1.0), exhaust=(0.0, 0.2, 0.5),
              kills=0.3, parts=0.1, skips=0.0, mode="server", max_tasks=2, max_blocks=16)
    for t in cfg["tasks"]:
        t["retries"] = rng.choice((1, 2, 3, 4))
        t["workers"] = rng.choice((1, 1, 2, 3))
    cfg["plan"] = {}
    gen.add_plan(rng, cfg, rng.choice((("raise", "raise", "failraise", "fail"), ("raise", "raise", "raise", "raisekill"))),
                 frac=rng.choice((0.5, 0.9)), exhaust=rng.choice((0.0, 0.3)))
    if rng.random() < 0.5:
        # blocks that take their time
        cfg["durs"], cfg["base"] = rng.choice((2, 4)), rng.choice((1.0, 3.0, 6.0))
    return cfg


def c21(rng):
    if rng.random() < 0.3:
        return sched(rng)
    cfg = e2e(rng, kills=0.2, skips=0.15, exhaust=(0.0, 0.3), max_tasks=4, durs=rng.choice((0, 3, 5)))
    if rng.random() < 0.45:
        # hold all blocks until as many run as there are workers
        cfg["tasks"] = [t for t in cfg["tasks"] if not t["up"]][:rng.choice((1, 1, 2))]
        ids = [t["id"] for t in cfg["tasks"]]
        rng.shuffle(ids)
        cfg["order"] = cfg["targets"] = ids
        for t in cfg["tasks"]:
            t["conflict"] = False
            t["check"] = False
        m = Model(dict(cfg, plan={}))
        cfg["plan"], cfg["skip"], cfg["check_raise"], cfg["faults"] = {}, [], [], []
        cfg["gate"] = sum(min(t["workers"], m.total(t["id"])) for t in cfg["tasks"])
    return cfg


def c23(rng):
    cfg = e2e(rng, kills=0.5, frac=(0.0, 0.3), skips=0.1, max_tasks=4, mode=wchoice(rng, [("server", 4), ("conv", 1)]))
    cfg["talk"] = True
    if rng.random() < 0.15:
        cfg["env"] = "logdir=other:hostname=10.9.9.9:port=9:task_id=%s:worker_id=%d" % (rng.choice(("z", cfg["tasks"][0]["id"])), rng.choice((0, 77)))
    if rng.random() < 0.7:
        cfg["logdir"] = rng.choice(("logs", "/sim/logs", "a/b", "x y/z.d", None))
    return cfg


def c13(rng):
    return gen.tcp_cfg(rng, daisy=0.2, lose=0.15)


def c14(rng):
    if rng.random() < 0.12:
        cfg = gen.resume_cfg(rng, e2e)
        for c in cfg["crashes"]:
            c["how"] = "kill"
        return cfg
    return gen.tcp_cfg(rng, daisy=0.35, lose=0.5)


def c20(rng):
    return gen.pool_cfg(rng)


def c15(rng):
    return gen.serial_cfg(rng, e2e)


def c22(rng):
    return gen.addr_cfg(rng)


PROFILES = dict(C22=c22, C15=c15, C20=c20, C13=c13, C14=c14, C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10, C11=c11,
                C12=c12, C16=c16, C17=c17, C18=c18, C19=c19, C21=c21, C23=c23)


FOCUS = dict(tcp=["/tcp/", "/client.py"], pool=["/worker_pool.py", "/worker.py"])


def make(prop, rng):
    cfg = PROFILES[prop](rng)
    if prop in ("C06", "C09", "C15") and cfg["scenario"] in ("e2e", "serial") and rng.random() < 0.004:
        # nothing to do at all
        for k in ("tasks", "order", "targets", "skip", "check_raise", "faults"):
            cfg[k] = []
        cfg["plan"] = {}
    if cfg["scenario"] in ("e2e", "tcp", "pool", "resume") and not cfg.get("lines") and rng.random() < 0.12:
        # look closely at one function of daisy: preempt and stall between its lines
        cfg["sched"] = dict(cfg["sched"], policy=rng.choice(("pct", "random")), stall_p=cfg["sched"].get("stall_p") or 0.002, gap=rng.choice((0, 60, 250)),
                            focus=dict(at=round(rng.random(), 4), p=rng.choice((0.03, 0.1, 0.3, 0.6)), files=FOCUS.get(cfg["scenario"])))
    cfg["property"] = prop
    return cfg
