"""Seeded generators of configurations (swarm style: every run draws its own mix of features)."""
from .model import Model
from .work import EXC_KINDS

OUT_FAIL = ("fail", "raise", "failraise", "kill0", "kill1", "exit:3")


def wchoice(rng, pairs):
    tot = sum(w for _, w in pairs)
    x = rng.random() * tot
    for v, w in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][0]


def box_task(rng, tid, dims, max_blocks, conflict=None, fits=None, near=None, zero_p=0.0, big_ctx=False, large=False):
    """One task; near: another task whose written region this one should read from."""
    while True:
        s = [rng.choice((1, 2, 3, 4, 5, 6, 10)) for _ in range(dims)]
        nb = [rng.randint(1, 5 if dims == 1 else 3) if dims > 1 else rng.randint(1, 8) for _ in range(dims)]
        if large:
            nb = [rng.randint(30, 120)] if dims == 1 else [rng.randint(3, 11 if dims == 2 else 5) for _ in range(dims)]
        n = 1
        for x in nb:
            n *= x
        if n <= max_blocks:
            break
    fit = rng.choice(fits or ("valid", "valid", "overhang", "shrink"))
    if conflict is None:
        conflict = rng.random() < 0.55
    style = rng.random()
    lo, up = [], []
    for x in s:
        if style < 0.25:
            a = b = 0
        elif style < 0.5:
            a = b = rng.randint(0, x)
        else:
            m = 2 * x + 2 if big_ctx or style > 0.85 else x
            a, b = rng.randint(0, m), rng.randint(0, m)
        lo.append(a)
        up.append(b)
    extra = [rng.randint(0, x - 1) if rng.random() < 0.5 else 0 for x in s]
    if fit == "valid" and rng.random() < zero_p and max(s) > 1:
        i = s.index(max(s))
        nb[i] = 0
        extra[i] = rng.randint(1, s[i] - 1)
    if fit != "valid":
        # the last block may stick out
        wshape = [max(1, a * x - (x - 1 - e if e else 0)) for a, x, e in zip(nb, s, extra)]
    else:
        wshape = [a * x + e for a, x, e in zip(nb, s, extra)]
    tshape = [a + b + c for a, b, c in zip(wshape, lo, up)]
    if near is not None:
        (o, sh) = near["total"]
        off = []
        for a, b, c in zip(o, sh, tshape):
            if rng.random() < 0.4:
                off.append(a)
            else:
                off.append(rng.randint(a - c // 2, a + max(0, b - c // 2)))
    else:
        off = [rng.choice((0, 0, rng.randint(-20, 20))) for _ in range(dims)]
    ro = [rng.choice((0, 0, rng.randint(-5, 5))) for _ in range(dims)]
    rshape = [a + b + c for a, b, c in zip(lo, s, up)]
    return dict(id=tid, total=[off, tshape], read=[ro, rshape],
                write=[[a + b for a, b in zip(ro, lo)], s], conflict=conflict, fit=fit,
                workers=rng.randint(1, 4) if rng.random() < 0.97 else rng.randint(5, 9),
                retries=rng.choice((0, 1, 1, 2, 2, 3)) if rng.random() < 0.96 else 8, up=[],
                check=False, kind="proc", init=rng.random() < 0.8)


def graph(rng, max_tasks=3, max_blocks=10, shapes=None, **kw):
    """A set of tasks with dependencies."""
    n = wchoice(rng, [(1, 4), (2, 4), (3, 2.5), (4, 1.0)])
    n = min(n, max_tasks)
    dims = wchoice(rng, [(1, 5), (2, 4), (3, 1)])
    tasks = []
    names = list(NAMES[0] if rng.random() < 0.85 else rng.choice(NAMES[1:]))
    for i in range(n):
        up = []
        if i:
            shape = rng.random()
            if shape < 0.65:
                up = [tasks[-1]["id"]]
                if i >= 2 and rng.random() < 0.35:
                    up.append(tasks[rng.randrange(i - 1)]["id"])
            elif shape < 0.85:
                up = [tasks[rng.randrange(i)]["id"]]
            elif shape < 0.92:
                up = [x["id"] for x in tasks]
                rng.shuffle(up)
        near = next((t for t in tasks if up and t["id"] == up[0]), None)
        t = box_task(rng, names[i], dims, max_blocks, near=near, **kw)
        t["up"] = up
        if rng.random() < 0.15:
            t["style"] = rng.choice(("lambda", "closure", "method", "partial", "result"))
        tasks.append(t)
    if rng.random() < 0.07:
        # voxels of some size, far from the origin
        for i in range(dims):
            scale(tasks, i, rng.choice((1, 8, 40, 1000, 1 << 20)), rng.choice((0, 10 ** 9, 1 << 33, -(1 << 31), -7 * 10 ** 9)))
    return tasks


# the ids of tasks can be any text (but the separators of the environment variable)
NAMES = (("a", "b", "c", "d"), ("t", "t1", "t11", "1"), ("seg", "seg 2", "a seg", "Seg"), ("x.y", "x", "y", "x_y"), ("0", "-1", "None", "True"),
         ("b", "a", "aa", "ab"), ("\u00e9t\u00e9", "\u00e9", "ete", "e"))


def scale(tasks, i, f, shift):
    """Scales and shifts one dimension of the coordinates of all tasks."""
    for t in tasks:
        for k in ("total", "read", "write"):
            for part in t[k]:
                part[i] *= f
        t["total"][0][i] += shift


def sched_net(rng, heavy=False):
    sched = dict(policy=wchoice(rng, [("random", 5), ("pct", 2), ("fifo", 1.5), ("lifo", 1.5)]),
                 gap=rng.choice((0, 4, 15, 60, 250)),
                 stall_p=rng.choice((0.0, 0.0, 0.02, 0.1)))
    net = dict(lat=rng.choice((0, 2, 4, 6, 8)), lat_p=rng.choice((0.1, 0.3, 0.7)),
               short_p=rng.choice((0.0, 0.0, 0.1, 0.5)), seg=rng.choice((0, 0, 100, 700)),
               sndbuf=rng.choice((1 << 20, 1 << 20, 4096)))
    return sched, net


def finish(rng, tasks, mode=None, **kw):
    ids = [t["id"] for t in tasks]
    order = ids[:]
    rng.shuffle(order)
    ups = {u for t in tasks for u in t["up"]}
    sinks = [i for i in ids if i not in ups]
    targets = sinks[:] if rng.random() < 0.6 else order[:]
    rng.shuffle(targets)
    if rng.random() < 0.1:
        targets.append(rng.choice(targets))  # twice in the list
    sched, net = sched_net(rng)
    cfg = dict(scenario="e2e", mode=mode or wchoice(rng, [("server", 8), ("conv", 2)]), tasks=tasks,
               order=order, targets=targets, plan={}, skip=[], check_raise=[], faults=[],
               sched=sched, net=net, durs=rng.choice((0, 2, 3, 4, 5)), fork_delays=rng.choice((1, 3, 5)),
               lines=rng.random() < 0.12, rounds=1, obs_last=rng.random() < 0.3)
    if rng.random() < 0.08:
        cfg["own_sched"] = True
    cfg.update(kw)
    if cfg["lines"]:
        cfg["sched"]["gap"] = rng.choice((100, 400, 1500))
    return cfg


def add_plan(rng, cfg, outs, frac=0.3, exhaust=0.2, model=None, tasks=None):
    """Failing attempts. exhaust: probability that a failing block fails for good."""
    m = model or Model(cfg)
    early = cfg.get("early", 0)
    for k, b in m.blocks.items():
        if tasks is not None and b.task not in tasks:
            continue
        if rng.random() >= frac:
            continue
        r = m.tasks[b.task]["retries"]
        if rng.random() < exhaust:
            n = r + 1
        elif r:
            n = rng.randint(1, r)
        else:
            continue
        seq = []
        for _ in range(n):
            o = rng.choice(outs)
            if o == "raise":
                o = "raise:" + rng.choice(cfg.get("exc_kinds", ("boom", "key", "chatty", "assert")))
            elif o == "killin":
                o = "killin:%d" % rng.choice((0, 1, 2, 3, 5, 8, 12, 20, 35, 60))
            elif o == "raisekill":
                o = "raisekill:%d" % rng.choice((5, 10, 15, 20, 25, 30, 40, 60))
            if early and (o == "kbd" or o.startswith(("raise:", "exit:"))) and rng.random() < early:
                o = "set+" + o
            seq.append(o)
        cfg["plan"][k] = seq
    if "kbd" in outs:
        # a worker that is interrupted ends for good: leave at least one per task
        left = {t["id"]: t["workers"] - 1 for t in cfg["tasks"]}
        for k, seq in cfg["plan"].items():
            for i, o in enumerate(seq):
                if o.endswith("kbd"):
                    t = m.blocks[k].task
                    if left[t] > 0:
                        left[t] -= 1
                    else:
                        seq[i] = "fail"
    return m


def add_kills(rng, cfg, n=None, horizon=3.0):
    for _ in range(rng.randint(1, 3) if n is None else n):
        if rng.random() < 0.6:
            cfg["faults"].append(dict(kind="kill_tick", worker=rng.randrange(6),
                                      tick=wchoice(rng, [(rng.randint(1, 40), 2), (rng.randint(1, 400), 3),
                                                         (rng.randint(1, 3000), 1)])))
        else:
            cfg["faults"].append(dict(kind="kill_time", at=round(rng.uniform(0.0, horizon), 3),
                                      which=rng.randrange(8), sig=rng.choice((-9, -15, -11))))


def add_partitions(rng, cfg, n=None):
    for _ in range(rng.randint(1, 2) if n is None else n):
        cfg["faults"].append(dict(kind="partition", worker=rng.randrange(4), at=round(rng.uniform(0, 2.0), 3),
                                  dur=rng.choice((0.2, 1.5, 6.0, 20.0))))


def add_skips(rng, cfg, model=None):
    m = model or Model(cfg)
    for t in cfg["tasks"]:
        if rng.random() < 0.6:
            t["check"] = True
            mode = rng.random()
            for b in m.of_task[t["id"]]:
                if mode < 0.3 or rng.random() < 0.4:
                    cfg["skip"].append(b.key)
                elif rng.random() < 0.15:
                    cfg["check_raise"].append(b.key)
    if rng.random() < 0.2:
        cfg["check_values"] = rng.choice(("np", "int", "text", "list"))
    return m


def sched_cfg(rng, fail=0.25, exhaust=0.3, skip=0.3, max_blocks=24, **kw):
    tasks = graph(rng, max_tasks=4, max_blocks=max_blocks, zero_p=0.04, **kw)
    for t in tasks:
        t["workers"] = rng.randint(1, 6)
    ids = [t["id"] for t in tasks]
    rng.shuffle(ids)
    cfg = dict(scenario="sched", mode="sched", tasks=tasks, order=ids, targets=ids, plan={}, skip=[],
               check_raise=[], faults=[], sched=dict(policy="random"), net={})
    m = Model(cfg)
    if rng.random() < 0.7:
        f = rng.choice((0.05, fail, 0.6))
        add_plan(rng, cfg, ("fail",), frac=f, exhaust=rng.choice((0.0, exhaust, 1.0)), model=m)
    if rng.random() < skip:
        add_skips(rng, cfg, m)
    return cfg


def big_cfg(rng, chain=False):
    """Long rows of blocks: more than a thousand in a row that are skipped, or that depend on each other."""
    n = rng.randint(1050, 1500)
    c = n if chain else rng.choice((0, 0, 1))
    t = dict(id="a", total=[[0], [n + 2 * c]], read=[[0], [1 + 2 * c]], write=[[c], [1]], conflict=chain, fit="valid", workers=2,
             retries=rng.choice((0, 0, 1)), up=[], check=not chain, kind="proc", init=False)
    tasks = [t]
    cfg = dict(scenario="sched", mode="sched", tasks=tasks, order=["a"], targets=["a"], plan={}, skip=[], check_raise=[], faults=[],
               sched=dict(policy="random"), net={}, big=True)
    keys = ["a@%d" % (c + i) for i in range(n)]
    if chain:
        # the order within the chain is daisy's choice: whatever comes first fails for good
        cfg["first_fails"] = True
    else:
        todo = set(rng.sample(range(n), rng.choice((0, 1, 2))))
        cfg["skip"] = [k for i, k in enumerate(keys) if i not in todo]
    return cfg


def tcp_cfg(rng, daisy=0.3, lose=0.3):
    sched, net = sched_net(rng)
    small = net["seg"] or net["short_p"] or net["sndbuf"] < 5000
    sizes = rng.choice(((0, 1, 10), (0, 5, 300, 2000), (3000,), (1, 65536, 500)))
    if not small and rng.random() < 0.1:
        sizes = rng.choice(((10, 1 << 20), (10, 1 << 20), (5, 300000, 12 << 20)))
    if small:
        sizes = tuple(min(s, 3000) for s in sizes)
    lines = rng.random() < 0.25
    if lines:
        sched["gap"] = rng.choice((30, 100, 400))
    n = rng.randint(1, 4)
    clients = []
    tmos = (None, 0.0, 0.01, 0.3, 2.0)
    for c in range(n):
        if rng.random() < daisy:
            clients.append(dict(kind="daisy", blocks=rng.randint(0, 4), then=rng.choice(("shutdown", "delay", "delay")),
                                pause=rng.choice((0, 0, 0.05, 0.4)), delay=rng.choice((0, 0, 0.3, 1.0))))
            continue
        cc = dict(kind="tcp", send=[[rng.randint(1, 8), rng.choice((0, 0, 0.01, 0.1))] for _ in range(rng.randint(0, 3))],
                  push=[[rng.randint(1, 6), rng.choice((0, 0, 0.01, 0.1))] for _ in range(rng.randint(0, 2))],
                  echo=rng.random() < 0.5, readers=rng.choice((1, 1, 1, 2)),
                  timeouts=[rng.choice(tmos) for _ in range(rng.randint(1, 3))],
                  end=wchoice(rng, [("disconnect", 4), ("busy", 2), ("hang", 3), ("leave", 1)]),
                  hang_forever=rng.random() < 0.6, kill=rng.random() < 0.5, delay=rng.choice((0, 0, 0.1, 0.5)))
        clients.append(cc)
    faults = []
    for _ in range(wchoice(rng, [(0, 3), (1, 3), (2, 1)])):
        at = round(rng.choice((rng.uniform(0, 0.3), rng.uniform(0, 1.5))), 3)
        faults.append(wchoice(rng, [(dict(kind="abort", client=rng.randrange(n), at=at,
                                          errno=rng.choice(("ECONNRESET", "ETIMEDOUT", "EHOSTUNREACH"))), 2),
                                    (dict(kind="kill", client=rng.randrange(n), at=at), 2),
                                    (dict(kind="partition", client=rng.randrange(n), at=at,
                                          dur=rng.choice((0.2, 1.5, 6.0, 20.0))), 1.5)]))
    if rng.random() < lose:
        faults.append(dict(kind="lose", how=rng.choice(("kill", "disconnect")), at=round(rng.uniform(0, 1.2), 3)))
    late = 0
    if rng.random() < 0.05 and not lines:
        # many messages that nobody looks at for a while
        sizes = rng.choice(((0, 1), (3, 30), (100,)))
        sched["gap"] = rng.choice((0, 60, 250))
        for cc in clients[:rng.choice((1, 1, 2))]:
            if cc["kind"] == "tcp":
                big = rng.choice((70, 130, 300, 1100))
                if rng.random() < 0.6:
                    cc["send"] = [[rng.randint(big // 2, big), 0]]
                if rng.random() < 0.6:
                    cc["push"] = [[rng.randint(big // 2, big), 0]]
                cc["echo"] = False
                cc["late"] = rng.choice((0, 2.0, 5.0))
        late = rng.choice((0, 0, 3.0))
    other_loop = rng.choice((["server"], ["server"], ["client"], ["server", "client"])) if rng.random() < 0.08 else []
    return dict(scenario="tcp", mode="tcp", other_loop=other_loop, clients=clients, faults=faults, sizes=list(sizes), sched=sched, net=net, late=late,
                lines=lines, reuse=rng.random() < 0.2, final=rng.choice(("kill", "disconnect")),
                server=dict(timeouts=[rng.choice((0.01, 0.1, 0.1, 1.0)) for _ in range(2)], slow=rng.random() < 0.2))


def pool_cfg(rng):
    sched, net = sched_net(rng)
    lines = rng.random() < 0.4
    if lines:
        sched["gap"] = rng.choice((5, 20, 60))
    pools = rng.choice((1, 1, 2))
    nt = wchoice(rng, [(1, 3), (2, 4), (3, 2), (4, 1)])
    threads = []
    for _ in range(nt):
        ops = []
        for _ in range(rng.randint(1, 6)):
            i = rng.randrange(pools)
            ops.append(wchoice(rng, [(["set", i, rng.randint(0, 5)], 5), (["reap", i], 2), (["sleep", rng.choice((0.01, 0.3, 1.0))], 2),
                                     (["stop", i], 0.7), (["check", i], 0.7),
                                     (["inc", i, rng.randint(1, 2)] if nt == 1 else ["reap", i], 0.7),
                                     (["stop1", i, rng.randrange(5)] if nt == 1 else ["reap", i], 0.7)]))
        threads.append(ops)
    behave = []
    if rng.random() < 0.7:
        behave = [wchoice(rng, [("run", 4), ("exit:%s" % rng.choice((0, 0.2, 1.0)), 1), ("crash:%s" % rng.choice((0, 0.2, 1.0)), 2),
                                ("raise:%s" % rng.choice((0, 0.3)), 0.7), ("code:0.1", 0.5)]) for _ in range(rng.randint(1, 6))]
    return dict(scenario="pool", mode="pool", pools=pools, threads=threads, behave=behave,
                forkfail=[rng.randrange(6)] if rng.random() < 0.1 else [], final=[rng.randint(0, 4) for _ in range(pools)],
                slow_term=rng.random() < 0.15, sched=sched, net=net, lines=lines, fork_delays=rng.choice((1, 3, 5)))


def serial_cfg(rng, e2e):
    cfg = e2e(rng, outs=("fail", "okset", "fail"), frac=(0.0, 0.3, 0.6), exhaust=(0.0, 0.3, 0.6), kills=0.0, parts=0.0, skips=0.6,
              spawn=0.0, mode="server", max_tasks=4, lines=0.03)
    cfg["scenario"] = "serial"
    par = wchoice(rng, [("server", 3), ("conv", 1)])
    modes = [par, wchoice(rng, [("serial", 3), ("serialconv", 1)])]
    if rng.random() < 0.5:
        modes.reverse()
    cfg["modes"] = modes
    cfg["mode"] = "both"
    return cfg


def resume_cfg(rng, e2e):
    cfg = e2e(rng, outs=("fail", "raise", "kill0", "kill1", "killin"), frac=(0.0, 0.0, 0.3, 0.5), exhaust=(0.0, 0.0, 0.3), kills=0.25, parts=0.1,
              skips=0.2, spawn=0.3, mode="server", max_tasks=3, lines=0.05)
    cfg["scenario"] = "resume"
    for t in cfg["tasks"]:
        t["check"] = True
    n = wchoice(rng, [(2, 4), (3, 1)])
    modes, crashes = [], []
    for i in range(n):
        last = i == n - 1
        m = wchoice(rng, [("server", 4), ("conv", 2)] + ([("serial", 1), ("serialconv", 0.5)] if last else []))
        modes.append(m)
        if not last:
            how = wchoice(rng, [("kill", 4), ("killall", 3), ("event" if m == "server" else rng.choice(("main", "group")), 2)])
            c = dict(how=how, at=round(rng.choice((rng.uniform(0, 0.4), rng.uniform(0, 2.0), rng.uniform(0, 6.0))), 3))
            if how in ("kill", "killall") and rng.random() < 0.6:
                c["tick"] = wchoice(rng, [(rng.randint(1, 300), 1), (rng.randint(1, 3000), 3), (rng.randint(1, 12000), 2)])
            crashes.append(c)
    if modes[-1].startswith("serial"):
        for t in cfg["tasks"]:
            t["kind"] = "proc"
    cfg.update(modes=modes, crashes=crashes, mode="resume", late_faults=rng.random() < 0.3)
    return cfg


def book_cfg(rng):
    return dict(scenario="book", mode="book", blocks=rng.randint(1, 6), streams=rng.randint(1, 4), jumps=rng.choice((0, 0, 0.3)), tasks_n=rng.choice((1, 2)), steps=rng.choice((10, 40, 120)),
                timeout=rng.choice((None, None, 0.5, 3.0, 20.0)), w=[rng.random() + 0.05 for _ in range(7)],
                sched=dict(policy="random"), net={}, faults=[])


def addr_cfg(rng):
    import errno
    sched, net = sched_net(rng)
    routes = ("10.0.0.5", "192.168.7.7")
    net.update(hosts=[LO_, "10.0.0.5", "192.168.7.7"], route=wchoice(rng, [(routes[0], 5), (routes[1], 2), (LO_, 1), (None, 1)]), fail={})
    tries = rng.choice((None, None, 1, 2, 3, 5))
    whole = rng.random() < 0.25
    if whole:
        tries = None
    n = wchoice(rng, [(0, 4), (1, 2), (2, 1), (3, 1), (5, 1), (8, 0.5)])
    if tries is None and rng.random() < 0.05:
        n = rng.choice((999, 1000, 1001))
    if n:
        net["fail"][rng.choice(("bind", "bind", "listen", "socket", "getaddrinfo"))] = [
            rng.choice((errno.EADDRINUSE, errno.EMFILE, errno.ENOBUFS, errno.EACCES)) for _ in range(n)]
    broken = []
    x = rng.random()
    r = net["route"]
    if x < 0.6 and r not in (None, LO_):
        broken = [r]
        how = rng.choice(("bind", "listen", "connect", "send", "accept", "recv", "recv", "blackhole", "gone"))
        if how == "blackhole":
            net["blackhole"] = r
        elif how == "gone":
            net["hosts"] = [h for h in net["hosts"] if h != r]
        else:
            net["iface"] = {r: {how: rng.choice((errno.ENOTCONN, errno.ECONNREFUSED, errno.ENETUNREACH, errno.EPERM))}}
    elif x < 0.7:
        net["fail"]["udp_connect"] = [errno.ENETUNREACH]
    healthy = not broken and net["short_p"] == 0 and net["seg"] == 0 and net["lat"] <= 4 and "udp_connect" not in net["fail"] and not sched["stall_p"]
    where = wchoice(rng, [("main", 5), ("thread", 3), ("async", 2)])
    others = [rng.choice(("main", "thread", "async")) for _ in range(wchoice(rng, [(0, 5), (1, 3), (2, 1)]))]
    race = not net["fail"] and rng.random() < 0.25
    return dict(scenario="addr", mode="addr", where=where, others=others, race=race, host=rng.choice((None, None, None, None, LO_, "10.0.0.5", "192.168.7.7", "node17")), tries=tries,
                port_fails=n, whole=whole, broken=broken, healthy=healthy, sched=sched, net=net, lines=rng.random() < (0.5 if race else 0.1), faults=[])


LO_ = "127.0.0.1"
