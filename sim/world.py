"""The world of one simulated block-wise run: user code behaviour, ground truth and online checks.

Ground truth is taken from (a) the user callables, which record what they do, and (b) the calls
of the public methods Scheduler.acquire_block / Scheduler.release_block. What is expected comes
from the reference model, never from daisy's own counters.
"""
import re

from . import fakes as F
from . import kernel as K
from . import work
from .model import Box, Model, key_of, of_roi

LONG = 100.0
DUR = (0.01, 0.05, 0.2, 0.6, 1.5)
COUNTS = ("ready_count", "processing_count", "pending_count", "completed_count",
          "skipped_count", "failed_count", "orphaned_count", "total_block_count")
SETTLE = 60.0  # bound, in virtual seconds, for everything that must happen "within bounded time"
HANG = ("C01", "C04", "C05", "C06", "C10", "C12", "C16", "C21")
ABORT = ("C01", "C04", "C05", "C06", "C09", "C10", "C16")


class Bad:
    def __init__(self, tags, oracle, msg, t):
        self.tags = (tags,) if isinstance(tags, str) else tuple(tags)
        self.oracle = oracle
        self.msg = msg
        self.t = t

    def sig(self):
        return self.oracle

    def as_dict(self):
        return dict(properties=list(self.tags), oracle=self.oracle, message=self.msg,
                    at=round(self.t, 6))


def parse_env(env):
    out = {}
    for tok in (env or "").split(":"):
        if "=" in tok:
            a, b = tok.split("=", 1)
            out[a] = b
    return out


class World:
    def __init__(self, kk, cfg, sink):
        self.kk = kk
        self.cfg = cfg
        self.serial = cfg["mode"] in ("serial", "serialconv")
        self.bads = sink
        self.model = Model(cfg)
        self.tasks = {t["id"]: t for t in cfg["tasks"]}
        self.plan = cfg.get("plan", {})
        self.skip = set(cfg.get("skip", ()))
        self.check_raise = set(cfg.get("check_raise", ()))
        self.H = []
        self.retired = False  # its observer belongs to an earlier run of the same server
        self.starts = {}
        self.running = {}     # (proc, key) -> since
        self.cur = {}         # key -> facts about the attempt in progress
        self.outstanding = {}  # key -> time handed out
        self.handouts = {}
        self.fails = {}
        self.accepted = {}
        self.checked_true = {}
        self.failed = set()
        self.raised = {}      # proc ordinal -> number of raising blocks
        self.unpacked = {}    # text of exception: when it arrived in the main process
        self.raise_log = []   # (key, proc, worker id, repr of exception)
        self.reported = []    # what observers were told about failing blocks
        self.worker_ids = {}  # proc ordinal -> worker id
        self.listed = []      # (task, number of the block, worker, exception) as reported
        self.tokens = []      # (proc, token, expected file)
        self.depth = 0
        self.last_progress = 0.0
        self.last_tick = 0
        self.stop_at = None   # when a stop was requested
        self.stop_proc = None
        self.spawn_errors = []
        self.ext = []          # processes of workers that the user started himself
        self.user_errors = []  # raised by the user's functions in the server
        self.ended = None
        self.ret = None
        self.exc = None
        self.task_states = None
        self.returned_at = None
        self.obs = []
        self.first_proc = 1
        self.deps = {}
        self.d = None
        self.gate_open = False
        self.spawned = {}
        self.exit_seq = None
        self.terms = []
        self.quiet_gate = cfg.get("gate")
        self.deficit_since = {}
        self.interrupts = 0
        self.kbd = 0
        self.idle = {}
        self.forked = []
        self.pexits = []
        self.losses = {}       # task -> attempts that count as failed although processing did not fail
        self.marks = None      # durable completion marks, shared by the runs of a history
        self.marks_then = ()   # marks that existed when the current request began to be answered
        self.marked_before = ()  # marks that existed when this run began
        self.abandoned = False  # the whole server process was killed

    # -- recording ---------------------------------------------------------
    def bad(self, tags, oracle, msg):
        if len(self.bads) < 50:
            self.bads.append(Bad(tags, oracle, msg, self.kk.now))

    def ev(self, kind, *a):
        self.H.append((round(self.kk.now, 6), kind) + a)
        self.kk.log(kind, *a)

    def progress(self):
        self.last_progress = self.kk.now
        self.last_tick = self.kk.ticks

    def ok_key(self, block, where):
        key = key_of(block.task_id, block.write_roi.offset)
        mb = self.model.blocks.get(key)
        if mb is None:
            self.bad("C01", "foreign-block", f"{where}: block {key} is not part of the tiling")
            return key, None
        w, r = of_roi(block.write_roi), of_roi(block.read_roi)
        if w != mb.write or r != mb.read:
            self.bad(("C01", "C02", "C03"), "wrong-roi",
                     f"{where}: block {key} has write {w} read {r}, expected {mb}")
        return key, mb

    # -- user code, in workers -----------------------------------------------
    def proc_task(self, p):
        env = p.environ.get("DAISY_CONTEXT")
        if env == self.cfg.get("env"):
            return None  # inherited, not its own (yet)
        return parse_env(env).get("task_id")

    def identify(self, task, p, where):
        ctx = parse_env(p.environ.get("DAISY_CONTEXT"))
        wid = ctx.get("worker_id")
        if self.serial:
            return None
        if "ext" in p.tag:
            return p.tag["ext"]
        if p.ordinal not in self.worker_ids:
            for o, w in self.worker_ids.items():
                if w == wid:
                    self.bad(("C23", "C20"), "worker-id-twice",
                             f"workers in processes {o} and {p.ordinal} both have id {wid}")
            self.worker_ids[p.ordinal] = wid
        elif self.worker_ids[p.ordinal] != wid:
            self.bad("C23", "worker-id-changed", f"process {p.ordinal}: id {self.worker_ids[p.ordinal]} -> {wid}")
        if ctx.get("task_id") != task:
            self.bad("C23", "wrong-task-env", f"{where}: worker of task {task} sees task {ctx.get('task_id')}")
        srv = getattr(self, "server_addr", None)
        if srv and (ctx.get("hostname"), ctx.get("port")) != (str(srv[0]), str(srv[1])):
            self.bad("C23", "wrong-server-env", f"{where}: worker sees {ctx}, server is at {srv}")
        return wid

    def say(self, task, p, wid):
        if not self.cfg.get("talk") or self.serial or "ext" in p.tag:
            return
        n = len(self.tokens)
        for chan, suffix in (("stdout", "out"), ("stderr", "err")):
            tok = f"tok{chan[3]}{n}-{p.ordinal};"
            base = self.cfg.get("logdir", "daisy_logs")
            # without a log directory, everything is shown on the terminal
            want = f"{base}/{task}/worker_{wid}.{suffix}" if base is not None else "<terminal>"
            self.tokens.append((p.ordinal, tok, want))
            f = F.std_of(p, chan)
            if f is not None:
                f.write(tok + "\n")
            # not through Python: what a library or a child process of the worker prints
            tok = f"raw{chan[3]}{n}-{p.ordinal};"
            self.tokens.append((p.ordinal, tok, want))
            self.kk.fs.setdefault(p.fdtable.get(1 if chan == "stdout" else 2, "<terminal>"), []).append((p.ordinal, tok + "\n"))

    def process(self, task, block):
        kk = self.kk
        p = kk.me().proc
        key, mb = self.ok_key(block, "processing")
        i = self.starts.get(key, 0)
        self.starts[key] = i + 1
        self.ev("start", key, p.ordinal, i)
        kk.mix("start", key, p.ordinal)
        self.progress()
        wid = self.identify(task, p, "processing")
        if block.task_id != task:
            self.bad("C23", "foreign-task-block", f"worker of task {task} was given block {key}")
        self.idle.pop(p.ordinal, None)
        if block.status.name != "PROCESSING" and not self.serial:
            self.bad("C16", "status-at-start", f"{key} starts with status {block.status}")
        # conflicting blocks must not run now
        if mb is not None:
            for (o, k2) in self.running:
                if k2 == key:
                    self.bad(("C07", "C01"), "two-owners", f"{key} starts in process {p.ordinal} while it runs in {o}")
                elif k2 in self.model.blocks and self.model.conflicts(mb, self.model.blocks[k2]):
                    self.bad("C02", "conflict", f"{key} ({mb}) starts in process {p.ordinal} while "
                             f"{k2} ({self.model.blocks[k2]}) runs in process {o}")
        if key in self.accepted:
            self.bad("C01", "reprocessed", f"{key} is processed again after its success was accepted")
        if key in self.checked_true:
            self.bad("C10", "skipped-processed", f"{key} is processed although the check said it is done")
        if key in self.marked_before and key not in self.check_raise:
            self.bad("C10", "marked-processed", f"{key} is processed although it was marked done before the restart")
        for u in self.model.up_inter.get(key, ()):
            if u not in self.accepted:
                self.bad("C03", "upstream", f"{key} is processed before its upstream block {u} is complete")
        for u in self.deps.get(key, ()):
            if u in self.failed:
                self.bad("C05", "orphan-processed", f"{key} is processed although {u}, which it depends on, failed")
        c = self.cur.setdefault(key, {})
        c.update(start=kk.now, proc=p, how=None, pos=len(self.H))
        self.running[(p.ordinal, key)] = kk.now
        self.say(task, p, wid)
        seq = self.plan.get(key, ())
        out = seq[i] if i < len(seq) else "ok"
        how = "?"
        try:
            how = self._body(task, block, key, p, wid, out, c)
        except K.SimKilled:
            raise
        except SystemExit:
            how = "exit"
            raise
        except KeyboardInterrupt:
            how = "kbd"
            raise
        except BaseException:
            how = "raise"
            raise
        finally:
            if not kk.dead and p.alive:
                self.running.pop((p.ordinal, key), None)
                c["how"] = how
                c["end"] = kk.now
                self.ev("end", key, p.ordinal, how)
                kk.mix("end", key, p.ordinal)
                self.progress()
                self.idle[p.ordinal] = kk.now

    def _body(self, task, block, key, p, wid, out, c):
        kk = self.kk
        S = self.d.BlockStatus
        if out == "kill0":
            kk.stat("fault.kill_in_block")
            kk.kill_process(p, -9, "SIGKILL")
            kk.park(kk.me())
        if self.quiet_gate and not self.gate_open:
            # C21: wait (bounded by the run's progress limit) until enough blocks run at once
            self.gate_wait()
        n = self.cfg.get("durs", 3)
        if self.cfg.get("long") and kk.ch.flip(self.cfg["long"]):
            kk.sleep(LONG)
        elif n:
            kk.sleep(DUR[kk.ch.skewed(n, 0.4)] + self.cfg.get("base", 0))
        else:
            kk.tick("work")
        if self.marks is not None and (out in ("ok", "okset", "kill1") or out.startswith("killin:")):
            # the user's durable completion mark; a crash can hit before and after it
            kk.tick("mark")
            self.marks.setdefault(key, kk.now)
            self.ev("mark", key)
            kk.tick("marked")
        if out == "ok":
            return "ok"
        if out == "okset":
            block.status = S.SUCCESS
            return "ok"
        if out == "fail":
            block.status = S.FAILED
            return "failed"
        if out.startswith("set+"):
            # marked as succeeded too early
            block.status = S.SUCCESS
            out = out[4:]
        if out.startswith("raisekill:"):
            kk.stat("fault.kill_soon")
            p.kill_at = p.ticks + int(out[10:])
            out = "raise:boom"
        if out.startswith("raise") or out == "failraise":
            if out == "failraise":
                block.status = S.FAILED
            kind = out.partition(":")[2] or "boom"
            e = work.make_exc(kind, f"{key}#{self.starts[key]}")
            self.raised[p.ordinal] = self.raised.get(p.ordinal, 0) + 1
            self.raise_log.append((key, p, wid, f"{key}#{self.starts[key]}", type(e).__name__))
            if self.serial:
                self.user_errors.append((kk.now, f"{key}#{self.starts[key]}"))
            raise e
        if out == "kill1":
            kk.stat("fault.kill_in_block")
            kk.kill_process(p, -9, "SIGKILL")
            kk.park(kk.me())
        if out.startswith("killin:"):
            kk.stat("fault.kill_soon")
            p.kill_at = p.ticks + int(out[7:])
            return "ok"
        if out.startswith("exit:"):
            self.kbd += out == "exit:0"
            raise SystemExit(int(out[5:]))
        if out == "kbd":
            self.kbd += 1
            if self.serial:
                self.user_errors.append((kk.now, ""))
            raise KeyboardInterrupt()
        raise K.HarnessError(out)

    def gate_wait(self):
        kk = self.kk
        need = self.quiet_gate
        while not self.gate_open:
            if len(self.running) >= need:
                self.gate_open = True
                self.kk.probe("gate.reached")
                return
            kk.sleep(0.05)

    def spawn(self, task):
        """A user's own worker main function."""
        kk = self.kk
        p = kk.me().proc
        t = self.tasks[task]
        n = self.spawned[task] = self.spawned.get(task, 0) + 1
        self.ev("spawn", task, p.ordinal, n)
        wid = self.identify(task, p, "spawn")
        self.say(task, p, wid)
        err = t.get("spawn_err", {}).get(str(n))
        d = self.d

        def fail(where):
            if err and err[0] == where:
                e = work.make_exc(err[1], f"spawn-{task}-{n}")
                self.spawn_errors.append((kk.now, task, type(e).__name__, f"spawn-{task}-{n}", p.ordinal))
                kk.stat("fault.worker_raises")
                self.ev("spawn_err", task, p.ordinal, where)
                raise e
        fail("start")
        client = d.Client()
        if client.task_id != task or str(client.worker_id) != str(wid):
            self.bad("C23", "client-identity", f"client says task {client.task_id} worker {client.worker_id}, "
                     f"expected {task} {wid}")
        fail("connected")
        done = 0
        old = []
        mis = t.get("misbehave")
        while True:
            try:
                with client.acquire_block() as block:
                    if block is None:
                        break
                    self.process(task, block)
                    if mis:
                        self.misbehave(client, block, old)
            except (KeyboardInterrupt, SystemExit):
                if t.get("tidy"):
                    # the worker cleans up before it goes
                    kk.sleep(t["tidy"])
                raise
            done += 1
            fail(f"after{done}")
            old.append(block)
            if mis:
                self.misbehave(client, None, old)
        fail("end")

    def misbehave(self, client, block, old):
        """Returns that must not have any effect: repeated, late, foreign blocks."""
        kk = self.kk
        S = self.d.BlockStatus
        c = kk.ch.skewed(4, 0.4)
        if c == 0 or client.tcp_client.connected() is False:
            return
        kk.stat("fault.rogue_return")
        pool = list(old)
        if c == 3:
            pool = [b for b in self.rogue_blocks if b.task_id == client.task_id]
        if block is not None:
            pool = [b for b in pool if b.block_id != block.block_id]
        me = kk.me().proc.ordinal
        # only blocks that are not ours right now
        pool = [b for b in pool if self.owner_proc(b) != me]
        if not pool:
            return
        b = pool[kk.ch.choose(len(pool))].copy()
        b.status = (S.SUCCESS, S.FAILED)[kk.ch.choose(2)]
        self.ev("rogue", key_of(b.task_id, b.write_roi.offset), b.status.name)
        client.release_block(b)

    def owner_proc(self, b):
        c = self.cur.get(key_of(b.task_id, b.write_roi.offset))
        if c and c.get("proc") is not None and c.get("how") is None:
            return c["proc"].ordinal
        return None

    # -- user code, in the server ----------------------------------------------
    def linger(self):
        """User code that the server runs may take its time."""
        p = self.cfg.get("slow")
        if p and self.kk.ch.flip(p):
            self.kk.sleep(DUR[self.kk.ch.choose(4)])

    def check(self, task, block):
        kk = self.kk
        key, mb = self.ok_key(block, "check")
        kk.tick("check")
        self.linger()
        res = key in self.skip or (self.marks is not None and key in self.marks)
        if key in self.check_raise:
            kk.stat("fault.check_raises")
            self.ev("check", key, "raise")
            raise work.Boom("check " + key)
        self.ev("check", key, res)
        if res:
            if key in self.accepted:
                self.bad(("C01", "C10"), "checked-again", f"{key} is checked again after it was accepted")
            self.checked_true[key] = kk.now
            self.accept(key)
        return work.truth(self.cfg.get("check_values"), res)

    def accept(self, key):
        if key in self.accepted:
            self.bad("C01", "accepted-twice", f"{key} is counted as completed twice")
        self.accepted[key] = self.kk.now
        self.progress()

    def init(self, task, context):
        p = self.kk.me().proc
        self.linger()
        self.ev("init", task, p.ordinal)
        for q, o in self.forked:
            if self.proc_task(q) == task:
                self.bad("C18", "init-after-worker", f"start-up callback of {task} runs after a worker was started")
        srv = getattr(self, "server_addr", None)
        if context["task_id"] != task or (srv and (str(context["hostname"]), str(context["port"]))
                                          != (str(srv[0]), str(srv[1]))):
            self.bad("C18", "init-context", f"start-up callback of {task} got {context}")
        for i in range(self.tasks[task].get("ext", 0)):
            self.start_external(task, context, i)
        if self.tasks[task].get("init_err"):
            self.user_error(self.tasks[task]["init_err"], "init-" + task)

    def start_external(self, task, context, i):
        """A worker the user starts himself, elsewhere, with the address given to the start-up callback."""
        kk = self.kk
        d = self.d
        ctx = context.copy()
        ctx["worker_id"] = 1000 + len(self.ext)

        def main():
            try:
                client = d.Client(ctx)
                if client.task_id != task:
                    self.bad("C23", "client-identity", f"external client says task {client.task_id}, expected {task}")
                while True:
                    with client.acquire_block() as block:
                        if block is None:
                            break
                        p.tag["used"] = True
                        self.process(task, block)
            except K.SimKilled:
                raise
            except BaseException as e:
                self.ev("ext_raises", i, type(e).__name__)
            kk.exit_process(0, "return")
        p = kk.fork(main, f"ext{i}", kk.ch.skewed(3, 0.5) * 0.4, fresh=True)
        # started by other means than a fork: nothing is inherited
        for s in list(p.sockets.values()):
            s.drop(p)
        p.sockets.clear()
        p.tag["ext"] = ctx["worker_id"]
        p.tag["ext_task"] = task
        self.ext.append(p)
        kk.probe("external.started")

    def user_error(self, kind, msg):
        e = work.make_exc(kind, msg)
        self.user_errors.append((self.kk.now, msg))
        self.kk.stat("fault.callback_raises")
        self.ev("callback_err", msg)
        raise e

    # -- the scheduler's public methods ----------------------------------------
    def patch(self, d):
        """Records the calls of the scheduler's public methods."""
        self.d = d
        S = d.scheduler.Scheduler
        acq, rel, ini = S.acquire_block, S.release_block, S.__init__

        def acquire_block(s, task_id):
            w = work.W()
            if w.depth == 0 and w.marks is not None:
                w.marks_then = frozenset(w.marks)
            w.depth += 1
            try:
                b = acq(s, task_id)
            finally:
                w.depth -= 1
            if b is not None and w.depth == 0:
                w.on_handout(task_id, b)
            return b

        def release_block(s, block):
            w = work.W()
            if w.depth:
                return rel(s, block)
            w.on_release(block)
            w.depth += 1
            try:
                return rel(s, block)
            finally:
                w.depth -= 1

        def __init__(s, *a, **kw):
            ini(s, *a, **kw)
            work.W().learn_deps(s)

        S.acquire_block, S.release_block, S.__init__ = acquire_block, release_block, __init__

    def learn_deps(self, sched):
        """Dependencies within a task (which of two conflicting blocks goes first) are daisy's
        own choice; they are asked from its graph. Dependencies between tasks are the model's."""
        g = getattr(sched, "dependency_graph", None)
        if not hasattr(g, "upstream"):
            # (whatever it is called)
            g = next((x for x in vars(sched).values() if callable(getattr(x, "upstream", None))), g)
        d = self.d
        self.sched = sched
        for key, mb in self.model.blocks.items():
            ups = list(self.model.up_inter[key])
            if self.tasks[mb.task]["conflict"]:
                blk = self.make_block(d, mb)
                try:
                    for u in g.upstream(blk):
                        if u.task_id == mb.task:
                            k = key_of(u.task_id, u.write_roi.offset)
                            ups.append(k)
                            if k in self.model.blocks and not self.model.near(mb, self.model.blocks[k]):
                                self.bad("C05", "needless-dependency", f"{mb} depends on {self.model.blocks[k]}, which neither reads what the "
                                         "other writes nor writes what it reads")
                except Exception as e:
                    self.bad(("C01", "C02", "C03"), "upstream-raises", f"upstream({key}): {e!r}")
            self.deps[key] = ups

    def make_block(self, d, mb):
        t = self.tasks[mb.task]
        w = Box.os(*t["write"])
        r = Box.os(*t["read"])
        sh = [a - b for a, b in zip(mb.write.b, w.b)]
        total = d.Roi(*[tuple(x) for x in t["total"]])
        full_w = w.shift(sh)
        full_r = r.shift(sh)

        def roi(b):
            return d.Roi(b.b, [e - a for a, e in zip(b.b, b.e)])
        blk = d.Block(total, roi(full_r), roi(full_w), task_id=mb.task)
        blk.read_roi = roi(mb.read)
        blk.write_roi = roi(mb.write)
        return blk

    def on_handout(self, task_id, b):
        kk = self.kk
        key, mb = self.ok_key(b, "hand-out")
        self.progress()
        n = self.handouts[key] = self.handouts.get(key, 0) + 1
        self.ev("acq", key, n)
        kk.mix("acq", key)
        if b.task_id != task_id:
            self.bad(("C23", "C01"), "wrong-task-block", f"request for {task_id} got block {key}")
        if key in self.outstanding:
            self.bad(("C07", "C01"), "handed-out-twice", f"{key} is handed out while it is already assigned")
        if key in self.accepted:
            self.bad(("C01", "C07"), "handed-out-again", f"{key} is handed out after it was completed")
        if key in self.failed:
            self.bad("C04", "handed-out-after-failure", f"{key} is handed out after it failed for good")
        if key in self.marks_then and self.tasks[task_id].get("check") and key not in self.check_raise:
            self.bad("C10", "marked-handout", f"{key} is handed out although it was marked done before")
        lim = 1 + self.tasks[task_id]["retries"]
        if n > lim:
            self.bad("C04", "too-many-attempts", f"{key} gets attempt {n} of {lim}")
        for u in self.model.up_inter.get(key, ()):
            if u not in self.accepted:
                self.bad("C03", "upstream-handout", f"{key} is handed out before its upstream block {u} is complete")
        for u in self.deps.get(key, ()):
            if u in self.failed:
                self.bad("C05", "orphan-handout", f"{key} is handed out although {u}, which it depends on, failed")
        if mb is not None:
            for k2 in self.outstanding:
                m2 = self.model.blocks.get(k2)
                if m2 is not None and self.model.conflicts(mb, m2):
                    self.bad("C02", "conflict-handout", f"{key} ({mb}) is handed out while {k2} ({m2}) is assigned")
        self.outstanding[key] = kk.now
        self.cur[key] = {}
        self.rogue_blocks.append(b.copy())

    rogue_blocks = ()

    def on_release(self, b):
        kk = self.kk
        key, mb = self.ok_key(b, "release")
        st = b.status.name
        self.ev("rel", key, st)
        kk.mix("rel", key, st)
        self.progress()
        if key not in self.outstanding:
            self.bad("C07", "not-outstanding", f"a return of {key} ({st}) takes effect although it is not assigned")
        else:
            del self.outstanding[key]
        c = self.cur.get(key, {})
        if self.cfg["mode"] == "sched":
            pass
        elif st == "SUCCESS":
            if c.get("how") != "ok":
                self.bad(("C16", "C01", "C09"), "false-success",
                         f"{key} counts as succeeded but its processing ended with {c.get('how')!r}")
        elif c.get("how") == "ok" and c["proc"].alive and not c["proc"].tag.get("sigint"):
            self.bad(("C16", "C04", "C01"), "lost-success",
                     f"{key} counts as failed although its processing succeeded and its worker is alive")
        elif c.get("start") is not None and c.get("how") is None and c["proc"].alive:
            self.bad(("C07", "C04"), "reclaimed-in-use",
                     f"{key} is taken back while process {c['proc'].ordinal} is processing it")
        if st != "SUCCESS" and c.get("how") in (None, "ok", "?"):
            self.losses[b.task_id] = self.losses.get(b.task_id, 0) + 1
        if st == "SUCCESS":
            if key in self.failed:
                self.bad("C04", "success-after-failure", f"{key} succeeds after it failed for good")
            self.accept(key)
        else:
            n = self.fails[key] = self.fails.get(key, 0) + 1
            if n >= 1 + self.tasks[b.task_id]["retries"]:
                self.failed.add(key)
        self.cur[key] = dict(c, over=True)

    # -- truth ------------------------------------------------------------------
    def status(self):
        """Final status per block, from what actually happened to the attempted blocks."""
        out = {k: "fail" for k in self.failed}
        return self.model.expected(self.deps, out, set(self.checked_true))

    def truth(self, status=None):
        c = {t: dict(completed=0, skipped=0, failed=0, orphaned=0) for t in self.tasks}
        for k in self.accepted:
            if k in self.model.blocks:
                c[self.model.blocks[k].task]["completed"] += 1
        for k in self.checked_true:
            if k in self.model.blocks:
                c[self.model.blocks[k].task]["skipped"] += 1
        for k in self.failed:
            if k in self.model.blocks:
                c[self.model.blocks[k].task]["failed"] += 1
        for k, s in (status or self.status()).items():
            if s == "orphaned":
                c[self.model.blocks[k].task]["orphaned"] += 1
        return c

    def unfinished(self, task, status=None):
        status = status or self.status()
        return [b.key for b in self.model.of_task[task]
                if b.key not in self.accepted and b.key not in self.failed
                and status[b.key] != "orphaned"]

    def all_finished(self):
        st = self.status()
        return not any(self.unfinished(t, st) for t in self.tasks)


def summary(text):
    """The numbers of the printed execution summary (last one in text)."""
    i = text.rfind("Execution Summary")
    if i < 0:
        return None
    out = {}
    cur = None
    for line in text[i:].splitlines():
        m = re.match(r"\s*Task (.*):\s*$", line)
        if m:
            cur = out.setdefault(m.group(1), {})
            continue
        if cur is None:
            continue
        m = re.search(r"num blocks\s*:\s*(-?\d+)", line)
        if m:
            cur["total"] = int(m.group(1))
        m = re.search(r"completed\s*\S*\s*:\s*(-?\d+)\s*\(skipped (-?\d+)\)", line)
        if m:
            cur["completed"], cur["skipped"] = int(m.group(1)), int(m.group(2))
        m = re.search(r"^\s*failed\s*\S*\s*:\s*(-?\d+)", line)
        if m:
            cur["failed"] = int(m.group(1))
        m = re.search(r"^\s*orphaned\s*\S*\s*:\s*(-?\d+)", line)
        if m:
            cur["orphaned"] = int(m.group(1))
        if re.match(r"\s*block \d+ in worker ", line):
            cur["listed"] = cur.get("listed", 0) + 1
            m = re.match(r"\s*block (\d+) in worker (\S+) with exception (.*)", line)
            if m:
                cur.setdefault("entries", []).append(m.groups())
        m = re.match(r"\s*(\S.*)\.err / \.out\s*$", line)
        if m:
            cur.setdefault("logs", []).append(m.group(1))
        m = re.match(r"\s*\(and (\d+) more\)", line)
        if m:
            cur["listed"] = cur.get("listed", 0) + int(m.group(1))
        if "all blocks processed successfully" in line:
            cur["all"] = True
    return out
