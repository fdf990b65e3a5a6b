"""Scenario: the transport alone - a server process, client processes, several sending and receiving threads each,
over a network that splits, delays and breaks, with clients and the server being killed or disconnecting."""
import errno
import zlib

from . import kernel as K
from . import loader as L
from .world import SETTLE, Bad

SLACK = 15.0
DEADLINE = 400.0


def slack(kk, busy):
    """How much later than its timeout a call may return: time passes where somebody waits, is stalled, or computes."""
    return SLACK if kk.sched["stall_p"] else 0.3 + kk.busy - busy


class TW:
    """Ground truth of one transport run."""

    def __init__(self, kk, cfg, sink):
        self.kk, self.cfg, self.bads = kk, cfg, sink
        self.H = []
        self.sent = {}      # (dir, client, thread) -> [(size, crc, sent at)]
        self.got = {}       # (dir, client, thread) -> number received
        self.broken = {}    # client -> when its connection was allowed to break
        self.lost_at = None  # when the server went away (or began to)
        self.gone_at = None
        self.state = {}     # client -> where it is
        self.since = {}
        self.procs = {}
        self.streams = {}
        self.pushers_left = {}
        self.disc = {}      # client -> (when disconnect() returned, counts sent before)
        self.released = {}
        self.addr = None
        self.stop_server = False
        self.srv = None
        self.quiet_from = 0.0
        self.last_msg = 0.0

    def bad(self, tags, oracle, msg):
        if len(self.bads) < 50:
            self.bads.append(Bad(tags, oracle, msg, self.kk.now))

    def ev(self, *a):
        self.H.append((round(self.kk.now, 6),) + a)
        self.kk.log(*a)

    def at(self, c, where):
        self.state[c] = where
        self.since[c] = self.kk.now

    def ok_broken(self, c):
        return self.lost_at is not None or c in self.broken


def payload(kk, cfg, d, c, th, n, sizes):
    size = sizes[kk.ch.choose(len(sizes))]
    blob = bytes(((n * 7 + j * 31 + len(th)) & 0xFF) for j in range(min(size, 97)))
    blob = (blob * (size // max(1, len(blob)) + 1))[:size]
    return ["m", c, th, n, blob]


def note_sent(w, dr, p):
    l = w.sent.setdefault((dr, p[1], p[2]), [])
    l.append((len(p[4]), zlib.crc32(p[4])))
    w.ev("send", dr, p[1], p[2], p[3])


def note_got(w, dr, p, strict=True):
    w.last_msg = w.kk.now
    if not (isinstance(p, list) and len(p) == 5 and p[0] == "m"):
        w.bad("C13", "corrupt", f"{dr}: received {str(p)[:80]}, which nobody sent")
        return
    key = (dr, p[1], p[2])
    w.ev("recv", dr, p[1], p[2], p[3])
    w.kk.mix(dr, p[1], p[2], p[3])
    w.kk.probe("events")
    l = w.sent.get(key, ())
    n = p[3]
    if n >= len(l):
        w.bad("C13", "corrupt", f"{key}: message {n} received, but only {len(l)} were sent")
        return
    if (len(p[4]), zlib.crc32(p[4])) != l[n]:
        w.bad("C13", "corrupt", f"{key}: message {n} arrived with different content ({len(p[4])} bytes, sent {l[n][0]})")
    if not strict:
        s = w.got.setdefault(key + ("set",), set())
        if n in s:
            w.bad("C13", "duplicate", f"{key}: message {n} received twice")
        s.add(n)
        w.got[key] = len(s)
        return
    want = w.got.get(key, 0)
    if n != want:
        w.bad("C13", "duplicate" if n < want else "order", f"{key}: message {n} received, expected {want}")
    w.got[key] = max(want, n + 1)


def another_loop(kk, cfg, d, who):
    """What daisy.run_blockwise does before it creates its server: other users of the process's loop keep theirs."""
    if who in cfg.get("other_loop", ()):
        d.tcp.IOLooper.clear()
        kk.me().proc.tag["other"] = d.tcp.TCPServer(host="127.0.0.1")


# ---------------------------------------------------------------- the server process
def server_main(kk, cfg, d, w):
    sc = cfg["server"]
    me = kk.me().proc
    T = d.tcp
    srv = w.srv = T.TCPServer()
    another_loop(kk, cfg, d, "server")
    w.addr = srv.address
    w.ev("listening")
    nrep = {}

    def push(c, th, count, gap):
        def go():
            for n in range(count):
                if gap:
                    kk.sleep(gap * kk.ch.choose(3))
                p = payload(kk, cfg, d, c, th, n, cfg["sizes"])
                m = T.TCPMessage(p)
                note_sent(w, "down", p)
                try:
                    w.streams[c].send_message(m)
                except T.StreamClosedError:
                    w.sent[("down", c, th)].pop()
                    if not w.ok_broken(c) and c not in w.disc and w.state.get(c) != "disconnecting":
                        w.bad("C13", "send-refused", f"the server cannot send to client {c}, whose connection is fine")
                    break
                if cfg.get("reuse"):
                    # the sender goes on using its object
                    p[4] = b"changed"
            w.pushers_left[c] -= 1
        kk.spawn_thread(me, go, f"push{c}{th}", daemon=False)

    def reply(m, c):
        n = nrep.get(c, 0)
        nrep[c] = n + 1
        p = payload(kk, cfg, d, c, "echo", n, cfg["sizes"])
        note_sent(w, "down", p)
        try:
            m.stream.send_message(T.TCPMessage(p))
        except T.StreamClosedError:
            w.sent[("down", c, "echo")].pop()

    ended = []
    if cfg.get("late"):
        kk.sleep(cfg["late"])
    while not w.stop_server:
        t0, b0 = kk.now, kk.busy
        tmo = sc["timeouts"][kk.ch.choose(len(sc["timeouts"]))]
        try:
            m = srv.get_message(timeout=tmo)
        except T.StreamClosedError:
            kk.probe("server.closed-report")
            m = None
        if tmo is not None and kk.now - t0 > tmo + slack(kk, b0):
            w.bad("C14", "timeout", f"get_message({tmo}) of the server took {kk.now - t0:.1f} s")
        for x in list(ended):
            if w.pushers_left.get(x[0], 0) <= 0:
                ended.remove(x)
                c = x[0]
                p = ["m", c, "bye", 0, b""]
                note_sent(w, "down", p)
                try:
                    x[1].send_message(T.TCPMessage(p))
                except T.StreamClosedError:
                    pass
        if m is None:
            continue
        if hasattr(m, "task_id") or hasattr(m, "block"):
            try:
                serve_daisy(kk, cfg, d, w, m)
            except T.StreamClosedError:
                pass
            continue
        p = m.payload
        note_got(w, "up", p)
        if not isinstance(p, list):
            continue
        c, th = p[1], p[2]
        if m.stream is None:
            w.bad("C13", "no-stream", f"a message of client {c} carries no stream to answer on")
            continue
        if c not in w.streams:
            w.streams[c] = m.stream
            pl = cfg["clients"][c].get("push", ())
            w.pushers_left[c] = len(pl)
            for i, (count, gap) in enumerate(pl):
                push(c, f"p{i}", count, gap)
        elif w.streams[c] is not m.stream and w.streams[c] != m.stream:
            w.bad("C13", "wrong-stream", f"messages of client {c} arrive on different streams")
        if th == "end":
            ended.append((c, m.stream))
        elif cfg["clients"][c].get("echo") and kk.ch.flip(0.5):
            reply(m, c)
        if sc.get("slow"):
            kk.sleep(0.05 * kk.ch.choose(3))


def serve_daisy(kk, cfg, d, w, m):
    """A minimal block server for daisy's own Client."""
    M = d.messages
    if isinstance(m, M.AcquireBlock):
        c = int(m.task_id[1:])
        cc = cfg["clients"][c]
        k = w.got.get(("acq", c), 0)
        w.got[("acq", c)] = k + 1
        w.ev("acquire", c, k)
        kk.mix("acquire", c, k)
        w.streams[c] = m.stream
        if k < cc["blocks"]:
            roi = d.Roi((k * 10,), (10,))
            m.stream.send_message(M.SendBlock(d.Block(roi, roi, roi, task_id=m.task_id)))
        elif cc["then"] == "shutdown":
            m.stream.send_message(M.RequestShutdown())
        # else: the request is delayed
    elif isinstance(m, M.ReleaseBlock):
        c = int(m.block.task_id[1:])
        k = w.got.get(("rel", c), 0)
        w.got[("rel", c)] = k + 1
        w.ev("release", c, m.block.status.name)
        if m.block.write_roi.offset[0] != k * 10 or m.block.status.name != "SUCCESS":
            w.bad("C13", "order", f"client {c} returns {m.block}, expected its block {k}")


# ---------------------------------------------------------------- client processes
def conn_error(d, e):
    from tornado.iostream import StreamClosedError as TS
    return isinstance(e, (d.tcp.StreamClosedError, d.tcp.exceptions.NotConnected, OSError, TS))


def client_main(kk, cfg, d, w, c):
    cc = cfg["clients"][c]
    me = kk.me().proc
    w.at(c, "connecting")
    t0 = kk.now
    try:
        cl = d.tcp.TCPClient(*w.addr)
        another_loop(kk, cfg, d, "client")
    except Exception as e:
        if not w.ok_broken(c):
            w.bad(("C13", "C14"), "connect", f"client {c} cannot connect to a running server: {e!r}")
        elif not conn_error(d, e):
            w.bad("C14", "wrong-error", f"connecting to a lost server raises {e!r}")
        w.at(c, "finished")
        return
    left = [len(cc["send"])]

    def sender(th, count, gap):
        def go():
            for n in range(count):
                if gap:
                    kk.sleep(gap * kk.ch.choose(3))
                if not send(th, n):
                    break
            left[0] -= 1
        kk.spawn_thread(me, go, f"send{c}{th}", daemon=False)

    def send(th, n, size=None):
        p = payload(kk, cfg, d, c, th, n, cfg["sizes"] if size is None else (size,))
        note_sent(w, "up", p)
        try:
            cl.send_message(d.tcp.TCPMessage(p))
        except Exception as e:
            w.sent[("up", c, th)].pop()
            if not w.ok_broken(c):
                w.bad("C13", "send-refused", f"client {c} cannot send: {e!r}")
            elif not conn_error(d, e):
                w.bad("C14", "wrong-error", f"sending to a lost server raises {e!r}")
            return False
        if cfg.get("reuse"):
            p[4] = b"changed"
        return True

    fin = dict(bye=False, readers=cc["readers"], closing=False)

    def reader(i):
        def go():
            one = cc["readers"] == 1
            try:
                if cc.get("late"):
                    kk.sleep(cc["late"])
                while not fin["bye"] or (cc["end"] == "hang" and i == 0):
                    tmo = cc["timeouts"][kk.ch.choose(len(cc["timeouts"]))]
                    if not one and tmo is None:
                        tmo = 0.5
                    if fin["bye"]:
                        tmo = None if cc.get("hang_forever") else 0.5
                        w.at(c, "hanging")
                    t0, b0 = kk.now, kk.busy
                    try:
                        m = cl.get_message(timeout=tmo)
                    except Exception as e:
                        if not w.ok_broken(c) and not fin["closing"]:
                            w.bad("C13", "receive-refused", f"client {c} cannot receive: {e!r}")
                        elif not conn_error(d, e):
                            w.bad("C14", "wrong-error", f"receiving from a lost server raises {e!r}")
                        w.ev("released", c)
                        t1 = w.released_from(c, t0)
                        if kk.now - t1 > SETTLE and not fin["closing"]:
                            w.bad("C14", "slow-release", f"client {c} was released only {kk.now - t1:.0f} s after the server was lost")
                        return
                    if tmo is not None and kk.now - t0 > tmo + slack(kk, b0):
                        w.bad("C14", "timeout", f"get_message({tmo}) of client {c} took {kk.now - t0:.1f} s")
                    if m is None:
                        if tmo is None:
                            w.bad("C14", "empty", f"get_message() without a timeout returned nothing to client {c}")
                            return
                        if w.ok_broken(c) and kk.now - w.released_from(c, 0.0) > SETTLE:
                            w.bad("C14", "not-noticed", f"client {c} still waits {kk.now - w.released_from(c, 0.0):.0f} s after the server was lost")
                            return
                        if tmo < 0.05:
                            kk.sleep(0.05)
                        continue
                    p = m.payload
                    note_got(w, "down", p, strict=one)
                    if isinstance(p, list) and len(p) == 5 and p[2] == "bye":
                        if one:
                            for (dr, c2, th), l in w.sent.items():
                                if dr == "down" and c2 == c and w.got.get((dr, c2, th), 0) < len(l):
                                    w.bad("C13", "order", f"client {c}: the last message arrives before {len(l) - w.got.get((dr, c2, th), 0)} messages of {th} sent before it")
                        fin["bye"] = True
            finally:
                if not kk.dead:
                    fin["readers"] -= 1
        kk.spawn_thread(me, go, f"read{c}.{i}", daemon=False)

    w.at(c, "talking")
    send("hello", 0, 0)
    for i, (count, gap) in enumerate(cc["send"]):
        sender(f"s{i}", count, gap)
    for i in range(cc["readers"]):
        reader(i)
    while left[0] > 0:
        kk.sleep(0.05)
    if cc["end"] == "busy":
        pass
    else:
        if send("end", 0, 0):
            w.at(c, "waiting for the last message")
            while not fin["bye"] and not w.ok_broken(c):
                kk.sleep(0.05)
    if cc["end"] == "hang":
        # until the server goes away
        w.at(c, "hanging")
        while fin["readers"] > 0:
            kk.sleep(0.1)
        kk.sleep(SLACK)  # it was told that the connection is lost; let the rest of the client notice
        refused(kk, cfg, d, w, c, cl)
    elif cc["end"] in ("disconnect", "busy"):
        fin["closing"] = True
        before = {k: len(l) for k, l in w.sent.items() if k[0] == "up" and k[1] == c}
        w.at(c, "disconnecting")
        t0 = kk.now
        settle = 0
        try:
            cl.disconnect()
        except Exception as e:
            if not w.ok_broken(c):
                w.bad("C14", "disconnect-raises", f"disconnecting client {c} raises {e!r}")
            elif not conn_error(d, e):
                w.bad("C14", "wrong-error", f"disconnecting from a lost server raises {e!r}")
            settle = SLACK  # it was told that the connection is lost; let the rest of the client notice
        t1 = w.released_from(c, t0)
        if w.ok_broken(c) and kk.now - t1 > SETTLE:
            w.bad("C14", "slow-release", f"disconnecting client {c} took {kk.now - t1:.0f} s after the server was lost")
        w.ev("disconnected", c)
        kk.mix("disconnected", c)
        if not w.ok_broken(c):
            w.disc[c] = before
        if cc.get("kill"):
            kk.stat("fault.kill_after_disconnect")
            w.at(c, "finished")
            kk.kill_process(me, -9, "kill")
            kk.park(kk.me())
        if settle:
            kk.sleep(settle)
        refused(kk, cfg, d, w, c, cl)
        t0 = kk.now
        cl.disconnect()
        if kk.now - t0 > SLACK:
            w.bad("C14", "disconnect-hangs", f"a second disconnect of client {c} took {kk.now - t0:.1f} s")
        while fin["readers"] > 0 and kk.now - t0 < 90:
            kk.sleep(0.1)
        if fin["readers"] > 0:
            w.bad("C14", "receive-hangs", f"a thread of client {c} still waits for a message {kk.now - t0:.0f} s after disconnect()")
    else:  # leave
        w.broken.setdefault(c, kk.now)
    w.at(c, "finished")


def refused(kk, cfg, d, w, c, cl):
    """After a disconnect nothing may go in or out."""
    for what, f in (("send_message", lambda: cl.send_message(d.tcp.TCPMessage(["m", c, "late", 0, b""]))),
                    ("get_message", lambda: cl.get_message(timeout=0.5)),
                    ("get_message()", lambda: cl.get_message())):
        t0 = kk.now
        w.at(c, "after disconnect: " + what)
        for attempt in range(2):
            try:
                f()
            except Exception as e:
                if not conn_error(d, e):
                    w.bad("C14", "wrong-error", f"{what} after a disconnect raises {e!r}")
            else:
                w.bad("C14", "not-refused", f"{what} of client {c} is not refused after its disconnect")
            if kk.now - t0 > SLACK:
                w.bad("C14", "slow-refusal", f"{what} after a disconnect took {kk.now - t0:.1f} s")
    if cl.connected():
        w.bad("C14", "still-connected", f"client {c} says it is connected after its disconnect")


def daisy_client_main(kk, cfg, d, w, c):
    cc = cfg["clients"][c]
    w.at(c, "connecting")
    try:
        cl = d.Client(d.Context(hostname=w.addr[0], port=w.addr[1], task_id=f"d{c}", worker_id=c))
        another_loop(kk, cfg, d, "client")
    except Exception as e:
        if not w.ok_broken(c):
            w.bad(("C13", "C14"), "connect", f"client {c} cannot connect to a running server: {e!r}")
        elif not conn_error(d, e):
            w.bad("C14", "wrong-error", f"connecting to a lost server raises {e!r}")
        w.at(c, "finished")
        return
    n = 0
    while True:
        w.at(c, "hanging" if n >= cc["blocks"] and cc["then"] == "delay" else "waiting for a block")
        t0 = kk.now
        held = None
        if cc.get("pause"):
            kk.sleep(cc["pause"] * kk.ch.choose(3))
        t0 = kk.now
        try:
            with cl.acquire_block() as block:
                t1 = w.released_from(c, t0)
                if kk.now - t1 > SETTLE and block is None:
                    w.bad("C14", "slow-release", f"client {c} got no block only {kk.now - t1:.0f} s after the server was lost")
                if block is None:
                    w.ev("no block", c)
                    if not w.ok_broken(c) and not (n >= cc["blocks"] and cc["then"] == "shutdown"):
                        w.bad("C14", "no-block", f"client {c} gets no block although the server is there")
                    break
                held = block
                w.ev("got block", c, n)
                kk.mix("got block", c, n)
                if block.write_roi.offset[0] != n * 10 or block.task_id != f"d{c}":
                    w.bad("C13", "order", f"client {c} gets {block}, expected its block {n}")
                w.at(c, "processing")
                kk.sleep(0.1 * kk.ch.choose(4))
                n += 1
        except K.SimKilled:
            raise
        except Exception as e:
            if not w.ok_broken(c):
                w.bad(("C13", "C14"), "client-raises", f"client {c} raises {e!r} although the server is there")
            elif not conn_error(d, e):
                w.bad("C14", "wrong-error", f"a lost server makes the client raise {e!r}")
            elif held is None:
                w.bad("C14", "acquire-raises", f"waiting for a block of a lost server raises {e!r} instead of yielding no block")
            w.ev("raised", c)
            break
    w.at(c, "finished")


def run(kk, cfg, bads):
    w = TW(kk, cfg, bads)
    kk.world = w

    def released_from(c, t0):
        """From when on the client had to notice: its call, the loss, and the end of partitions."""
        ts = [t0]
        if w.lost_at is not None:
            ts.append(w.lost_at)
        if c in w.broken:
            ts.append(w.broken[c])
        if c in w.broken and (w.lost_at or 0.0) > w.broken[c]:
            ts = [t0, w.broken[c]]
        elif w.lost_at is not None:
            ts.append(w.gone_at or kk.now)
        p = w.procs.get(c)
        until = kk.net.partitions.get(p.pid, 0.0) if p is not None else 0.0
        return max(max(ts), until)
    w.released_from = released_from

    def lose_server(how):
        if w.lost_at is not None:
            return
        w.lost_at = kk.now
        w.ev("server lost", how)
        kk.stat("fault.server_" + how)
        if how == "kill":
            w.gone_at = kk.now
            kk.kill_process(w.sproc, -9, "kill")
        else:
            def bye():
                w.srv.disconnect()
                kk.sleep(2.0)
                w.gone_at = kk.now
                kk.exit_process(0)
            kk.spawn_thread(w.sproc, bye, "disconnect", daemon=False)

    def fault(f):
        k = f["kind"]
        if kk.dead or w.finishing:
            return
        if k == "lose":
            lose_server(f["how"])
            return
        c = f["client"]
        p = w.procs.get(c)
        if p is None or not p.alive or w.state.get(c) == "finished":
            return
        if k == "abort":
            for cn in kk.net.conns:
                if not cn.broken and any(p.pid in e.owners for e in cn.ends):
                    w.broken.setdefault(c, kk.now)
                    w.ev("abort", c)
                    kk.stat("fault.reset")
                    cn.ends[0].abort(getattr(errno, f.get("errno", "ECONNRESET")))
        elif k == "kill":
            w.broken.setdefault(c, kk.now)
            w.ev("kill", c)
            kk.stat("fault.kill_client")
            w.at(c, "finished")
            kk.kill_process(p, -9, "kill")
        elif k == "partition":
            kk.net.partitions[p.pid] = kk.now + f["dur"]
            kk.stat("fault.partition")
            w.quiet_from = max(w.quiet_from, kk.now + f["dur"])

    def main():
        d = L.load()
        w.finishing = False

        def srv():
            try:
                server_main(kk, cfg, d, w)
            except K.SimKilled:
                raise
            except Exception as e:
                import traceback
                w.bad(("C13", "C14"), "server-raises", f"the server raises {type(e).__name__}: {e} "
                      + "".join(traceback.format_exception(e)[-2:])[-300:])
            kk.exit_process(0)
        w.sproc = kk.fork(srv, "server")
        t0 = kk.now
        while w.addr is None:
            kk.sleep(0.05)
            if kk.now - t0 > 100:
                return
        for c, cc in enumerate(cfg["clients"]):
            def go(c=c, cc=cc):
                (daisy_client_main if cc["kind"] == "daisy" else client_main)(kk, cfg, d, w, c)
                kk.exit_process(0)
            w.at(c, "new")
            w.procs[c] = kk.fork(go, f"client{c}", delay=cc.get("delay", 0.0))
        for f in cfg.get("faults", ()):
            kk.at(f["at"], lambda f=f: fault(f))
        start = kk.now

        def settled():
            return all(w.state[c] in ("finished", "hanging") for c in w.procs)

        while not settled() and kk.now - max(w.quiet_from, start, w.lost_at or 0.0, w.last_msg) < DEADLINE:
            kk.sleep(0.5)
        for c, st in w.state.items():
            if st not in ("finished", "hanging"):
                tag = {"connecting": ("C14",), "disconnecting": ("C14",)}.get(
                    st, ("C14",) if st.startswith("after") or w.ok_broken(c) else ("C13",))
                w.bad(tag, "stuck", f"client {c} is stuck: {st} for {kk.now - w.since[c]:.0f} s (server lost: {w.lost_at})")
        # everything of connections that did not break must have arrived
        if w.lost_at is None:
            kk.sleep(20.0)
            while w.lost_at is None and kk.now - w.last_msg < 20.0:
                # a slow reader
                kk.sleep(5.0)
        if w.lost_at is None:
            for (dr, c, th), l in sorted(w.sent.items()):
                n = w.got.get((dr, c, th), 0)
                if dr == "up" and c in w.disc:
                    need = w.disc[c].get((dr, c, th), 0)
                    if n < need:
                        w.bad(("C14", "C13"), "lost-at-disconnect", f"client {c} disconnected gracefully, but {need - n} of {need} "
                              f"messages it sent before ({th}) did not reach the server")
                elif c not in w.broken and c not in w.disc and n < len(l) and dr == "up":
                    w.bad("C13", "lost-message", f"{len(l) - n} of {len(l)} messages {dr} of client {c} ({th}) did not arrive")
        w.finishing = True
        lose_server(cfg.get("final", "kill"))
        t0 = kk.now
        lim = max(t0, max(list(kk.net.partitions.values()) + [0.0]))
        while any(w.state[c] != "finished" for c in w.procs) and kk.now - lim < SETTLE + 60:
            kk.sleep(0.5)
        for c, st in w.state.items():
            if st != "finished":
                w.bad("C14", "not-released", f"client {c} ({cfg['clients'][c]['kind']}) is still waiting ({st}) "
                      f"{kk.now - t0:.0f} s after the server was lost ({cfg.get('final', 'kill')})")
        if kk.unraisable and w.cfg.get("show"):
            print(kk.unraisable)
    kk.run(main)
    return [w]
