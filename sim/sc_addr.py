"""Scenario: creating a server while the machine refuses ports or has network interfaces that do not work,
followed by a client that tries to use the address."""
import asyncio

from . import kernel as K
from . import loader as L
from .world import SETTLE, Bad

LO = "127.0.0.1"


class AddrWorld:
    def __init__(self, kk, cfg, bads):
        self.kk, self.cfg, self.bads = kk, cfg, bads
        self.H = []

    def ev(self, *a):
        self.H.append((round(self.kk.now, 6),) + a)
        self.kk.log(*a)
        self.kk.mix(*a)

    def bad(self, oracle, msg):
        self.bads.append(Bad(("C22",), oracle, msg, self.kk.now))


def run(kk, cfg, bads):
    w = AddrWorld(kk, cfg, bads)
    w.done = False

    def main():
        d = L.load()
        kk.world = w
        drive(kk, cfg, d, w)
        w.done = True
    why = kk.run(main)
    if not w.done and why != "wall":
        w.bad("hang", f"creating a server does not end ({why}, now {kk.now:.0f}); {w.H[-4:]}")
    return [w]


def drive(kk, cfg, d, w):
    T = d.tcp
    root = kk.me().proc
    net = cfg["net"]
    kw = {}
    if cfg["host"]:
        kw["host"] = cfg["host"]
    if cfg["tries"] is not None:
        kw["max_port_tries"] = cfg["tries"]
    limit = cfg["tries"] if cfg["tries"] is not None else 1000
    fails = cfg["port_fails"]
    # servers that exist already, created in this thread or in others
    others = []
    planned, kk.net.cfg["fail"] = kk.net.cfg["fail"], {}
    for place in cfg.get("others", ()):
        x, got = create(kk, root, place, lambda: T.TCPServer(host=LO))
        if x is not None:
            w.bad("gave-up", f"creating a server ({place}) raises {type(x).__name__}: {x}")
            return
        others.append((place, got, got.address))
    kk.net.cfg["fail"] = planned
    known = {a[1] for _, _, a in others}
    srv = None
    addr = None

    def one():
        if cfg["whole"]:
            server = d.Server(host=cfg["host"]) if cfg["host"] else d.Server()
            return server.tcp_server, (server.hostname, server.port)
        s = T.TCPServer(**kw)
        return s, s.address
    t0 = kk.now
    if cfg.get("race"):
        # a second one at the same time
        def second():
            s = T.TCPServer(host=LO)
            others.append(("race", s, s.address))
        rival = in_thread(kk, root, second)
    e, got = create(kk, root, cfg.get("where", "main"), one)
    if got is not None:
        srv, addr = got
    if cfg.get("race"):
        x = rival()[0]
        if x is not None:
            w.bad("gave-up", f"creating two servers at the same time raises {type(x).__name__}: {x}")
            return
        known |= {a[1] for _, _, a in others}
    w.ev("created", repr(e)[:80] if e else tuple(addr))
    took = kk.now - t0
    if took > SETTLE:
        w.bad("slow", f"creating a server took {took:.0f} s")
    left = [s for s in root.sockets.values() if not s.closed_
            and (s.type == 2 or s.peer is not None or (s.listening and s.laddr[1] not in known | ({addr[1]} if addr else set())))]
    if left:
        w.bad("left-open", f"{len(left)} sockets other than the server's own are open after its creation: "
              f"{[(s.laddr, s.raddr, s.listening) for s in left][:3]}")
    if fails >= limit:
        if e is None:
            w.bad("limit", f"a port was found in attempt {limit + 1} or later, the limit is {limit}")
        elif not isinstance(e, T.NoFreePort if hasattr(T, "NoFreePort") else d.tcp.exceptions.NoFreePort):
            w.bad("wrong-error", f"no port was free in {limit} attempts, reported as {type(e).__name__}: {e}")
        return
    if e is not None:
        w.bad("gave-up", f"after {fails} failing attempts of at most {limit}, creating a server raises {type(e).__name__}: {e}")
        return
    host, port = addr
    if not isinstance(port, int) or port not in kk.net.listeners:
        w.bad("not-listening", f"nobody listens on {addr}")
        return
    if cfg["host"]:
        if host != cfg["host"]:
            w.bad("host", f"the given host {cfg['host']} is not used: {addr}")
        if cfg["host"] in cfg["broken"] or cfg["host"] not in net["hosts"]:
            return
    else:
        route = net["route"]
        if route is None or route in cfg["broken"]:
            if host != LO:
                w.bad("unusable", f"the address is {addr} although {route} does not work")
                return
        elif cfg["healthy"]:
            if host != route:
                w.bad("not-detected", f"the address is {addr} although {route} works")
        elif host not in (route, LO):
            w.bad("strange", f"the address is {addr}, expected {route} or {LO}")
    # somebody else uses the address
    kk.net.cfg["fail"] = {}
    use(kk, T, w, srv, addr, f"created in {cfg.get('where', 'main')} after {[o[0] for o in others]}")
    for place, o, a in others:
        use(kk, T, w, o, a, f"created before in {place}")
    kk.probe("addr.used")


def create(kk, root, place, fn):
    """(exception, result) of fn, called in this thread, in another one or by a coroutine of this thread."""
    if place == "thread":
        return in_thread(kk, root, fn)()
    try:
        if place == "async":
            async def co():
                return fn()
            loop = asyncio.new_event_loop()
            try:
                return None, loop.run_until_complete(co())
            finally:
                loop.close()
        return None, fn()
    except K.SimKilled:
        raise
    except Exception as x:
        return x, None


def in_thread(kk, root, fn):
    out = []

    def body():
        out.append(create(kk, root, "main", fn))
    kk.spawn_thread(root, body, "creator", daemon=False)

    def join():
        while not out:
            kk.sleep(0.01)
        return out[0]
    return join


def use(kk, T, w, srv, addr, what):
    state = dict(how=None)

    def client():
        try:
            c = T.TCPClient(*addr)
            c.send_message(T.TCPMessage("hello"))
            state["how"] = "sent"
            m = c.get_message(timeout=30)
            state["how"] = "answered" if m is not None and m.payload == "hi" else f"got {m!r}"
            c.disconnect()
        except K.SimKilled:
            raise
        except Exception as x:
            state["how"] = f"{type(x).__name__}: {x}"
        kk.exit_process(0)
    p = kk.fork(client, "client", 0.01)
    end = kk.now + 40
    while kk.now < end and p.alive:
        try:
            m = srv.get_message(timeout=0.5)
        except T.StreamClosedError:
            break
        if m is not None:
            m.stream.send_message(T.TCPMessage("hi"))
    if state["how"] != "answered":
        w.bad("unusable", f"a client cannot use the address {addr} of a server {what}: {state['how']}")
    srv.disconnect()
