"""Simulated sockets and an asyncio event loop on top of the kernel."""
import asyncio
import asyncio.base_events
import errno
import os as _os
import socket as _rs
import types

from . import kernel as K

MSS = 1460


def k():
    c = K.CURRENT
    if c is None:
        raise K.SimKilled()
    return c


def err(e, cls=OSError):
    return cls(e, _os.strerror(e))


class Network:
    """State of the simulated network of one run."""

    def __init__(self, kernel, cfg=None):
        self.k = kernel
        self.cfg = dict(
            lat=0, lat_p=0.3, short_p=0.0, seg=0, sndbuf=1 << 20, fail={},
            hosts=("127.0.0.1", "10.0.0.5"), route="10.0.0.5", drop_p=0.0,
        )
        self.cfg.update(cfg or {})
        self.listeners = {}
        self.next_port = 40000
        self.conns = []
        self.fail_counts = {}
        self.partitions = {}  # pid -> until

    LAT = (0.0002, 0.001, 0.005, 0.02, 0.08, 0.12, 0.4, 1.5)

    def latency(self):
        n = self.cfg["lat"]
        if n <= 0:
            return 0.0002
        i = self.k.ch.skewed(min(n, len(self.LAT)), 1 - self.cfg["lat_p"])
        if i:
            self.k.stat("fault.delay")
        return self.LAT[i]

    def fails(self, what):
        """Injected failures of socket calls: cfg['fail'][what] = list of errnos (0: succeed)."""
        plan = self.cfg["fail"].get(what)
        if not plan:
            return
        i = self.fail_counts.get(what, 0)
        self.fail_counts[what] = i + 1
        e = plan[i] if i < len(plan) else plan[-1] if self.cfg["fail"].get(what + "+") else 0
        if e:
            self.k.stat("fault.socket." + what)
            raise OSError(e, _os.strerror(e))

    def iface(self, host, what):
        """Network interfaces that do not work: cfg['iface'][host] = {call: errno}."""
        e = self.cfg["iface"].get(host, {}).get(what) if "iface" in self.cfg else None
        if e:
            self.k.stat("fault.iface." + what)
            raise OSError(e, _os.strerror(e))


def net():
    return k().net


class Conn:
    """One established connection: two endpoints."""

    def __init__(self, a, b):
        self.ends = (a, b)
        self.broken = False


class SimSocket:
    """A TCP (or dummy UDP) socket. Endpoint and handle in one; inherited by forks."""

    def __init__(self, family=_rs.AF_INET, type=_rs.SOCK_STREAM, proto=0, fileno=None):
        kk = k()
        kk.tick("socket")
        net().fails("socket")
        self._init(kk, kk.me().proc, family, type)

    def _init(self, kk, proc, family, type):
        self.k = kk
        self.net = kk.net
        self.family = family
        self.type = type
        self.proto = 0
        self.fd = kk.next_fd()
        kk.fds[self.fd] = self
        self.owners = {proc.pid: proc}
        self.creator = proc
        proc.sockets[self.fd] = self
        self.timeout = None
        self.laddr = None
        self.raddr = None
        self.listening = False
        self.backlog = []
        self.peer = None
        self.conn = None
        self.connecting = False
        self.so_error = 0
        self.rbuf = bytearray()
        self.eof = False  # FIN arrived
        self.reset = 0  # errno once the connection broke
        self.inflight = 0
        self.last_arrival = 0.0
        self.closed_ = False
        self.sent_after_close = False
        self.peer_gone = False
        self.loops = {}
        self.waiters = []
        self.opts = {}
        self.bytes_in = 0
        self.bytes_out = 0
        self.born = kk.now

    # -- life time -----------------------------------------------------------
    def inherit(self, proc):
        self.owners[proc.pid] = proc
        proc.sockets[self.fd] = self

    def drop(self, proc):
        self.owners.pop(proc.pid, None)
        proc.sockets.pop(self.fd, None)
        if not self.owners:
            self._really_close()

    def close(self):
        if self.k.dead:
            return
        t = self.k.current_thread()
        if t is None or self.closed_:
            return
        p = t.proc
        if p.pid in self.owners:
            self.drop(p)

    def _really_close(self):
        if self.closed_:
            return
        self.closed_ = True
        self.k.fds.pop(self.fd, None)
        if self.listening:
            self.net.listeners.pop(self.laddr[1], None)
            for s in self.backlog:
                s.abort(errno.ECONNRESET)
                for p in list(s.owners.values()):
                    p.sockets.pop(s.fd, None)
                s.owners = {}
                s.closed_ = True
                self.k.fds.pop(s.fd, None)
            self.backlog = []
        if self.peer is not None and not self.reset:
            if self.rbuf:
                # closing with unread data resets the connection
                self.k.probe("net.rst_on_close")
                self._send_ctl("rst")
            else:
                self._send_ctl("fin")

    def abort(self, e):
        """Breaks the connection for both ends (a reset seen by both)."""
        if self.conn is None or self.conn.broken:
            return
        self.conn.broken = True
        for s in self.conn.ends:
            if not s.closed_:
                s.reset = e
                s.notify()

    def detach(self):
        return self.fd

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def fileno(self):
        return -1 if self.closed_ else self.fd

    # -- options ---------------------------------------------------------------
    def setblocking(self, flag):
        self.timeout = None if flag else 0.0

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def getblocking(self):
        return self.timeout != 0.0

    def setsockopt(self, *a):
        self.opts[a[:2]] = a[2:]

    def set_inheritable(self, f):
        pass

    def getsockopt(self, level, opt, *a):
        if level == _rs.SOL_SOCKET and opt == _rs.SO_ERROR:
            e = self.so_error or self.reset
            self.so_error = 0
            return e
        v = self.opts.get((level, opt))
        return v[0] if v else 0

    def getsockname(self):
        return self.laddr or ("0.0.0.0", 0)

    def getpeername(self):
        if self.peer is None:
            raise err(errno.ENOTCONN)
        return self.raddr

    def shutdown(self, how):
        if self.peer is not None and how in (_rs.SHUT_WR, _rs.SHUT_RDWR):
            self._send_ctl("fin")

    # -- listening -------------------------------------------------------------
    def bind(self, addr):
        self.k.tick("bind")
        self.net.fails("bind")
        host, port = addr[0], addr[1]
        if port == 0:
            self.net.next_port += 1
            port = self.net.next_port
        elif port in self.net.listeners:
            raise err(errno.EADDRINUSE)
        if host not in ("0.0.0.0", "") and host not in self.net.cfg["hosts"]:
            raise err(errno.EADDRNOTAVAIL)
        self.net.iface(host, "bind")
        self.laddr = (host, port)

    def listen(self, backlog=128):
        self.k.tick("listen")
        self.net.fails("listen")
        self.net.iface(self.laddr[0], "listen")
        self.listening = True
        self.net.listeners[self.laddr[1]] = self

    def accept(self):
        self.k.tick("accept")
        self.net.fails("accept")
        self.net.iface(self.laddr[0], "accept")
        self._wait(lambda: bool(self.backlog))
        s = self.backlog.pop(0)
        p = self.k.me().proc
        s.owners = {p.pid: p}
        p.sockets[s.fd] = s
        return s, s.raddr

    # -- connecting --------------------------------------------------------------
    def connect(self, addr):
        kk = self.k
        kk.tick("connect")
        if self.type == _rs.SOCK_DGRAM:
            self.net.fails("udp_connect")
            if self.net.cfg["route"] is None:
                raise err(errno.ENETUNREACH)
            self.laddr = (self.net.cfg["route"], 50000)
            return
        self.net.fails("connect")
        self.net.iface(addr[0], "connect")
        self.raddr = (addr[0], addr[1])
        self.net.next_port += 1
        self.laddr = (addr[0], self.net.next_port)
        self.connecting = True
        if self.net.cfg.get("blackhole") == addr[0]:
            kk.stat("fault.blackhole")
        else:
            kk.at(self._path_delay(), self._establish)
        if self.timeout == 0.0:
            raise err(errno.EINPROGRESS, BlockingIOError)
        self._wait(lambda: not self.connecting)
        if self.so_error:
            e, self.so_error = self.so_error, 0
            raise err(e)

    def connect_ex(self, addr):
        try:
            self.connect(addr)
        except OSError as e:
            return e.errno
        return 0

    def _path_delay(self):
        return self.net.latency() + self._partition_delay()

    def _partition_delay(self):
        d = 0.0
        for p in list(self.owners.values()) + (
                list(self.peer.owners.values()) if self.peer is not None else []):
            until = self.net.partitions.get(p.pid)
            if until is not None and until > self.k.now:
                d = max(d, until - self.k.now)
        return d

    def _establish(self):
        if self.closed_:
            return
        lst = self.net.listeners.get(self.raddr[1])
        host = self.raddr[0]
        self.connecting = False
        ok = lst is not None and not lst.closed_ and host in self.net.cfg["hosts"] and (
            lst.laddr[0] in ("0.0.0.0", "", host))
        if host in self.net.cfg.get("blocked", ()):
            ok = False
        if not ok:
            self.so_error = errno.ECONNREFUSED
            self.k.stat("net.refused")
            self.notify()
            return
        s = SimSocket.__new__(SimSocket)
        holder = next(iter(lst.owners.values()))
        s._init(self.k, holder, self.family, self.type)
        s.laddr = self.raddr
        s.raddr = self.laddr
        s.peer, self.peer = self, s
        s.conn = self.conn = Conn(self, s)
        s.timeout = None
        self.net.conns.append(s.conn)
        lst.backlog.append(s)
        lst.notify()
        self.notify()

    # -- data ----------------------------------------------------------------------
    def send(self, data, flags=0):
        kk = self.k
        kk.tick("send")
        n = len(data)
        if self.closed_:
            raise err(errno.EBADF)
        if self.reset:
            raise err(errno.EPIPE, BrokenPipeError)
        if self.peer is None:
            raise err(errno.ENOTCONN)
        self.net.fails("send")
        self.net.iface(self.raddr[0] if self.raddr else None, "send")
        room = self.net.cfg["sndbuf"] - self.inflight
        if room <= 0:
            kk.stat("fault.sndbuf_full")
            if self.timeout == 0.0:
                raise err(errno.EAGAIN, BlockingIOError)
            self._wait(lambda: self.writable())
            room = self.net.cfg["sndbuf"] - self.inflight
        n = min(n, room)
        if n > 1 and self.net.cfg["short_p"] and kk.ch.flip(self.net.cfg["short_p"]):
            n = 1 + kk.ch.choose(min(n - 1, 64))
            kk.stat("fault.short_write")
        chunk = bytes(data[:n])
        self.bytes_out += n
        seg = self.net.cfg["seg"]
        if seg and kk.ch.flip(0.5):
            i = 0
            while i < len(chunk):
                m = 1 + kk.ch.choose(seg)
                self._transmit(chunk[i:i + m])
                kk.stat("fault.segment")
                i += m
        else:
            self._transmit(chunk)
        return n

    def sendall(self, data, flags=0):
        data = bytes(data)
        while data:
            n = self.send(data)
            data = data[n:]

    def _arrival(self):
        t = max(self.last_arrival, self.k.now + self._path_delay())
        self.last_arrival = t
        return t

    def _transmit(self, chunk):
        self.inflight += len(chunk)
        self.k.at_abs(self._arrival(), lambda: self._arrive(chunk))

    def _arrive(self, chunk):
        self.inflight -= len(chunk)
        p = self.peer
        if p.closed_:
            # data for a closed socket: the other side answers with a reset
            if not self.reset:
                self.k.at(self.net.latency(), lambda: self._got_rst())
        elif not p.reset:
            p.rbuf += chunk
            p.bytes_in += len(chunk)
            p.notify()
        self.notify()

    def _got_rst(self):
        if not self.reset:
            self.reset = errno.ECONNRESET
            self.notify()

    def _send_ctl(self, what):
        p = self.peer

        def go():
            if p.closed_:
                return
            if what == "fin":
                p.eof = True
            else:
                p.reset = p.reset or errno.ECONNRESET
            p.notify()
        self.k.at_abs(self._arrival(), go)

    def recv_into(self, buf, nbytes=0, flags=0):
        kk = self.k
        kk.tick("recv")
        n = nbytes or len(buf)
        data = self._recv(n)
        buf[:len(data)] = data
        return len(data)

    def recv(self, n, flags=0):
        self.k.tick("recv")
        return self._recv(n)

    def _recv(self, n):
        kk = self.k
        if self.closed_:
            raise err(errno.EBADF)
        self.net.fails("recv")
        self.net.iface(self.laddr[0] if self.laddr else None, "recv")
        if self.peer is None:
            raise err(errno.ENOTCONN)
        if not self.rbuf and not self.reset and not self.eof:
            self._wait(self.readable)
        if self.rbuf:
            n = min(n, len(self.rbuf))
            if n > 1 and self.net.cfg["short_p"] and kk.ch.flip(self.net.cfg["short_p"]):
                n = 1 + kk.ch.choose(min(n - 1, 64))
                kk.stat("fault.short_read")
            data = bytes(self.rbuf[:n])
            del self.rbuf[:n]
            return data
        if self.reset:
            e = self.reset
            raise OSError(e, _os.strerror(e))
        return b""

    # -- readiness ----------------------------------------------------------------
    def readable(self):
        if self.listening:
            return bool(self.backlog)
        return bool(self.rbuf) or self.eof or bool(self.reset) or bool(self.so_error)

    def writable(self):
        if self.connecting or self.listening:
            return False
        if self.reset or self.so_error:
            return True
        return self.peer is not None and self.inflight < self.net.cfg["sndbuf"]

    def notify(self):
        for lp in list(self.loops):
            lp._notify()
        ws, self.waiters = self.waiters, []
        for w in ws:
            self.k.make_runnable(w, "io")

    def _wait(self, cond):
        if cond():
            return
        if self.timeout == 0.0:
            raise err(errno.EAGAIN, BlockingIOError)
        end = None if self.timeout is None else self.k.now + self.timeout
        while not cond():
            left = None if end is None else end - self.k.now
            if left is not None and left <= 0:
                raise TimeoutError("timed out")
            self.waiters.append(self.k.me())
            self.k.block(left, "socket")


def getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
    kk = k()
    net().fails("getaddrinfo")
    if host is None or host == "":
        host = "0.0.0.0"
    return [(_rs.AF_INET, _rs.SOCK_STREAM, 6, "", (str(host), int(port or 0)))]


def make_socket_module():
    m = types.ModuleType("socket")
    for a in dir(_rs):
        if not a.startswith("__"):
            setattr(m, a, getattr(_rs, a))
    m.socket = SimSocket
    m.SocketType = SimSocket
    m.getaddrinfo = getaddrinfo
    m.gethostname = lambda: "simhost"
    m.getfqdn = lambda *a: "simhost"
    m.gethostbyname = lambda h: net().cfg["route"] if h == "simhost" else h
    m.has_ipv6 = False

    def create_connection(address, timeout=None, source_address=None, **kw):
        s = SimSocket()
        if timeout is not None:
            s.settimeout(timeout)
        try:
            s.connect(address)
        except BaseException:
            s.close()
            raise
        return s

    def create_server(address, **kw):
        s = SimSocket()
        s.bind(address)
        s.listen(kw.get("backlog") or 128)
        return s

    m.create_connection = create_connection
    m.create_server = create_server
    return m


# ---------------------------------------------------------------------------
class _Selector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout=None):
        lp = self.loop
        kk = lp.k
        t = kk.me()
        lp.sim_thread = t
        kk.tick("select")
        end = None if timeout is None else kk.now + timeout
        while True:
            ev = lp._poll()
            if ev or lp._woken:
                lp._woken = False
                return ev
            if end is not None:
                left = end - kk.now
                if left <= 0:
                    return []
            else:
                left = None
            lp._sleeping = t
            try:
                kk.block(left, "select")
            finally:
                lp._sleeping = None

    def close(self):
        pass

    def get_map(self):
        return {}


class SimEventLoop(asyncio.base_events.BaseEventLoop):
    def __init__(self):
        super().__init__()
        self.k = k()
        self.k.loops.append(self)
        self._selector = _Selector(self)
        self._readers = {}
        self._writers = {}
        self._woken = False
        self._sleeping = None
        self._clock_resolution = 1e-9
        self.sim_thread = None

    def time(self):
        return self.k.now

    def set_debug(self, enabled):
        self._debug = False

    def _process_events(self, events):
        for cb in events:
            if not cb._cancelled:
                self._ready.append(cb)

    def _poll(self):
        out = []
        fds = self.k.fds
        for fd, h in self._readers.items():
            s = fds.get(fd)
            if s is not None and s.readable():
                out.append(h)
        for fd, h in self._writers.items():
            s = fds.get(fd)
            if s is not None and s.writable():
                out.append(h)
        if len(out) > 1:
            r = self.k.ch.skewed(len(out), 0.8)
            if r:
                out = out[r:] + out[:r]
        return out

    def _notify(self):
        if self._sleeping is not None:
            self.k.make_runnable(self._sleeping, "io")

    def _write_to_self(self):
        self._woken = True
        if self._sleeping is not None:
            self.k.make_runnable(self._sleeping, "wake")

    def call_soon_threadsafe(self, callback, *args, context=None):
        self.k.tick("call_soon_threadsafe")
        return super().call_soon_threadsafe(callback, *args, context=context)

    def call_exception_handler(self, context):
        e = context.get("exception")
        if isinstance(e, K.SimKilled) or self.k.dead:
            return
        self.k.log("loop-exc", type(e).__name__)
        self.k.unraisable.append(("loop", repr(e)))
        self.k.probe("loop.exception." + type(e).__name__)

    def _sock(self, fd):
        if not isinstance(fd, int):
            fd = fd.fileno()
        return fd, self.k.fds.get(fd)

    def add_reader(self, fd, callback, *args):
        fd, s = self._sock(fd)
        self._readers[fd] = asyncio.Handle(callback, args, self, None)
        if s is not None:
            s.loops[self] = 1
        self._notify_new()

    def add_writer(self, fd, callback, *args):
        fd, s = self._sock(fd)
        self._writers[fd] = asyncio.Handle(callback, args, self, None)
        if s is not None:
            s.loops[self] = 1
        self._notify_new()

    def _notify_new(self):
        # a foreign thread may change the interest set while select() is waiting
        if self._sleeping is not None:
            self.k.make_runnable(self._sleeping, "io")

    def remove_reader(self, fd):
        fd, s = self._sock(fd)
        h = self._readers.pop(fd, None)
        if h is not None:
            h.cancel()
        return h is not None

    def remove_writer(self, fd):
        fd, s = self._sock(fd)
        h = self._writers.pop(fd, None)
        if h is not None:
            h.cancel()
        return h is not None

    async def getaddrinfo(self, host, port, *, family=0, type=0, proto=0, flags=0):
        return getaddrinfo(host, port, family, type, proto, flags)

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()
        try:
            fut.set_result(func(*args))
        except Exception as e:
            fut.set_exception(e)
        return fut

    def close(self):
        self._closed = True

    def __del__(self, _warn=None):
        pass

    def __hash__(self):
        return object.__hash__(self)


class SimPolicy(asyncio.DefaultEventLoopPolicy):
    def new_event_loop(self):
        c = K.CURRENT
        if c is not None and not c.dead and c.current_thread() is not None:
            return SimEventLoop()
        return super().new_event_loop()


_installed = False


def install():
    """Puts the simulated sockets under tornado (once per OS process)."""
    global _installed
    if _installed:
        return
    _installed = True
    asyncio.set_event_loop_policy(SimPolicy())
    import tornado.iostream
    import tornado.netutil
    import tornado.tcpclient
    import tornado.tcpserver
    import tornado.platform.asyncio
    m = make_socket_module()
    install.module = m
    for mod in (tornado.iostream, tornado.netutil, tornado.tcpclient,
                tornado.tcpserver, tornado.platform.asyncio):
        mod.socket = m
