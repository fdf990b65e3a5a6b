"""Scenario: the bookkeeper of sent blocks alone, against a model of who owns which block.

Histories of sending, returning, repeated and foreign returns, closing connections, moving the
clock and collecting lost blocks.
"""
import pickle

from . import kernel as K
from . import loader as L
from .world import Bad


class Stream:
    """Stands for a connection to a client."""

    def __init__(self, n):
        self.n = n
        self.address = ("10.0.0.5", 1000 + n)
        self.dead = False

    def closed(self):
        return self.dead

    def __repr__(self):
        return f"stream{self.n}"


class BookWorld:
    def __init__(self, kk, cfg, bads):
        self.kk, self.cfg, self.bads = kk, cfg, bads
        self.H = []

    def ev(self, *a):
        self.H.append((round(self.kk.now, 6),) + a)
        self.kk.log(*a)
        self.kk.mix(*a)

    def bad(self, oracle, msg):
        self.bads.append(Bad(("C07",), oracle, msg, self.kk.now))


def run(kk, cfg, bads):
    w = BookWorld(kk, cfg, bads)

    def main():
        d = L.load()
        kk.world = w
        try:
            drive(kk, cfg, d, w)
        except K.SimKilled:
            raise
        except Exception as e:
            w.bad("raises", f"{type(e).__name__}: {e}; last steps {w.H[-6:]}"[:400])
    kk.run(main)
    return [w]


def drive(kk, cfg, d, w):
    ch = kk.ch
    S = d.BlockStatus
    tmo = cfg["timeout"]
    book = d.block_bookkeeper.BlockBookkeeper(processing_timeout=tmo)
    total = d.Roi((0,), (10 * cfg["blocks"],))
    blocks = [d.Block(total, d.Roi((10 * i,), (10,)), d.Roi((10 * i,), (10,)), task_id=t)
              for t in "ab"[:cfg.get("tasks_n", 1)] for i in range(cfg["blocks"])]
    streams = [Stream(i) for i in range(cfg["streams"])]
    owner = {}   # block index -> (stream, time sent)
    nstream = len(streams)
    tot = sum(cfg["w"])

    def pick():
        x = ch.choose(1000) / 1000 * tot
        for i, v in enumerate(cfg["w"]):
            x -= v
            if x < 0:
                return i
        return 0

    def over(i):
        """-> True / False / None (too close to call)"""
        s, t = owner[i]
        if s.dead:
            return True
        if tmo is None:
            return False
        if abs(kk.now - t - tmo) < 1e-3:
            return None
        return kk.now - t > tmo
    for _ in range(cfg["steps"]):
        op = pick()
        live = [s for s in streams if not s.dead]
        if op == 0:      # send a block that nobody owns
            free = [i for i in range(len(blocks)) if i not in owner]
            if not free or not streams:
                continue
            i = free[ch.choose(len(free))]
            # the connection may have closed already
            s = streams[ch.choose(len(streams))]
            w.ev("send", i, s.n, s.dead)
            book.notify_block_sent(blocks[i], s)
            owner[i] = (s, kk.now)
        elif op in (1, 2):  # a return, right or wrong
            i = ch.choose(len(blocks))
            s = streams[ch.choose(len(streams))] if op == 1 or i not in owner else owner[i][0]
            b = pickle.loads(pickle.dumps(blocks[i]))
            b.status = (S.SUCCESS, S.FAILED)[ch.choose(2)]
            want = i in owner and owner[i][0] is s
            got = book.is_valid_return(b, s)
            w.ev("return", i, s.n, bool(got))
            if bool(got) != want:
                w.bad("valid-return", f"the return of block {i} by connection {s.n} is "
                      f"{'accepted' if got else 'refused'}; it is owned by {owner.get(i, ('nobody',))[0]}; {w.H[-8:]}")
                return
            if got:
                book.notify_block_returned(b, s)
                del owner[i]
                if book.is_valid_return(b, s):
                    w.bad("returned-twice", f"block {i} is accepted again from connection {s.n}")
                    return
        elif op == 3 and live:
            s = live[ch.choose(len(live))]
            s.dead = True
            w.ev("close", s.n)
            kk.stat("fault.connection_closed")
        elif op == 4:
            streams.append(Stream(nstream))
            nstream += 1
            if len(streams) > 8:
                streams.pop(0)
        elif op == 5:
            kk.sleep((0.05, 0.4, 1.7, 9.0, 40.0)[ch.choose(5)])
            if ch.flip(cfg.get("jumps", 0)):
                kk.wall_offset += (-86400.0, -30.0, -2.0, 2.0, 30.0, 1e8)[ch.choose(6)]
                kk.stat("fault.clock_jump")
                w.ev("jump")
        else:
            want = {i: over(i) for i in owner}
            got = book.get_lost_blocks()
            ids = []
            for b in got:
                m = [i for i, x in enumerate(blocks) if x.block_id == b.block_id]
                ids.append(m[0] if m else None)
            w.ev("lost", ids)
            if len(set(ids)) != len(ids):
                w.bad("lost-twice", f"blocks {ids} are declared lost, with repetitions")
                return
            for i in ids:
                if i is None or not owner.get(i):
                    w.bad("lost-not-owned", f"block {i} is declared lost but nobody owns it; {w.H[-8:]}")
                    return
                if want[i] is False:
                    w.bad("lost-in-time", f"block {i} is declared lost, but its connection is open and it is not overdue; {w.H[-8:]}")
                    return
            for i, v in want.items():
                if v is True and i not in ids:
                    w.bad("not-lost", f"block {i} is overdue or its connection closed, but it is not declared lost; {w.H[-8:]}")
                    return
            for i in ids:
                kk.probe("book.lost")
                s, t = owner.pop(i)
                if book.is_valid_return(blocks[i], s):
                    w.bad("lost-returned", f"block {i} is accepted from connection {s.n} after it was declared lost")
                    return
