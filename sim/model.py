"""Independent reference model: tiling, dependencies and expected outcomes of block-wise tasks.

Deliberately shares no code with daisy: plain tuples and integers.
"""
import itertools


class Box:
    __slots__ = ("b", "e")

    def __init__(self, b, e):
        self.b = tuple(int(x) for x in b)
        self.e = tuple(int(x) for x in e)

    @staticmethod
    def os(off, shape):
        return Box(off, [o + s for o, s in zip(off, shape)])

    def empty(self):
        return any(e <= b for b, e in zip(self.b, self.e))

    def isect(self, o):
        return Box([max(a, c) for a, c in zip(self.b, o.b)],
                   [min(a, c) for a, c in zip(self.e, o.e)])

    def overlaps(self, o):
        for a, b, c, d in zip(self.b, self.e, o.b, o.e):
            if a >= d or c >= b or b <= a or d <= c:
                return False
        return True

    def shift(self, d):
        return Box([a + x for a, x in zip(self.b, d)], [a + x for a, x in zip(self.e, d)])

    def contains(self, o):
        return all(a <= c and d <= b for a, b, c, d in zip(self.b, self.e, o.b, o.e))

    def __eq__(self, o):
        return self.b == o.b and self.e == o.e

    def __hash__(self):
        return hash((self.b, self.e))

    def __repr__(self):
        return "[%s)" % ", ".join(f"{a}:{b}" for a, b in zip(self.b, self.e))


def of_roi(roi):
    return Box([int(x) for x in roi.begin], [int(x) for x in roi.end])


def key_of(task_id, offset):
    return task_id + "@" + ",".join(str(int(x)) for x in offset)


class MBlock:
    __slots__ = ("task", "key", "write", "read")

    def __init__(self, task, write, read):
        self.task = task
        self.write = write
        self.read = read
        self.key = key_of(task, write.b)

    def __repr__(self):
        return f"{self.key} w{self.write} r{self.read}"


def tile(t):
    """The blocks of a task given as a plain dict (see gen.py)."""
    total = Box.os(*t["total"])
    read = Box.os(*t["read"])
    write = Box.os(*t["write"])
    cl = [w - r for w, r in zip(write.b, read.b)]
    cu = [r - w for w, r in zip(write.e, read.e)]
    tw = Box([a + c for a, c in zip(total.b, cl)], [e - c for e, c in zip(total.e, cu)])
    if tw.empty():
        return []
    shape = [e - b for b, e in zip(write.b, write.e)]
    per_dim = []
    for b, e, s in zip(tw.b, tw.e, shape):
        if t["fit"] == "valid":
            n = (e - b) // s
        else:
            n = -(-(e - b) // s)
        per_dim.append([b + i * s for i in range(n)])
    out = []
    for off in itertools.product(*per_dim):
        d = [o - w for o, w in zip(off, write.b)]
        w, r = write.shift(d), read.shift(d)
        if t["fit"] == "shrink":
            w, r = w.isect(tw), r.isect(total)
        out.append(MBlock(t["id"], w, r))
    return out


class Model:
    def __init__(self, cfg):
        self.tasks = {t["id"]: t for t in cfg["tasks"]}
        self.blocks = {}
        self.of_task = {}
        for t in cfg["tasks"]:
            bs = tile(t)
            self.of_task[t["id"]] = bs
            for b in bs:
                self.blocks[b.key] = b
        self.up_inter = {}  # key -> keys of upstream blocks in other tasks
        for t in cfg["tasks"]:
            for b in self.of_task[t["id"]]:
                ups = []
                for u in t["up"]:
                    for ub in self.of_task[u]:
                        if ub.write.overlaps(b.read):
                            ups.append(ub.key)
                self.up_inter[b.key] = ups
        self._conf = {}

    def conflicts(self, a, b):
        """May these two blocks of one task not run at the same time?"""
        if a.task != b.task or a.key == b.key:
            return False
        if not self.tasks[a.task]["conflict"]:
            return False
        k = (a.key, b.key)
        v = self._conf.get(k)
        if v is None:
            v = self._conf[k] = a.write.overlaps(b.read) or b.write.overlaps(a.read)
        return v

    @staticmethod
    def near(a, b):
        """Do two blocks meet in every single dimension? (Weaker than a conflict: daisy orders these, too.)"""
        def meet(x0, x1, y0, y1):
            return max(x0, y0) < min(x1, y1)
        return all(meet(a.write.b[i], a.write.e[i], b.read.b[i], b.read.e[i]) or meet(b.write.b[i], b.write.e[i], a.read.b[i], a.read.e[i])
                   for i in range(len(a.write.b)))

    def total(self, task):
        return len(self.of_task[task])

    def expected(self, deps, outcome, skipped=()):
        """Final status per block.

        deps: key -> iterable of keys it depends on; outcome: key -> 'ok' | 'fail'
        (what happens if it is attempted); skipped: keys reported done by the check.
        """
        status = {}
        order = []
        seen = {}

        for k0 in self.blocks:
            stack = [(k0, iter(deps.get(k0, ())))]
            if k0 in seen:
                continue
            seen[k0] = 1
            while stack:
                k, it = stack[-1]
                for u in it:
                    if u not in seen:
                        seen[u] = 1
                        stack.append((u, iter(deps.get(u, ()))))
                        break
                else:
                    order.append(k)
                    stack.pop()
        for k in order:
            if any(status.get(u) in ("failed", "orphaned") for u in deps.get(k, ())):
                status[k] = "orphaned"
            elif k in skipped:
                status[k] = "skipped"
            else:
                status[k] = "completed" if outcome.get(k, "ok") == "ok" else "failed"
        return status


def counts(status, blocks):
    out = {}
    for k, b in blocks.items():
        c = out.setdefault(b.task, dict(completed=0, skipped=0, failed=0, orphaned=0))
        s = status[k]
        if s == "skipped":
            c["completed"] += 1
            c["skipped"] += 1
        else:
            c[s] += 1
    return out
