"""Systematic mutation of daisy, to find out what the checks miss. Not a check; nothing registered uses it.

  mutate.py list                       all mutants (id, file, line, what)
  mutate.py run OUT.jsonl [ids...]     each mutant: the repository's tests, then (if they pass) runs of all profiles

A mutant is judged in a scratch copy; a mutant that the tests do not notice is run through the profiles of all
properties (single process, one core per mutant) until the first violation of any property."""
import ast
import json
import os
import pathlib
import random
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
PY = "/opt/venv/bin/python"
SKIP = {"blocks.py", "coordinate.py", "roi.py", "freezable.py", "__init__.py", "exceptions.py"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
       ast.In: "not in", ast.NotIn: "in"}


def mutants(path):
    src = path.read_text()
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        i, j = span(n)
        return b[i:j].decode()
    out = []

    def add(n, new, what):
        i, j = span(n)
        out.append((n.lineno, what, b[:i].decode() + new + b[j:].decode()))
    tree = ast.parse(src)
    skip = set()
    for n in ast.walk(tree):
        # documentation and log messages are not behaviour
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(n)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) \
                and isinstance(n.value.func.value, ast.Name) and n.value.func.value.id == "logger":
            skip.update(ast.walk(n))
        if isinstance(n, ast.FunctionDef) and n.name in ("__repr__", "__str__"):
            skip.update(ast.walk(n))
        if isinstance(n, ast.AnnAssign):
            skip.update(ast.walk(n.annotation))
        if isinstance(n, ast.arg) and n.annotation:
            skip.update(ast.walk(n.annotation))
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            new = CMP.get(type(n.ops[0]))
            if new:
                add(n, f"{text(n.left)} {new} {text(n.comparators[0])}", f"{text(n)} -> {new}")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + op.join("(%s)" % text(v) for v in n.values) + ")", f"{text(n)} ->{op}")
            for v in n.values:
                add(n, "(" + (" and " if op == " or " else " or ").join("(%s)" % text(x) for x in n.values if x is not v) + ")", f"{text(n)} without {text(v)}")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, f"({text(n.operand)})", f"{text(n)} without not")
        elif isinstance(n, (ast.If, ast.While)):
            if not (isinstance(n.test, ast.Constant)):
                add(n.test, f"(not ({text(n.test)}))", f"if {text(n.test)} negated")
                if isinstance(n, ast.If):
                    add(n.test, "True", f"if {text(n.test)} -> True")
                    add(n.test, "False", f"if {text(n.test)} -> False")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), f"{n.value} flipped")
            elif isinstance(n.value, (int, float)):
                add(n, f"({n.value!r} + 1)", f"{n.value} + 1")
                if n.value:
                    add(n, f"({n.value!r} - 1)", f"{n.value} - 1")
                    add(n, "0", f"{n.value} -> 0")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            o = "-" if isinstance(n.op, ast.Add) else "+"
            add(n, f"{text(n.left)} {o} {text(n.right)}", f"{text(n)} -> {o}")
        elif isinstance(n, ast.Break):
            add(n, "continue", "break -> continue")
        elif isinstance(n, ast.Continue):
            add(n, "break", "continue -> break")
            add(n, "pass", "continue -> pass")
        elif isinstance(n, ast.With):
            for it in n.items:
                t = text(it.context_expr)
                if "lock" in t or "cond" in t:
                    add(it.context_expr, "__import__('contextlib').nullcontext()", f"with {t} -> without")
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            add(n, "return None", f"{text(n)} -> None")
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise)) or isinstance(n, ast.Return):
            if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Await,)):
                pass
            add(n, "pass", f"delete {text(n)}")
        if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub)):
            add(n, text(n).replace("+=" if isinstance(n.op, ast.Add) else "-=", "-=" if isinstance(n.op, ast.Add) else "+=", 1), f"{text(n)} reversed")
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            add(n.type, "ZeroDivisionError", f"except {text(n.type)} -> other")
    # adjacent simple statements swapped
    for n in ast.walk(tree):
        for field in ("body", "orelse", "finalbody"):
            body = getattr(n, field, None)
            if not isinstance(body, list) or isinstance(n, (ast.Module, ast.ClassDef)):
                continue
            for x, y in zip(body, body[1:]):
                if x in skip or y in skip or not isinstance(x, (ast.Expr, ast.Assign, ast.AugAssign)) \
                        or not isinstance(y, (ast.Expr, ast.Assign, ast.AugAssign)):
                    continue
                (i, j), (k, l) = span(x), span(y)
                if x.col_offset != y.col_offset:
                    continue
                out.append((x.lineno, f"swap {text(x)[:60]!r} and {text(y)[:60]!r}", (b[:i] + b[k:l] + b[j:k] + b[i:j] + b[l:]).decode()))
    res, seen = [], {src}
    for ln, what, new in out:
        if new in seen:
            continue
        seen.add(new)
        try:
            t = ast.parse(new)
        except SyntaxError:
            continue
        if ast.dump(t) == ast.dump(tree):
            continue
        res.append((ln, " ".join(what.split())[:110], new))
    res.sort(key=lambda x: x[0])
    return res


SWAP = [("min", "max"), ("any", "all"), ("append", "appendleft"), ("popleft", "pop"), ("add", "discard"), ("begin", "end"),
        ("read_roi", "write_roi"), ("total_read_roi", "total_write_roi"), ("block_read_roi", "block_write_roi"), ("upstream", "downstream"), ("ready_count", "pending_count"),
        ("completed_count", "skipped_count"), ("failed_count", "orphaned_count"), ("upstream_tasks", "downstream_tasks"),
        ("surface", "boundary"), ("put", "put_nowait"), ("message_queue", "exception_queue"), ("union", "intersect"), ("intersects", "contains"),
        ("terminate", "kill"), ("stdout", "stderr"), ("keys", "values"), ("floor_division", "ceil_division"), ("monotonic", "time")]
SWAPS = {a: b for x, y in SWAP for a, b in ((x, y), (y, x))}


def mutants2(path):
    """Larger or less local changes than those of mutants()."""
    src = path.read_text()
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()
    tree = ast.parse(src)
    out = []

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        i, j = span(n)
        return b[i:j].decode()

    def add(n, new, what):
        i, j = span(n)
        out.append((n.lineno, what, b[:i].decode() + new + b[j:].decode()))

    def block(body, ind):
        """Source of statements, indented anew."""
        i, j = span(body[0])[0], span(body[-1])[1]
        t = (" " * body[0].col_offset + b[i:j].decode()).splitlines()
        d = body[0].col_offset - ind
        t = [l[d:] if d >= 0 and l[:d].strip() == "" else " " * max(0, -d) + l for l in t]
        return "\n".join(t).lstrip(" ")
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.name in ("__repr__", "__str__"):
            skip.update(ast.walk(n))
        if isinstance(n, (ast.arg, ast.AnnAssign)) and n.annotation:
            skip.update(ast.walk(n.annotation))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and text(n.value.func).startswith(("logger.", "print")):
            skip.update(ast.walk(n))
    for f in ast.walk(tree):
        if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) or f in skip:
            continue
        names = sorted({a.arg for a in f.args.args if a.arg != "self"}
                       | {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
        for n in ast.walk(f):
            if n in skip:
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names:
                # few of these are of interest: most fail at once
                for o in random.Random(f"{path.name}{n.lineno}{n.col_offset}").sample(names, min(2, len(names))):
                    if o != n.id:
                        add(n, o, f"name {n.id} -> {o}")
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Attribute) and n.attr in SWAPS:
            t = text(n)
            add(n, t[:len(t) - len(n.attr)] + SWAPS[n.attr], f"{t} -> {SWAPS[n.attr]}")
        if isinstance(n, ast.Name) and n.id in SWAPS:
            add(n, SWAPS[n.id], f"{n.id} -> {SWAPS[n.id]}")
        if isinstance(n, ast.For):
            t = text(n.iter)
            for new in ("list(%s)[:1]", "list(%s)[1:]", "list(%s)[:-1]", "reversed(list(%s))"):
                add(n.iter, new % t, f"for in {t} -> {new}")
        if isinstance(n, (ast.If, ast.For, ast.While, ast.With, ast.Try, ast.AsyncWith)):
            add(n, "pass", f"delete whole {text(n)[:50]}")
            if isinstance(n, (ast.If, ast.With)):
                add(n, block(n.body, n.col_offset), f"only the body of {text(n)[:50]}")
        if isinstance(n, ast.If) and n.orelse:
            add(n, block(n.orelse, n.col_offset), f"only the else of {text(n)[:50]}")
        if isinstance(n, ast.With) and len(n.body) > 1:
            h = b[span(n)[0]:span(n.body[0])[0]].decode()
            ind = " " * n.col_offset
            bi = n.body[0].col_offset
            add(n, block(n.body[:1], n.col_offset) + "\n" + ind + h + block(n.body[1:], bi), f"first statement before {text(n)[:40]}")
            add(n, h + block(n.body[:-1], bi) + "\n" + ind + block(n.body[-1:], n.col_offset), f"last statement after {text(n)[:40]}")
        if isinstance(n, ast.Try):
            add(n, block(n.body, n.col_offset), f"only the try of {text(n)[:50]}")
            if n.finalbody:
                add(n, block(n.body, n.col_offset) + "\n" + " " * n.col_offset + block(n.finalbody, n.col_offset), f"try/finally in sequence {text(n)[:40]}")
        if isinstance(n, ast.Call):
            t = text(n.func)
            if t in ("list", "set", "dict", "tuple", "sorted", "copy.deepcopy", "copy.copy") and len(n.args) == 1:
                add(n, text(n.args[0]), f"{text(n)} -> alias")
            for kw in n.keywords:
                parts = [text(a) for a in n.args] + [text(k) for k in n.keywords if k is not kw]
                add(n, f"{t}({', '.join(parts)})", f"{text(n)} without {kw.arg}")
            if len(n.args) == 2:
                add(n, f"{t}({text(n.args[1])}, {text(n.args[0])})", f"{text(n)} arguments swapped")
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and len(n.body) > 1:
            add(n.body[-1], "pass", f"last statement of {n.name} deleted")
    res, seen = [], {src}
    for ln, what, new in out:
        if new in seen:
            continue
        seen.add(new)
        try:
            t = ast.parse(new)
        except SyntaxError:
            continue
        if ast.dump(t) != ast.dump(tree):
            res.append((ln, " ".join(what.split())[:110], new))
    res.sort(key=lambda x: x[0])
    return res


def all_mutants():
    out = []
    if os.environ.get("MUT_OPS") == "2":
        for f in sorted((REPO / "daisy").rglob("*.py")):
            if f.name not in SKIP:
                rel = f.relative_to(REPO)
                for i, (ln, what, new) in enumerate(mutants2(f)):
                    out.append(dict(id=f"{rel.with_suffix('')}#b{i}".replace("/", "."), file=str(rel), line=ln, what=what, new=new))
        return out
    for f in sorted((REPO / "daisy").rglob("*.py")):
        if f.name in SKIP:
            continue
        rel = f.relative_to(REPO)
        for i, (ln, what, new) in enumerate(mutants(f)):
            out.append(dict(id=f"{rel.with_suffix('')}#{i}".replace("/", "."), file=str(rel), line=ln, what=what, new=new))
    return out


JUDGE = r"""
import sys, json, time, os, random, signal
sys.path.insert(0, %r)
from sim import core, profiles, shard
end = time.time() + float(sys.argv[1])
props = sorted(profiles.PROFILES)
random.Random(5).shuffle(props)
n = 0
hit = {}
def out(**k):
    print(json.dumps(dict(k, runs=n))); sys.stdout.flush(); os._exit(0)
while time.time() < end:
    for p in props:
        if time.time() > end: break
        cfg = shard.make_cfg(int(sys.argv[2]), p, n)
        try:
            r = core.execute(cfg, shard.run_seed(int(sys.argv[2]), p, n), wall=20.0)
        except Exception as e:
            out(error=repr(e)[:200], prop=p)
        n += 1
        if r.ended == "wall": out(wall=True, prop=p)
        mine = [b for b in r.bads if p in b.tags]
        if mine: out(found=p, oracle=mine[0].oracle, msg=mine[0].msg[:160])
        if r.bads: hit[r.bads[0].oracle] = hit.get(r.bads[0].oracle, 0) + 1
        if r.errors or r.leaked: out(error=str(r.errors)[:200], prop=p)
out(none=True, other=hit)
"""


def one(m, secs, cpu, base):
    d = pathlib.Path(tempfile.mkdtemp(prefix="mut", dir=base))
    res = dict(id=m["id"], file=m["file"], line=m["line"], what=m["what"])
    try:
        subprocess.run(["cp", "-a", str(REPO / "daisy"), str(REPO / "tests"), str(REPO / "pytest.ini"), str(REPO / "pyproject.toml"), str(d)], check=True)
        (d / m["file"]).write_text(m["new"])
        env = dict(os.environ, PYTHONPATH=str(d), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1")
        ts = "taskset -c %d " % cpu
        p = subprocess.Popen(ts + f"timeout -k 5 100 {PY} -m pytest tests -x -q -p no:cacheprovider --timeout=25 --basetemp={d}/tmp > {d}/log 2>&1",
                             shell=True, cwd=d, env=env, start_new_session=True)
        try:
            rc = p.wait(130)
        except subprocess.TimeoutExpired:
            rc = -1
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        if rc != 0:
            res["tests"] = "fail"
            return res
        res["tests"] = "pass"
        env = dict(os.environ, VERIF_REPO=str(d), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="3")
        env.pop("DAISY_CONTEXT", None)
        t0 = time.time()
        try:
            o = subprocess.run(["taskset", "-c", str(cpu), PY, "-c", JUDGE % str(ROOT), str(secs), "1"], env=env, cwd=ROOT,
                               capture_output=True, text=True, timeout=secs + 120)
            last = o.stdout.strip().splitlines()
            res.update(json.loads(last[-1]) if last else dict(error=o.stderr[-300:]))
        except subprocess.TimeoutExpired:
            res["wall"] = True
        res["s"] = round(time.time() - t0, 1)
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ms = all_mutants()
    if sys.argv[1] == "list":
        for m in ms:
            print(m["id"], m["line"], m["what"])
        print(len(ms))
        return
    out = pathlib.Path(sys.argv[2])
    want = set(sys.argv[3:])
    done = {json.loads(l)["id"] for l in out.read_text().splitlines()} if out.exists() else set()
    todo = [m for m in ms if m["id"] not in done and (not want or m["id"] in want or m["file"] in want)]
    random.Random(int(os.environ.get("MUT_SEED", "1"))).shuffle(todo)
    if os.environ.get("MUT_MAX"):
        todo = todo[:int(os.environ["MUT_MAX"])]
    cpus = [int(c) for c in os.environ.get("MUT_CPUS", "0,1,2,3,4,5,6,7").split(",")]
    secs = float(os.environ.get("MUT_S", "150"))
    free = list(cpus)
    base = tempfile.mkdtemp(prefix="mutants")
    with ThreadPoolExecutor(len(cpus)) as ex, out.open("a") as fh:
        def go(m):
            c = free.pop()
            try:
                r = one(m, secs, c, base)
            finally:
                free.append(c)
            fh.write(json.dumps(r) + "\n")
            fh.flush()
        list(ex.map(go, todo))
    shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    main()
