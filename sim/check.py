"""The check of one property: python -m sim.check <id> [--tier quick|thorough] | --replay FILE."""
import argparse
import collections
import json
import os
import pathlib
import selectors
import subprocess
import sys
import time

ROOT = pathlib.Path(__file__).resolve().parent.parent
PY = sys.executable

QUICK_S = float(os.environ.get("VERIF_QUICK_S", "80"))
THOROUGH_S = float(os.environ.get("VERIF_THOROUGH_S", "1500"))


def spawn(args, hashseed, stderr=None):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1")
    env.pop("DAISY_CONTEXT", None)
    p = subprocess.Popen([PY, "-m", "sim.shard"], cwd=ROOT, env=env, stdin=subprocess.PIPE,
                         stdout=subprocess.PIPE, stderr=stderr or subprocess.DEVNULL, text=True)
    p.stdin.write(json.dumps(args))
    p.stdin.close()
    return p


def call(args, hashseed=0, timeout=240):
    p = spawn(args, hashseed)
    try:
        out = _read(p, timeout)
    finally:
        if p.poll() is None:
            p.kill()
            p.wait()
    res = {}
    for line in out.splitlines():
        try:
            res.update(json.loads(line))
        except ValueError:
            pass
    return res


def _read(p, timeout):
    sel = selectors.DefaultSelector()
    sel.register(p.stdout, selectors.EVENT_READ)
    end = time.time() + timeout
    buf = b""
    fd = p.stdout.fileno()
    while time.time() < end:
        if not sel.select(max(0.0, min(1.0, end - time.time()))):
            continue
        d = os.read(fd, 1 << 16)
        if not d:
            break
        buf += d
    return buf.decode(errors="replace")


class Shards:
    def __init__(self, prop, tier, seed, budget, runs):
        cpus = sorted(os.sched_getaffinity(0))
        n = min(8, max(1, len(cpus)))
        self.n = n
        self.procs = []
        self.deadline = time.time() + budget
        for i in range(n):
            a = dict(mode="run", prop=prop, seed=seed, shard=i, shards=n, runs=runs, deadline=self.deadline,
                     cpu=cpus[i % len(cpus)], wall=40.0)
            self.procs.append(spawn(a, 1000 * seed % 4000000 + i))

    def run(self):
        """Collects everything; stops early at the first violation."""
        sel = selectors.DefaultSelector()
        bufs = {}
        for i, p in enumerate(self.procs):
            os.set_blocking(p.stdout.fileno(), False)
            sel.register(p.stdout, selectors.EVENT_READ, i)
            bufs[i] = b""
        res = dict(done=[], violation=None, errors=[], walls=[], last={})
        open_ = set(bufs)
        hard = self.deadline + 75.0
        while open_ and time.time() < hard:
            for key, _ in sel.select(1.0):
                i = key.data
                d = os.read(key.fd, 1 << 16)
                if not d:
                    sel.unregister(key.fileobj)
                    open_.discard(i)
                    continue
                bufs[i] += d
                *lines, bufs[i] = bufs[i].split(b"\n")
                for line in lines:
                    m = json.loads(line)
                    if "at" in m:
                        res["last"][i] = m["at"]
                    if "violation" in m and res["violation"] is None:
                        res["violation"] = dict(m["violation"], shard=i)
                    if "error" in m:
                        res["errors"].append(m)
                    if "wall" in m:
                        res["walls"].append(m["wall"])
                    if "done" in m:
                        res["done"].append(m["done"])
            if (res["violation"] is not None or res["walls"]) and hard > time.time() + 8.0:
                # let the others finish the run they are at
                hard = time.time() + 6.0
                for p in self.procs:
                    if p.poll() is None:
                        p.terminate()
        for i in open_:
            if time.time() >= hard and hard > self.deadline + 60.0:
                res["walls"].append(res["last"].get(i))
        for p in self.procs:
            if p.poll() is None:
                p.kill()
            p.wait()
        return res


def level_text(done):
    c = collections.Counter
    tot, stats, probes, scen = c(), c(), c(), c()
    inters = set()
    sim_time = ticks = switches = 0
    bad, sample = [], []
    for d in done:
        tot.update(d["tot"])
        stats.update(d["stats"])
        probes.update(d["probes"])
        scen.update(d["scen"])
        inters.update(d["inters"])
        sim_time += d["sim_time"]
        ticks += d["ticks"]
        switches += d["switches"]
        bad += d["recheck_bad"]
        if d["sample"] and len(sample) < 2:
            sample.append(d["sample"])
    return tot, stats, probes, scen, inters, sim_time, ticks, switches, bad, sample


REAL = {
    "e2e": "run_blockwise, Server, Scheduler, DependencyGraph, ReadySurface, ProcessingQueue, BlockBookkeeper, TaskWorkerPools, "
           "WorkerPool, Worker, Client, CLMonitor, Context, logging, TCPServer/TCPClient/TCPStream/IOLooper, tornado's TCP server, "
           "client and streams, threading/queue (copies of the standard library on simulated primitives), dill, pickle",
    "sched": "Scheduler, DependencyGraph, ReadySurface, ProcessingQueue, TaskState, Task, Block",
    "tcp": "TCPServer/TCPClient/TCPStream/IOLooper, internal messages, Client (with a scripted server), tornado's TCP server, client and "
           "streams, threading/queue, pickle",
    "pool": "WorkerPool, Worker, Context, logging, threading/queue, dill",
    "serial": "SerialServer, and everything listed for e2e",
    "resume": "everything listed for e2e, in a server process of its own per run; SerialServer",
    "book": "BlockBookkeeper, Block",
    "addr": "TCPServer (and Server's constructor), TCPClient, tornado's bind and TCP server",
}
STUB = ("OS threads' scheduling, processes and signals, clocks and sleeps, sockets and the network, asyncio's "
        "selector, multiprocessing's Process/Queue/Value/Event/ThreadPool, files and the terminal, tqdm's display, "
        "the user's callables")


def evidence(prop, tier, seed, wall, res, violations, known):
    tot, stats, probes, scen, inters, sim_time, ticks, switches, bad, sample = level_text(res["done"])
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault.")}
    runs = int(tot["runs"])
    cov = dict(
        evaluations=runs,
        distinct_nontrivial=len(inters),
        rule="A case is one simulated run: configuration (task graph, per-attempt outcomes, fault plan, network and "
             "scheduler parameters) and every scheduling, delay and fault decision are drawn from the run's seed. "
             "Non-trivial: at least two recorded events of the system under test. Distinct: different pair of "
             "configuration and fingerprint of the order of observable events (block start/end, hand-out, return, "
             "process exit; messages for the transport scenarios).",
        samples=sample or [dict(note="no sample collected")],
        simulated_runs_and_seeds_per_hour=int(runs / max(wall, 0.1) * 3600),
        simulated_seconds=round(sim_time, 1),
        scheduling_steps=int(ticks),
        context_switches=int(switches),
        preemptions=int(stats.get("preemptions", 0)),
        faults_injected=faults,
        probes={k: v for k, v in sorted(probes.items()) if k != "events"},
        scenarios=dict(scen),
        runs_with_line_level_preemption=int(tot.get("line_runs", 0)),
        determinism_rechecks=dict(replayed=int(tot.get("rechecks", 0)), diverged=len(bad)),
        alarms_of_other_properties=int(tot.get("other_property_alarms", 0)),
        real_components={k: REAL[k] for k in sorted({x.partition("/")[0] for x in scen})},
        simulated_components=STUB,
        known_findings=known,
    )
    e = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
             assumptions=["the simulated operating system, network and multiprocessing primitives behave like the real "
                          "ones as far as daisy uses them", "preemption happens at simulated calls and (in part of the "
                          "runs) between lines of daisy's code, not inside a bytecode",
                          "sampling: no claim beyond the runs counted here"],
             wall_s=round(wall, 2), violations=violations)
    d = ROOT / "evidence"
    d.mkdir(exist_ok=True)
    (d / f"{prop}.json").write_text(json.dumps(e, indent=1) + "\n")


def report(prop, v, tier):
    """Reproduces, minimises and writes the replay file. Returns its path, or None."""
    sig = v["bad"]["oracle"]
    f = dict(cfg=v["cfg"], choices=v["choices"])

    def ok(res):
        r = res.get("replay")
        return r is not None and any(b["oracle"] == sig and prop in b["properties"] for b in r["bads"])

    first = call(dict(mode="replay", file=f, wall=150.0), hashseed=4242, timeout=200)
    if not ok(first):
        print(f"note: run {v['g']} (seed {v['seed']}) violated {prop} [{sig}] but its replay did not", flush=True)
        return None
    m = call(dict(mode="shrink", prop=prop, sig=sig, cfg=v["cfg"], seed=v["seed"], choices=v["choices"],
                  budget=30.0 if tier == "quick" else 120.0), hashseed=7, timeout=200).get("shrunk")
    out = None
    if m:
        g = dict(cfg=m["cfg"], choices=m["choices"])
        out = call(dict(mode="replay", file=g, trace=True, wall=100.0), hashseed=99, timeout=150)
        if ok(out):
            f = g
        else:
            out = None
    if out is None:
        out = call(dict(mode="replay", file=f, trace=True, wall=100.0), hashseed=99, timeout=150)
        if not ok(out):
            # (too slow with the trace)
            out = first
    d = ROOT / "replays"
    d.mkdir(exist_ok=True)
    path = d / f"{prop}-{sig}-{v['seed']}.json"
    bad = next(b for b in out["replay"]["bads"] if b["oracle"] == sig and prop in b["properties"])
    path.write_text(json.dumps(dict(
        property=prop, oracle=sig, message=bad["message"], found_by=dict(seed=v["seed"], run=v["g"]),
        cfg=f["cfg"], choices=f["choices"], original_choices=len(v["choices"]),
        nonzero_choices=sum(1 for c in f["choices"] if c), shrink_runs=m["tried"] if m else 0,
        hash=out["replay"]["hash"], history=out["replay"]["history"][-200:], trace=out["replay"]["trace"]), indent=1))
    print(f"{prop} [{sig}] {bad['message']}")
    return path


def stuck(prop, g, seed, tier):
    """A run that does not come back to the simulator: repeat it with preemption between lines."""
    from .shard import make_cfg, run_seed
    cfg = make_cfg(seed, prop, g)
    cfg["lines"] = True
    cfg["max_ticks"] = 600000
    cfg.setdefault("sched", {})["gap"] = 0
    s = run_seed(seed, prop, g)
    r = call(dict(mode="replay", file=dict(cfg=cfg, seed=s), wall=150.0), timeout=200).get("replay")
    if r is None:
        return None
    for b in r["bads"]:
        if prop in b["properties"]:
            return dict(g=g, seed=s, cfg=cfg, choices=r["choices"], bad=b, hash=r["hash"])
    return None


def known_findings(prop):
    """Reproduces the listed findings of this property."""
    out = []
    p = ROOT / "known_findings.json"
    if not p.exists():
        return out
    for k in json.loads(p.read_text()).get("known", ()):
        if k["property"] != prop:
            continue
        r = call(dict(mode="replay", file=k["replay"]), timeout=120).get("replay")
        if r and any(b["oracle"] == k["oracle"] for b in r["bads"]):
            print(f"KNOWN-FINDING: property={prop} {k['what']}", flush=True)
            out.append(k["what"])
    return out


def do_check(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    budget = QUICK_S if tier == "quick" else THOROUGH_S
    known = known_findings(prop)
    skipped = 0
    merged = dict(done=[])
    runs = 10 ** 9
    base = seed
    while True:
        left = budget - (time.time() - t0)
        res = Shards(prop, tier, base, max(5.0, left), runs).run()
        merged["done"] += res["done"]
        v = res["violation"]
        if v is None and res["walls"]:
            g = next((g for g in res["walls"] if g is not None), None)
            v = stuck(prop, g, base, tier) if g is not None else None
            if v is None:
                print(f"note: run {g} of seed {base} took too long", flush=True)
                skipped += 1
        if v is not None:
            path = report(prop, v, tier)
            if path is not None:
                evidence(prop, tier, seed, time.time() - t0, merged, 1, known)
                print(f"VIOLATION property={prop} replay={path}", flush=True)
                return 1
            skipped += 1
        if res["errors"]:
            print("simulator error:", json.dumps(res["errors"][:2])[:3000], flush=True)
            skipped += 1
        if v is None and not res["walls"] and not res["errors"]:
            break
        if skipped > 3:
            print("too many runs without a verdict", flush=True)
            evidence(prop, tier, seed, time.time() - t0, merged, 0, known)
            return 2
        base += 1000003
        if budget - (time.time() - t0) < 5:
            break
    wall = time.time() - t0
    evidence(prop, tier, seed, wall, merged, 0, known)
    n = sum(int(d["tot"].get("runs", 0)) for d in merged["done"])
    print(f"{prop}: {n} simulated runs in {wall:.1f} s, no violation", flush=True)
    return 0 if n else 2


def do_replay(path):
    f = json.loads(pathlib.Path(path).read_text())
    r = call(dict(mode="replay", file=dict(cfg=f["cfg"], choices=f["choices"]), trace=True), hashseed=5)["replay"]
    for h in r["history"]:
        print(*h)
    for b in r["bads"]:
        print("->", b["oracle"], b["properties"], b["message"])
    same = any(b["oracle"] == f["oracle"] for b in r["bads"])
    print("reproduced exactly" if same and r["hash"] == f.get("hash") else "reproduced" if same else "not reproduced")
    if same:
        print(f"VIOLATION property={f['property']} replay={path}")
    return 1 if same else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    sys.exit(do_replay(a.replay) if a.replay else do_check(a.prop, a.tier))


if __name__ == "__main__":
    main()
