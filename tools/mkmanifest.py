"""Writes /verif/MANIFEST.json from the property list and the notes below."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
BASE = "Seeded search, no proof: covers the runs counted in the evidence file. "
NOTE = {
    "C01": "whole runs plus the scheduler alone, against a model of the tiling and dependencies",
    "C02": "whole runs plus the scheduler alone; overlaps judged from the instants at which process functions run",
    "C03": "whole runs plus the scheduler alone, with misaligned and asymmetric geometry; upstream blocks come from an independent model",
    "C04": "whole runs plus the scheduler alone; attempts are counted in the process functions",
    "C05": "whole runs plus the scheduler alone; the set of orphans is recomputed by a model",
    "C06": "a run that makes no progress for 150 simulated seconds after faults stopped counts as hanging",
    "C07": "whole runs with clients that return foreign, old and repeated blocks; the bookkeeper alone against an ownership model",
    "C08": "whole runs with crashes at any simulated step; pool strength is judged from the simulated process table",
    "C09": "whole runs; returned states, return value and printed summary against what happened to the blocks",
    "C10": "pre-check and skipping in whole runs and in the scheduler alone; histories of killed or stopped runs that are started again",
    "C11": "runs that end normally, by stop request, interruption, worker errors and failing forks; judged from the process table and open sockets",
    "C12": "whole runs with workers that raise at any stage of their life",
    "C13": "the transport alone: several clients and threads, split, delayed and broken streams",
    "C14": "the transport and the client alone with lost servers and connections at any moment; whole runs whose server is killed",
    "C15": "the same tasks run by both servers in one history, outcomes compared",
    "C16": "whole runs with every way processing can end, including exceptions that cannot be pickled or rebuilt",
    "C17": "all counts at every observer call, and after every step of the scheduler alone",
    "C18": "the sequence of observer calls and callbacks of whole runs, parallel and serial",
    "C19": "whole runs with many raising blocks; terminations and restarts against the number of raised exceptions",
    "C20": "a bare worker pool used by several threads while workers crash",
    "C21": "whole runs and the scheduler alone: waiting workers against ready blocks of a model",
    "C22": "creation of servers with failing socket calls and broken interfaces, followed by a client that uses the address",
    "C23": "whole runs; environment, ids, blocks and log files of every worker",
}
NA = {
    "P90": "pure function of its arguments: no schedule, time, I/O, fault or second party for a simulation to vary",
    "P91": "pure function of its arguments: no schedule, time, I/O, fault or second party for a simulation to vary",
}

props = [json.loads(l) for l in (ROOT / "properties.jsonl").read_text().splitlines()]
checks = [dict(property=p["id"], quick_cmd=f"./check {p['id']} --tier quick", thorough_cmd=f"./check {p['id']} --tier thorough",
               evidence_file=f"evidence/{p['id']}.json",
               technique="deterministic simulation with fault injection (seeded search over schedules and faults)",
               level="exploration", level_note=BASE + NOTE[p["id"]] + ".")
          for p in props if p["id"] in NOTE]
out = dict(version=1, setup_cmd="/opt/venv/bin/python tools/selftest.py", checks=checks,
           not_applicable=[dict(property=p["id"], reason=NA[p["id"]]) for p in props if p["id"] in NA])
(ROOT / "MANIFEST.json").write_text(json.dumps(out, indent=1) + "\n")
