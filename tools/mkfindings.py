"""Writes /verif/known_findings.json. Nothing at run time adds to it."""
import json
import pathlib

FIXED = [
    ("C03", "b9f61fe", "read contexts larger below than above (or the reverse): downstream blocks were looked up with the wrong region, so blocks never became ready or too early"),
    ("C01", "9d8759e", "a block that does not overlap an upstream task was given upstream blocks outside of that task's tiling and never became ready"),
    ("C03", "c83d3ef", "fit=overhang: the overhanging part of upstream blocks was ignored, downstream blocks started too early or never"),
    ("C01", "3e3886b", "a task with read/write conflicts and no blocks at all raised an error in the dependency graph"),
    ("C01", "edf21f3", "downstream blocks that read nothing from the upstream task were never scheduled"),
    ("C21", "8190e5e", "a delayed request of one task kept the requests of all other tasks from being answered (also C06: a run could hang)"),
    ("C09", "b21843b", "run_blockwise returned True although blocks failed or were orphaned"),
    ("C06", "3dc05cd", "all idle workers were sent away while the last blocks were still being processed; when those failed nobody was left to retry them"),
    ("C04", "344aeb9", "blocks were handed out to clients that had died, each time charging a failed attempt"),
    ("C05", "b51105e", "a block with several failed ancestors was counted as orphaned several times (also C17)"),
    ("C11", "813bad6", "if a worker process could not be started, the workers already running were left behind"),
    ("C16", "cde2f35", "a block that failed with an exception that cannot be pickled was never reported, its worker died or hung"),
    ("C12", "c344cd1", "an exception of a worker that cannot be pickled was lost, the run hung"),
    ("C06", "8a2d902", "TCPStream.closed() raised an AttributeError while the stream was being closed and aborted the run"),
    ("C08", "17ef3fa", "a worker that kept failing and died at the same time was replaced twice (also C19)"),
    ("C14", "ccf2920", "sending or disconnecting while the connection is lost raised an AttributeError"),
    ("C14", "bafe6ad", "get_message() without timeout waited for ever after the connection was lost"),
    ("C14", "c5456e6", "acquire_block() raised instead of yielding no block if the server had gone before"),
    ("C13", "1586441", "errors other than a closed stream (ETIMEDOUT, EHOSTUNREACH) while reading killed the reader: the client hung, the server aborted"),
    ("C14", "84fb0d6", "closing a stream while a message is being read raised an AttributeError in the server"),
    ("C13", "c7c54dd", "a message changed after send_message() was sent with the changed content"),
    ("C15", "af814a4", "SerialServer: a block that was marked failed once stayed failed in every retry"),
    ("C15", "7d0e062", "SerialServer: the run ended early when all ready blocks were skipped; tasks without processed blocks were never reported done (C18)"),
    ("C14", "487c6d3", "workers inherited the sockets of their server; if it was killed, workers that connected late waited for ever"),
    ("C07", "5e81cab", "a block that was overdue on a closed connection was declared lost twice, raising a KeyError"),
    ("C22", "611db2a", "the first failing attempt to listen raised an AttributeError instead of trying again or raising NoFreePort"),
    ("C14", "23e5a1d", "a server lost right after it asked a worker to shut down made acquire_block() raise (disconnect() of a connection just lost)"),
    ("C12", "556d3fa", "a queue.Empty raised by a worker's own code was swallowed, the run hung"),
    ("C18", "1456cec", "a serial run that ended by raising did not report its end: no execution summary, progress bars left open"),
    ("C06", "5a55272", "a clock set back made a run without any block hang (for as long as the clock was set back)"),
    ("C16", "9fc310c", "a block that raised an exception whose class is only known in its worker (or whose repr raises) aborted the whole run (also C12: the error that surfaced was another one)"),
    ("C16", "31e48c5", "a block interrupted (KeyboardInterrupt, SystemExit) after its function had set block.status to SUCCESS was reported as completed"),
    ("C07", "8357722", "a clock set forward made blocks being processed count as overdue, taken from clients that were working on them"),
    ("C22", "d9864dd", "a server created in another thread than the one that created the process's IO loop never handled a connection (also C06: Server().run_blockwise after run_blockwise hung)"),
    ("C22", "faf2e34", "two threads creating the first servers or clients of a process at the same time: one raised a RuntimeError, or its server never handled a connection"),
    ("C01", "f4a79bc", "a second run of the same server returned without processing any block (also C06)"),
    ("C13", "d2ada0d", "messages of a server created before a call of run_blockwise were sent from a foreign thread, duplicated or corrupted"),
    ("C16", "c3d6479", "in a second run of a server with other tasks, a worker that failed too often aborted the run with a KeyError (also C19)"),
]
KNOWN = []
ROOT = pathlib.Path(__file__).resolve().parent.parent
(ROOT / "known_findings.json").write_text(json.dumps(dict(
    known=KNOWN, fixed=[f"fixed: property={p} {c} {w}" for p, c, w in FIXED]), indent=1) + "\n")
