"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, pathlib

D = "daisy/"
SRV, SCH, DG, RS = D + "server.py", D + "scheduler.py", D + "dependency_graph.py", D + "ready_surface.py"
BB, CL, WK, WP, TWP = D + "block_bookkeeper.py", D + "client.py", D + "worker.py", D + "worker_pool.py", D + "task_worker_pools.py"
CV, SS, TS, SO, TK = D + "convenience.py", D + "serial_server.py", D + "task_state.py", D + "server_observer.py", D + "task.py"
TC, TSV, TST, IOL = D + "tcp/tcp_client.py", D + "tcp/tcp_server.py", D + "tcp/tcp_stream.py", D + "tcp/io_looper.py"
CLM, CTX, LOG, PQ, BLK = D + "cl_monitor.py", D + "context.py", D + "logging.py", D + "processing_queue.py", D + "block.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=observe,
            hook_needed=None,
        )))


prop("C01", "Every block of every task is completed exactly once",
     "As long as no block fails more often than its task's retry limit allows, a blockwise run ends with every block of the tiling of every task (and no other block) completed, and each block is counted as completed exactly once. "
     "A block whose success has been accepted is never handed out or processed again. "
     "This holds whatever the order in which blocks finish, the number of workers, message delays, worker processes dying at any point, and other runs of the same process or server before.",
     ["schedules", "crash_points", "configurations", "fault_sequences"],
     "all task graphs (1-3 dimensions, any context, fit and worker count), all interleavings of server, network and workers, all points at which workers may die",
     "The tests run a handful of fixed task lists with real timing and one crash at one place; they never vary interleaving or the crash point.",
     [SRV, SCH, DG, RS, BB, WP],
     [("lazy ready-surface over the block graph", RS), ("lost-block detection and re-queue", SRV + ":_check_for_lost_blocks"), ("block enumeration per level", DG)],
     ["process function calls per block", "task states returned by a run"])

prop("C02", "Conflicting blocks of one task never run at the same time",
     "If a task declares read/write conflicts, then at no instant are two of its blocks being processed such that the write region of one overlaps the read region of the other. "
     "This includes blocks that are retried after a failure or after their worker process died.",
     ["schedules", "crash_points", "configurations", "fault_sequences"],
     "all block geometries and contexts, all worker counts and completion orders, all crash points of workers, all retries",
     "Tests check the static graph of a few geometries; no test observes which blocks actually overlap in time under adversarial completion order or crashes.",
     [SCH, DG, RS, SRV, BB],
     [("levels and level conflicts", DG + ":compute_level_conflicts"), ("ready surface", RS + ":mark_success"), ("hand-out", SCH + ":acquire_block")],
     ["start and end of each process function call"])

prop("C03", "No block starts before the upstream blocks it reads from are complete",
     "A block of a task with upstream tasks is handed to a worker only after every upstream block whose write region overlaps the block's read region has been completed successfully (processed or skipped as already done). "
     "This holds for arbitrary block sizes, offsets, asymmetric contexts, fits and chains or diamonds of tasks, and under failures, retries and worker crashes.",
     ["schedules", "crash_points", "configurations", "fault_sequences"],
     "all task graphs and geometries, all completion orders, all failures",
     "Tests cover two or three aligned geometries and run sequentially; misaligned or asymmetric geometry combined with out-of-order completion is not reached.",
     [DG, SCH, RS],
     [("sub-graph lookup by region", DG + ":get_subgraph_blocks"), ("ready surface", RS)],
     ["start of each process function call", "completions accepted by the scheduler"])

prop("C04", "Failed attempts are retried up to the task's limit, and exactly that often",
     "Every block is attempted at most 1 + max_retries times; an attempt fails if its processing raises, reports failure, or its worker process dies while holding the block, and each failed attempt is charged exactly once. "
     "A block is reported as failed if and only if all 1 + max_retries attempts failed, and as completed as soon as one attempt succeeds. "
     "A failed attempt never charges another block or another task.",
     ["schedules", "crash_points", "histories", "fault_sequences"],
     "all mixtures of failure kinds per attempt, all crash points, all retry limits from 0 up",
     "Tests use one failure kind at a time on the scheduler alone; the same failure reported twice (failure message, release message, connection loss) only meets in certain interleavings.",
     [SCH, SRV, BB, CL],
     [("retry counter", SCH + ":release_block"), ("valid return check", BB + ":is_valid_return"), ("failure then release", CL + ":acquire_block")],
     ["process function calls per block", "task states"])

prop("C05", "A failed block orphans exactly its dependents and nothing else",
     "When blocks fail for good, exactly the blocks that transitively depend on a failed block are reported as orphaned, each counted once however many failed ancestors it has, and none of them is ever processed. "
     "All other blocks are still processed to completion and the run still ends.",
     ["schedules", "configurations", "histories", "fault_sequences"],
     "all sets of failing blocks in all task graphs, all orders in which successes and failures are reported",
     "Tests fail one block in a one-dimensional chain; double counting needs several failures with shared descendants reported in particular orders.",
     [RS, SCH, TS],
     [("boundary propagation", RS + ":mark_failure"), ("orphan counting", SCH + ":release_block")],
     ["task states returned by a run", "process function calls"])

prop("C06", "A run always ends once faults stop",
     "Provided workers keep asking for blocks and every processing attempt ends, a blockwise run returns within a bounded time after the last fault, for any mixture of completed, skipped, failed and orphaned blocks and of tasks in any order. "
     "No interleaving of requests, results, delayed requests and worker replacement leaves it waiting for ever.",
     ["schedules", "crash_points", "configurations", "fault_sequences"],
     "all task graphs, task orders, request/result interleavings, worker crashes, skipped tasks",
     "A hang needs a specific arrangement of pending requests, skipped tasks or lost workers; the tests' timeouts only notice hangs in the schedules they happen to take.",
     [SRV, SCH, TWP, WP],
     [("delayed requests", SRV + ":_get_client_message"), ("recruiting", SRV + ":_recruit_workers"), ("completion test", SRV + ":_check_all_tasks_completed")],
     ["return of run_blockwise in simulated time"])

prop("C07", "A block has one owner; late, foreign or repeated returns change nothing",
     "At any time a block is assigned to at most one worker connection, and each assignment ends exactly once: returned by the connection that owns it, or declared lost because that connection closed or (if a processing timeout is set) it is overdue. "
     "A block returned by any other connection, returned again, or returned after it was declared lost has no effect on any state. "
     "A block that is neither returned nor lost is never reclaimed.",
     ["schedules", "histories", "fault_sequences"],
     "all histories of sending, returning, duplicate returning, closing and clock movement, over any set of blocks and connections",
     "No test returns a block twice, late or from the wrong worker; these are race outcomes.",
     [BB, SRV],
     [("sent-block log", BB), ("safe release", SRV + ":_safe_release_block")],
     ["scheduler releases per hand-out", "lost blocks"])

prop("C08", "Crashed workers are replaced; the pool never exceeds its size",
     "While a task has unfinished blocks, every worker process that dies abnormally is replaced within bounded time, so the task keeps its requested number of workers. "
     "At no time are more than the requested number of worker processes of a task alive, and workers that exit normally are not replaced.",
     ["schedules", "crash_points", "fault_sequences"],
     "all crash points and exit codes, several crashes at once, crashes that coincide with failure-triggered restarts",
     "Tests crash one worker of one task once, and count spawned workers for a single schedule.",
     [WP, TWP, WK],
     [("reaping", WP + ":reap_dead_workers"), ("replacement", TWP + ":check_worker_health"), ("restart after failures", TWP + ":on_block_failure")],
     ["alive worker processes over time"])

prop("C09", "The reported outcome of a run is the truth",
     "A run with multiprocessing returns true if and only if every block of every task was completed, and false otherwise, including when it was interrupted. "
     "The per-task numbers of completed, skipped, failed and orphaned blocks that are returned, and those printed in the execution summary, equal what actually happened to the blocks; "
     "the summary lists every reported failure of a block with its worker, exception and log files, and progress bars show the numbers of blocks as of their last update and how a task ended.",
     ["schedules", "crash_points", "histories", "fault_sequences"],
     "all outcomes of all blocks, all interleavings, interruption at any time",
     "No test compares the returned or printed outcome with what the process functions did under failures, skips, crashes or interruption.",
     [CV, SRV, SCH, TS, CLM],
     [("result computation", CV + ":_run_blockwise"), ("summary", CLM + ":on_server_exit")],
     ["return value", "returned task states", "printed summary"])

prop("C10", "Finished work is skipped, and an aborted run can be resumed",
     "A block for which the task's check function reports completion is never processed, counts as completed and skipped, and satisfies the blocks that depend on it; a check that raises counts as not completed. "
     "If a run is stopped or crashes at any point and is started again with a check function backed by durable completion marks, the second run completes, processes no block that was already marked, and together both runs complete every block.",
     ["schedules", "crash_points", "histories", "fault_sequences"],
     "all subsets of already-done blocks, all crash points of the whole system, checks that raise or change their mind",
     "Tests skip with a constant check function; none restarts after a crash at an arbitrary point.",
     [SCH, SRV, SS],
     [("pre-check and skip", SCH + ":acquire_block"), ("recruit after all skipped", SRV + ":_handle_acquire_block")],
     ["process function calls over both runs", "task states"])

prop("C11", "Nothing is left behind when a run ends",
     "Whenever a blockwise run ends - normally, because it was interrupted or asked to stop, or by raising an error - no worker process it started is still running and all its client connections are closed when control returns to the caller. "
     "An interrupted run ends within bounded time and starts no worker after its teardown began.",
     ["schedules", "crash_points", "fault_sequences"],
     "all ways of ending, at any moment of the run, with workers in any state",
     "One test checks that workers are gone after a normal run; ends by error, interrupt, or failure to start a worker are not tested.",
     [SRV, WP, TWP, CV, TSV],
     [("teardown", SRV + ":run_blockwise"), ("pool stop", WP + ":stop"), ("interrupt", CV + ":run_blockwise")],
     ["alive processes and open connections at return"])

prop("C12", "Errors of workers are never swallowed",
     "If a worker's own code (outside the processing of a block) raises an exception, the run ends within bounded time by raising that exception to the caller (or one that describes it, if it cannot be transported between processes), unless all blocks were already finished by then. "
     "It never hangs, and never reports success for blocks that were not processed.",
     ["schedules", "configurations", "fault_sequences"],
     "all kinds of exceptions (including ones that do not survive serialisation), any worker, any moment, any other traffic at that moment",
     "No test lets a spawn function raise.",
     [WK, WP, TWP, SRV, CV],
     [("error queue", WK + ":_spawn_wrapper"), ("propagation", WP + ":check_for_errors")],
     ["exception or result of run_blockwise"])

prop("C13", "Messages arrive in order, once, and intact",
     "On every client-server connection, in both directions, the messages received are exactly the messages sent, in the order sent, each once and with the content it had when it was sent, whatever their size (within the 100 MB the transport buffers) and number and however the network splits, delays or stalls the bytes, with any number of clients at the same time. "
     "If a connection breaks, the messages received are a prefix of the messages sent, and other connections are not affected.",
     ["schedules", "inputs", "fault_sequences"],
     "all message sequences and sizes, all segmentations and delays, connection breaks at any byte",
     "The only test sends one small message each way over loopback.",
     [TST, TC, TSV, IOL, D + "tcp/tcp_message.py"],
     [("length-prefixed framing", TST), ("receive loops", TC + ":_receive")],
     ["messages returned by the client and server message queues"])

prop("C14", "Disconnects are clean and a lost server never leaves a client hanging",
     "A graceful disconnect of a client returns only after every message it sent before has reached the server, and from then on sending or receiving on that client is refused. "
     "If the server goes away (also by being killed, leaving its workers behind) or its connection breaks at any moment, a client that waits for a message or for a block is released within bounded time: waiting for a block yields no block, and other calls raise a connection error. "
     "Asking for a message with a timeout returns no later than the timeout allows.",
     ["schedules", "crash_points", "fault_sequences"],
     "all moments of disconnect and connection loss relative to requests, replies and internal hand-offs between threads",
     "The one TCP test disconnects an idle connection; loss while a call is in progress is a race.",
     [TC, TST, TSV, CL],
     [("disconnect handshake", TC + ":disconnect"), ("acquire on closed stream", CL + ":acquire_block")],
     ["outcome and simulated duration of client calls"])

prop("C15", "Serial and parallel execution have the same outcome",
     "For the same tasks and the same per-block behaviour (each attempt succeeds or marks its block as failed), running without multiprocessing and running with it give the same per-task numbers of completed, skipped, failed and orphaned blocks, and process the same blocks; both respect dependencies and retry limits. "
     "This includes tasks whose blocks are all skipped and blocks that fail first and succeed on a retry.",
     ["schedules", "configurations", "histories"],
     "all task graphs, all per-block outcome histories, all parallel schedules",
     "The serial mode is exercised once with a task that cannot fail.",
     [SS, SRV, SCH],
     [("serial loop", SS), ("parallel loop", SRV + ":_event_loop")],
     ["task states and process function calls of both modes"])

prop("C16", "The outcome of processing a block is what gets reported",
     "A block counts as succeeded only if its processing returned normally without marking the block as failed; if it raised, was interrupted, or marked the block failed, that attempt counts as failed. "
     "For an attempt that raised, observers are told the block, the worker and the exception exactly once per attempt, whatever the exception's type, and one worker's failing block never aborts the run.",
     ["schedules", "inputs", "histories", "fault_sequences"],
     "all ways processing can end, exception types (including custom ones that cannot be rebuilt from their serialised form), message timing",
     "Tests use built-in exceptions at most; the effect of the exception's type and of message timing is not explored.",
     [CL, SRV, D + "messages/block_failed.py"],
     [("outcome mapping", CL + ":acquire_block"), ("failure message", SRV + ":_handle_client_exception")],
     ["observer notifications", "task states", "process function calls"])

prop("C17", "Block accounting always adds up",
     "At every moment a task's state is visible to an observer or to the caller, each of its counts is non-negative and ready + processing + pending + completed + failed + orphaned equals the number of blocks of the task. "
     "The processing count equals the number of blocks handed out and not yet resolved, the ready count the number of other unfinished blocks whose dependencies are all completed; completed, skipped, failed and orphaned never decrease; skipped never exceeds completed.",
     ["schedules", "histories", "configurations", "fault_sequences"],
     "every observation point in every run",
     "Tests look at some counts at the end of short scripted sequences.",
     [TS, SCH, SRV, RS],
     [("counter updates", SCH), ("derived pending count", TS)],
     ["task state in observer callbacks", "task state after each scheduler call"])

prop("C18", "Observers and start-up callbacks see each task's life cycle correctly",
     "For every task that gets any block to process, observers are told that it started once, before any of its blocks is handed out, and (with multiprocessing) its start-up callback is run exactly once, before any of its workers starts; every finished task is reported done exactly once, after its last block is resolved. "
     "Every hand-out and every resolution of a handed-out block is reported once, after it took effect, and the end of the run is reported exactly once, last, however the run ends.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings, crashes, retries, skipped tasks and ways of ending",
     "No test registers an observer.",
     [SRV, SO, SS],
     [("notifications", SO), ("task start", SRV + ":_recruit_workers"), ("task done", SRV + ":_check_all_tasks_completed")],
     ["sequence of observer notifications"])

prop("C19", "A worker that keeps failing blocks is restarted, others are left alone",
     "A worker process whose blocks have raised more than three times since it started is terminated and replaced by a fresh worker with a new id, within bounded time while the run goes on. "
     "A worker that has not exceeded this number and has not died is never terminated before the run ends.",
     ["schedules", "histories", "fault_sequences"],
     "all distributions of failing blocks over workers and tasks, all interleavings with crashes",
     "No test lets the same worker fail repeatedly.",
     [TWP, WP, SRV],
     [("failure counts", TWP + ":on_block_failure")],
     ["terminations and starts of worker processes"])

prop("C20", "Resizing a worker pool is safe from any thread",
     "When several threads set the size of a worker pool while workers crash, exit and are reaped, the pool settles on the size set last: that many workers are held, every process the pool started and no longer holds has been stopped, and no two workers ever have the same id. "
     "Shrinking stops the youngest workers, growing never stops any, and stopping the pool leaves no process alive.",
     ["schedules", "crash_points", "histories"],
     "all interleavings of concurrent resize, stop and reap calls and of worker deaths",
     "Pool tests are single-threaded with mocked processes.",
     [WP, WK],
     [("pool lock", WP + ":set_num_workers"), ("shared id counter", WK + ":get_next_id")],
     ["worker processes alive, pool contents, ids"])

prop("C21", "Available work is handed out without needless waiting",
     "A worker waiting for a block receives one within bounded time whenever a block of its task is ready, whatever other tasks and workers are waiting for. "
     "Blocks that depend on nothing unfinished are available at the same time: in a task without read/write conflicts and without upstream tasks, as many blocks run at once as there are workers.",
     ["schedules", "configurations", "fault_sequences"],
     "all task graphs and request orders; processing of arbitrary length in other workers and tasks",
     "Tests finish whether or not blocks run in parallel.",
     [SRV, SCH, DG, PQ],
     [("delayed requests", SRV + ":_get_client_message"), ("ready queue", PQ), ("levels", DG)],
     ["set of blocks running at the same time"])

prop("C22", "A server gets a usable address or fails cleanly",
     "Creating a server yields an address that clients can connect to and are answered at, whichever thread it is created in and whatever servers the process created before: failing attempts to get a port are retried up to the documented limit and then reported as having no free port, an auto-detected address is used if it works, and the loopback address if it does not. "
     "An explicitly given host is used as is, and no probing socket stays open.",
     ["fault_sequences", "configurations", "schedules"],
     "all sequences of failing socket calls (creation, bind, listen, connect, accept, receive), with explicit or detected host",
     "Tests run on one healthy machine; socket failures cannot be provoked there.",
     [TSV],
     [("port search", TSV + ":__init__"), ("address validation", TSV + ":_validate_address")],
     ["address of the created server", "open sockets"])

prop("C23", "Every worker runs as itself: own id, own task, own logs",
     "Each worker process sees the server address and the task it was started for, and a worker id no other worker of the run has; it is given only blocks of its own task. "
     "What a worker prints goes to its own log files, named after its task and id, and never to another worker's files; "
     "no worker fails to start because others set up their logs at the same time.",
     ["schedules", "configurations", "crash_points"],
     "all numbers of tasks, workers and replacements, all interleavings of their start-up",
     "Tests start few workers of one task and do not look at the environment or log of each.",
     [WK, WP, CTX, LOG, SRV],
     [("context through environment", WK + ":_spawn_wrapper"), ("log redirect", LOG + ":redirect_stdouterr")],
     ["worker environment", "log files", "blocks per worker"])

prop("P90", "Growing a region to the block grid covers it with whole blocks",
     "Expanding a total or write region to the block grid yields the smallest region that contains it and is tiled by whole blocks.",
     ["inputs"], "all regions, block sizes and offsets",
     "Tests sample no such inputs.",
     [D + "blocks.py"], [("grid expansion", D + "blocks.py")], ["returned region"])

prop("P91", "Block ids are unique within a task's tiling",
     "Two different blocks of the same task's tiling never have the same id, and the same block always has the same id.",
     ["inputs"], "all tilings",
     "Tests sample few tilings.",
     [BLK], [("cantor number of the block index", BLK)], ["block ids"])

if __name__ == "__main__":
    out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
    out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
    print(len(P), "properties")
