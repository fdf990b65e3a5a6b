From b9f61fe985e81c0d866f78374fbaa5c17d438e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:11 +0000
Subject: [PATCH 01/38] fix: find all downstream blocks for asymmetric read
 contexts

---
 daisy/dependency_graph.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index 9d38bdb..a7b63eb 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -504,9 +504,12 @@ class BlockwiseDependencyGraph:
             # if we want to get blocks whose read_roi overlaps with sub_roi
             # simply grow the sub_roi by the block context. That way we
             # only need to check if a blocks read_roi overlaps with sub_roi.
-            # This is the same behavior as when we want write_roi overlap
+            # This is the same behavior as when we want write_roi overlap.
+            # A block reads upper context beyond the end of its write_roi, so
+            # it is the lower side of sub_roi that grows by the upper context
+            # (and vice versa).
             sub_roi = sub_roi.grow(
-                self.read_write_context[0], self.read_write_context[1]
+                self.read_write_context[1], self.read_write_context[0]
             )
 
         # TODO: handle unsatisfiable sub_rois
-- 
2.43.0


From 9d8759e0c1e74493e4b3c0b2e5a25c66d561b2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:11 +0000
Subject: [PATCH 02/38] fix: blocks that do not overlap an upstream task have
 no upstream blocks there

---
 daisy/dependency_graph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index a7b63eb..d433e8c 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -512,11 +512,12 @@ class BlockwiseDependencyGraph:
                 self.read_write_context[1], self.read_write_context[0]
             )
 
-        # TODO: handle unsatisfiable sub_rois
-        # i.e. sub_roi is outside of *total_write_roi
-        # after accounting for padding
         sub_roi = sub_roi.intersect(self.total_write_roi)
 
+        if sub_roi.empty:
+            # no block writes to (or, if read_roi, reads from) the sub_roi
+            return []
+
         # get sub_roi relative to the write roi
         begin = sub_roi.begin - self.total_write_roi.offset
         end = sub_roi.end - self.total_write_roi.offset
-- 
2.43.0


From c83d3ef912599cc8f3c2c77e524fa8d364718f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:17 +0000
Subject: [PATCH 03/38] fix: dependencies on the overhanging part of upstream
 blocks

---
 daisy/dependency_graph.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index d433e8c..0e8bc14 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -512,7 +512,14 @@ class BlockwiseDependencyGraph:
                 self.read_write_context[1], self.read_write_context[0]
             )
 
-        sub_roi = sub_roi.intersect(self.total_write_roi)
+        # region written to by all blocks, overhanging blocks included
+        covered_roi = self.total_write_roi
+        if self.fit == "overhang":
+            covered_roi = covered_roi.grow(
+                0, -covered_roi.shape % self.block_write_roi.shape
+            )
+
+        sub_roi = sub_roi.intersect(covered_roi)
 
         if sub_roi.empty:
             # no block writes to (or, if read_roi, reads from) the sub_roi
-- 
2.43.0


From 3e3886bf27d8abedaec16c06fef9c3ade0781f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:27 +0000
Subject: [PATCH 04/38] fix: tasks with read/write conflicts may have no blocks
 at all

---
 daisy/dependency_graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index 0e8bc14..44c9a29 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -177,6 +177,8 @@ class BlockwiseDependencyGraph:
         return fit_block
 
     def num_roots(self):
+        if self.num_levels == 0:
+            return 0
         return self._num_level_blocks(0)
 
     def _num_level_blocks(self, level):
@@ -222,6 +224,8 @@ class BlockwiseDependencyGraph:
                 raise RuntimeError("Unreachable!")
 
     def root_gen(self):
+        if self.num_levels == 0:
+            return
         blocks = self.level_blocks(level=0)
         for block in blocks:
             yield self.fit_block(block)
-- 
2.43.0


From edf21f3f5772ed205ea644f598147e8302bac6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:18 +0000
Subject: [PATCH 05/38] fix: schedule blocks of downstream tasks that read
 nothing from upstream

---
 daisy/dependency_graph.py | 47 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index 44c9a29..03f848b 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -630,11 +630,56 @@ class DependencyGraph:
 
     def roots(self):
         root_tasks = self.root_tasks()
-        return {
+        roots = {
             task_id: (self.num_roots(task_id), self.root_gen(task_id))
             for task_id in root_tasks
         }
 
+        # blocks of other tasks are roots as well if there is nothing upstream
+        # that they read from (nothing else would ever make them ready)
+        for task_id in self.task_ids:
+            if task_id in roots or self.__all_read_upstream(task_id):
+                continue
+            blocks = [
+                block
+                for block in self.root_gen(task_id)
+                if len(self.upstream(block)) == 0
+            ]
+            if len(blocks) > 0:
+                roots[task_id] = (len(blocks), iter(blocks))
+
+        return roots
+
+    def __all_read_upstream(self, task_id):
+        """Quick test whether every block of a task reads from what one of its
+        upstream tasks writes, by looking at the first and last block only."""
+
+        graph = self.task_dependency_graphs[task_id]
+        first_end = graph.total_read_roi.begin + graph.block_read_roi.shape
+        if graph.fit == "shrink":
+            # the first block might be smaller than that
+            first_end = Coordinate(
+                min(a, b) for a, b in zip(first_end, graph.total_read_roi.end)
+            )
+        last_begin = graph.total_write_roi.end - graph.read_write_context[0] - 1
+
+        for upstream_task in self.upstream_tasks[task_id]:
+            upstream_graph = self.task_dependency_graphs[upstream_task]
+            written = upstream_graph.total_write_roi
+            if upstream_graph.fit == "valid":
+                written = written.grow(
+                    0, -(written.shape % upstream_graph.block_write_roi.shape)
+                )
+            if all(
+                wb < fe and we > lb and wb < we
+                for wb, we, fe, lb in zip(
+                    written.begin, written.end, first_end, last_begin
+                )
+            ):
+                return True
+
+        return False
+
     def __add_task(self, task):
         if task.task_id not in self.task_map:
             self.task_map[task.task_id] = task
-- 
2.43.0


From 8190e5e21200be35c1e5fbd38875e95cedca5942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:22 +0000
Subject: [PATCH 06/38] fix: delayed requests of one task no longer block those
 of other tasks

---
 daisy/server.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/daisy/server.py b/daisy/server.py
index 011c38f..8a130cd 100644
--- a/daisy/server.py
+++ b/daisy/server.py
@@ -81,20 +81,23 @@ class Server(ServerObservee):
                 last_time = current_time
 
     def _get_client_message(self):
-        try:
-            message = self.tcp_server.get_message(timeout=0.1)
-        except StreamClosedError:
-            return
-
-        if message is not None:
-            return message
-
         for task_id, requests in self.pending_requests.items():
-            if self.pending_requests[task_id].empty():
+            if requests.empty():
+                continue
+
+            # leave requests that would have to be delayed again, they must not
+            # keep requests of other tasks from being answered
+            task_state = self.scheduler.task_states[task_id]
+            if task_state.ready_count == 0 and task_state.pending_count > 0:
                 continue
 
             logger.debug("Answering delayed request for task %s", task_id)
-            return self.pending_requests[task_id].get()
+            return requests.get()
+
+        try:
+            return self.tcp_server.get_message(timeout=0.1)
+        except StreamClosedError:
+            return
 
     def _send_client_message(self, stream, message):
         try:
-- 
2.43.0


From b21843b95fcded4bdff3be282f05282e6078f9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:55 +0000
Subject: [PATCH 07/38] fix: run_blockwise returns False if blocks failed or
 were orphaned

---
 daisy/convenience.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/daisy/convenience.py b/daisy/convenience.py
index b668f2b..4ddfb4e 100644
--- a/daisy/convenience.py
+++ b/daisy/convenience.py
@@ -57,4 +57,7 @@ def _run_blockwise(tasks, stop_event):
     server = Server(stop_event=stop_event)
     cl_monitor = CLMonitor(server)  # noqa
     task_states = server.run_blockwise(tasks)
-    return all(task_state.is_done() for task_state in task_states.values())
+    return all(
+        task_state.completed_count == task_state.total_block_count
+        for task_state in task_states.values()
+    )
-- 
2.43.0


From 3dc05cd3a316565f7ce23253e103685f63cf4d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:49 +0000
Subject: [PATCH 08/38] fix: keep idle workers while blocks of their task may
 have to be retried

---
 daisy/server.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/daisy/server.py b/daisy/server.py
index 8a130cd..e37c155 100644
--- a/daisy/server.py
+++ b/daisy/server.py
@@ -88,7 +88,7 @@ class Server(ServerObservee):
             # leave requests that would have to be delayed again, they must not
             # keep requests of other tasks from being answered
             task_state = self.scheduler.task_states[task_id]
-            if task_state.ready_count == 0 and task_state.pending_count > 0:
+            if task_state.ready_count == 0 and self._expects_blocks(task_state):
                 continue
 
             logger.debug("Answering delayed request for task %s", task_id)
@@ -137,7 +137,7 @@ class Server(ServerObservee):
         if block is None:
             assert task_state.ready_count == 0
 
-            if task_state.pending_count == 0:
+            if not self._expects_blocks(task_state):
                 logger.debug(
                     "No more pending blocks for task %s, terminating client",
                     message.task_id,
@@ -154,7 +154,8 @@ class Server(ServerObservee):
                 return
 
             # there are more blocks for this task, but none of them has its
-            # dependencies fullfilled
+            # dependencies fullfilled (or they are being processed and might
+            # have to be retried)
             logger.debug(
                 "No currently ready blocks for task %s, delaying request",
                 message.task_id,
@@ -170,6 +171,13 @@ class Server(ServerObservee):
 
             self.notify_acquire_block(message.task_id, task_state)
 
+    def _expects_blocks(self, task_state):
+        """Whether blocks of a task can still become ready: blocks that wait
+        for others, or that are being processed and might have to be
+        retried."""
+
+        return task_state.pending_count > 0 or task_state.processing_count > 0
+
     def _handle_release_block(self, message):
         logger.debug("Client releases block %s", message.block)
         self._safe_release_block(message.block, message.stream)
-- 
2.43.0


From 344aeb9c36a353e13fd00f217c2bb97f5d473af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:55 +0000
Subject: [PATCH 09/38] fix: do not hand out blocks to clients that are gone

---
 daisy/server.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/daisy/server.py b/daisy/server.py
index e37c155..4dc3799 100644
--- a/daisy/server.py
+++ b/daisy/server.py
@@ -128,6 +128,12 @@ class Server(ServerObservee):
     def _handle_acquire_block(self, message):
         logger.debug("Received block request for task %s", message.task_id)
 
+        if message.stream.closed():
+            # the client died in the meantime, a block sent to it would only
+            # be lost (and count as a failed attempt)
+            logger.debug("Client %s is gone, dropping its request", message.stream)
+            return
+
         task_state = self.scheduler.task_states[message.task_id]
 
         logger.debug("Current task state: %s", task_state)
-- 
2.43.0


From b51105eada461d3b14958804fdfa3483d494bab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:08 +0000
Subject: [PATCH 10/38] fix: count blocks with several failed ancestors as
 orphaned only once

---
 daisy/ready_surface.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/daisy/ready_surface.py b/daisy/ready_surface.py
index e014d30..deac80e 100644
--- a/daisy/ready_surface.py
+++ b/daisy/ready_surface.py
@@ -26,6 +26,10 @@ class ReadySurface:
         self.surface = set()
         self.boundary = set()
 
+        # all orphans reported so far: nodes leave the boundary again and might
+        # be found once more, downstream of another failure
+        self.orphans = set()
+
     def mark_success(self, node):
         """
         Update surface and boundary to account for a `node` marked as a
@@ -131,6 +135,9 @@ class ReadySurface:
         if len(list(self.upstream(node))) == 0:
             self.boundary.remove(node)
 
+        orphans -= self.orphans
+        self.orphans |= orphans
+
         return orphans
 
     def __add_to_boundary(self, node):
-- 
2.43.0


From 813bad62d981a9265996886f8b8d927707946b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:00 +0000
Subject: [PATCH 11/38] fix: stop the workers already running if another one
 cannot be started

---
 daisy/server.py      |  3 +--
 daisy/worker_pool.py | 10 +++++-----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/daisy/server.py b/daisy/server.py
index 4dc3799..ed14b81 100644
--- a/daisy/server.py
+++ b/daisy/server.py
@@ -54,9 +54,8 @@ class Server(ServerObservee):
             task.task_id: Queue() for task in tasks
         }
 
-        self._recruit_workers()
-
         try:
+            self._recruit_workers()
             self._event_loop()
         finally:
             logger.debug("Stopping worker pools...")
diff --git a/daisy/worker_pool.py b/daisy/worker_pool.py
index d400dbb..04eca36 100644
--- a/daisy/worker_pool.py
+++ b/daisy/worker_pool.py
@@ -137,11 +137,11 @@ class WorkerPool:
 
     def _start_workers(self, n):
         logger.debug("starting %d new workers", n)
-        new_workers = [
-            Worker(self.spawn_function, self.context, self.error_queue)
-            for _ in range(n)
-        ]
-        self.workers.update({worker.worker_id: worker for worker in new_workers})
+        for _ in range(n):
+            worker = Worker(self.spawn_function, self.context, self.error_queue)
+            # add workers one by one: if starting a worker fails, those started
+            # already must not be lost
+            self.workers[worker.worker_id] = worker
 
     def _stop_workers(self, n):
         logger.debug("stopping %d workers", n)
-- 
2.43.0


From cde2f351459920f12c46eba18afd728a87bfe668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:06 +0000
Subject: [PATCH 12/38] fix: report failing blocks whose exception can not be
 pickled

---
 daisy/messages/message.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/daisy/messages/message.py b/daisy/messages/message.py
index cbc362c..2479519 100644
--- a/daisy/messages/message.py
+++ b/daisy/messages/message.py
@@ -1,9 +1,21 @@
 from daisy.tcp import TCPMessage
 import logging
+import pickle
 
 logger = logging.getLogger(__name__)
 
 
+def picklable_exception(exception):
+    """Returns the given exception if it can be sent to another process, or
+    otherwise a description of it that can be sent."""
+
+    try:
+        pickle.loads(pickle.dumps(exception))
+        return exception
+    except Exception:
+        return RuntimeError(repr(exception))
+
+
 class Message(TCPMessage):
     pass
 
@@ -18,4 +30,4 @@ class ExceptionMessage(Message):
     """
 
     def __init__(self, exception):
-        self.exception = exception
+        self.exception = picklable_exception(exception)
-- 
2.43.0


From c344cd19493dbfb23535a7bd974efe1ad843b50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:13 +0000
Subject: [PATCH 13/38] fix: propagate exceptions of workers that can not be
 pickled

---
 daisy/worker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/daisy/worker.py b/daisy/worker.py
index 6e48529..dce52f0 100644
--- a/daisy/worker.py
+++ b/daisy/worker.py
@@ -1,4 +1,5 @@
 from .context import Context
+from .messages.message import picklable_exception
 import daisy.logging as daisy_logging
 import logging
 import multiprocessing
@@ -103,7 +104,7 @@ class Worker:
             logger.error("%s received exception: %s", self, e)
             if self.error_queue:
                 try:
-                    self.error_queue.put(e, timeout=1)
+                    self.error_queue.put(picklable_exception(e), timeout=1)
                 except queue.Full:
                     logger.error(
                         "%s failed to forward exception, error queue is full", self
-- 
2.43.0


From 8a2d9026b3a91e4866ac5e89d2318e0a4df94463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:25 +0000
Subject: [PATCH 14/38] fix: asking whether a stream is closed while it closes
 no longer raises

---
 daisy/tcp/tcp_stream.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/daisy/tcp/tcp_stream.py b/daisy/tcp/tcp_stream.py
index 767f834..9f0b315 100644
--- a/daisy/tcp/tcp_stream.py
+++ b/daisy/tcp/tcp_stream.py
@@ -57,9 +57,11 @@ class TCPStream(IOLooper):
 
     def closed(self):
         """True if this stream was closed."""
-        if self.stream is None:
+        # self.stream can become None at any time (set by the IO loop)
+        stream = self.stream
+        if stream is None:
             return True
-        return self.stream.closed()
+        return stream.closed()
 
     async def _send_message(self, message):
         if self.stream is None:
-- 
2.43.0


From 17ef3fa378db3008f3bed384bb167cab6709a9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:31 +0000
Subject: [PATCH 15/38] fix: do not replace failing workers twice that died in
 the meantime

---
 daisy/task_worker_pools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/daisy/task_worker_pools.py b/daisy/task_worker_pools.py
index e37b90a..6ce7610 100644
--- a/daisy/task_worker_pools.py
+++ b/daisy/task_worker_pools.py
@@ -67,5 +67,7 @@ class TaskWorkerPools(ServerObserver):
 
             self.failure_counts[task_id][worker_id] = 0
             worker_pool = self.worker_pools[task_id]
-            worker_pool.stop(worker_id)
-            worker_pool.inc_num_workers(1)
+            if worker_id in worker_pool.workers:
+                worker_pool.stop(worker_id)
+                worker_pool.inc_num_workers(1)
+            # otherwise, the worker died and was replaced already
-- 
2.43.0


From ccf29205b0b4be988d99d1db2db2ff099c1fa796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:33 +0000
Subject: [PATCH 16/38] fix: sending while the connection gets lost raises a
 connection error

TCPClient.send_message() and disconnect() checked self.stream and used it
afterwards, although the IO loop sets it to None when the connection breaks:
AttributeError instead of NotConnected.
---
 daisy/tcp/tcp_client.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/daisy/tcp/tcp_client.py b/daisy/tcp/tcp_client.py
index e72f439..be98781 100644
--- a/daisy/tcp/tcp_client.py
+++ b/daisy/tcp/tcp_client.py
@@ -57,12 +57,14 @@ class TCPClient(IOLooper):
     def disconnect(self):
         """Gracefully close the connection to the server."""
 
-        if not self.connected():
+        # self.stream can become None at any time (set by the IO loop)
+        stream = self.stream
+        if stream is None:
             logger.warn("Called disconnect() on disconnected client")
             return
 
         logger.debug("Notifying server of disconnect...")
-        self.stream.send_message(NotifyClientDisconnect())
+        stream.send_message(NotifyClientDisconnect())
 
         while self.connected():
             time.sleep(0.1)
@@ -85,10 +87,12 @@ class TCPClient(IOLooper):
 
         self._check_for_errors()
 
-        if not self.connected():
+        # self.stream can become None at any time (set by the IO loop)
+        stream = self.stream
+        if stream is None:
             raise NotConnected()
 
-        self.stream.send_message(message)
+        stream.send_message(message)
 
     def get_message(self, timeout=None):
         """Get a message that was sent to this client.
-- 
2.43.0


From bafe6adb5d4fb20fac903067532b61bbab40c21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:33 +0000
Subject: [PATCH 17/38] fix: clients waiting for a message notice that the
 connection is lost

TCPClient.get_message() without a timeout waited forever if the server was lost
(or another thread disconnected) while it was waiting.
---
 daisy/tcp/tcp_client.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/daisy/tcp/tcp_client.py b/daisy/tcp/tcp_client.py
index be98781..3b49493 100644
--- a/daisy/tcp/tcp_client.py
+++ b/daisy/tcp/tcp_client.py
@@ -112,11 +112,20 @@ class TCPClient(IOLooper):
             raise NotConnected()
 
         try:
-            return self.message_queue.get(block=True, timeout=timeout)
+            message = self.message_queue.get(block=True, timeout=timeout)
 
         except queue.Empty:
             return None
 
+        if message is None:
+            # the connection was closed while waiting for a message, tell also
+            # other waiting threads
+            self.message_queue.put(None)
+            self._check_for_errors()
+            raise NotConnected()
+
+        return message
+
     def _check_for_errors(self):
         try:
             exception = self.exception_queue.get(block=False)
@@ -154,6 +163,8 @@ class TCPClient(IOLooper):
                         pass
                     finally:
                         self.stream = None
+                        # wake up threads waiting for a message
+                        self.message_queue.put(None)
                     return
 
                 else:
@@ -168,4 +179,6 @@ class TCPClient(IOLooper):
                 finally:
                     # mark client as disconnected
                     self.stream = None
+                    # wake up threads waiting for a message
+                    self.message_queue.put(None)
                 return
-- 
2.43.0


From c5456e630205adb6e6f6679c14de434c2a317093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:33 +0000
Subject: [PATCH 18/38] fix: acquire_block() yields no block if the server is
 gone already

Only a connection that broke while waiting for the answer was handled. If it broke
before the request was sent, acquire_block() raised instead.
---
 daisy/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/daisy/client.py b/daisy/client.py
index 3fa6fa0..e150a20 100644
--- a/daisy/client.py
+++ b/daisy/client.py
@@ -11,6 +11,7 @@ from .messages import (
 )
 from contextlib import contextmanager
 from daisy.tcp import TCPClient, StreamClosedError
+from daisy.tcp.exceptions import NotConnected
 import logging
 
 logger = logging.getLogger(__name__)
@@ -69,12 +70,12 @@ class Client:
     @contextmanager
     def acquire_block(self):
         """API for client to get a new block."""
-        self.tcp_client.send_message(AcquireBlock(self.task_id))
         message = None
         try:
+            self.tcp_client.send_message(AcquireBlock(self.task_id))
             while message is None:
                 message = self.tcp_client.get_message(timeout=0.1)
-        except StreamClosedError:
+        except (StreamClosedError, NotConnected):
             logger.debug("TCP stream was closed, server is probably down")
             yield
             return
-- 
2.43.0


From 15864412ee4c099ee6358a9df59c2a84803c975d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:33 +0000
Subject: [PATCH 19/38] fix: treat any error while reading from a connection as
 a closed stream

tornado raises errors other than a connection reset (e.g., ETIMEDOUT) as they are if
they occur right when a read starts. The server then aborted the whole run because
the connection to one client broke.
---
 daisy/tcp/tcp_stream.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/daisy/tcp/tcp_stream.py b/daisy/tcp/tcp_stream.py
index 9f0b315..097fcfb 100644
--- a/daisy/tcp/tcp_stream.py
+++ b/daisy/tcp/tcp_stream.py
@@ -95,7 +95,10 @@ class TCPStream(IOLooper):
             # assert size < 2**16  # TODO: parameterize max message size
             pickled_data = await self.stream.read_bytes(size)
 
-        except tornado.iostream.StreamClosedError:
+        except OSError:
+            # the connection was closed, or broke (tornado's StreamClosedError
+            # is an OSError; other errors are raised as they are if they occur
+            # right when starting to read)
             self.stream = None
             raise StreamClosedError(*self.address)
 
-- 
2.43.0


From 84fb0d67eb0a4e20f323f444ac5649c9b449675e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:12 +0000
Subject: [PATCH 20/38] fix: closing a stream while a message is being read is
 not an AttributeError

self.stream is set to None when sending fails or the stream gets closed, also between
reading the size and the content of a message.
---
 daisy/tcp/tcp_stream.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/daisy/tcp/tcp_stream.py b/daisy/tcp/tcp_stream.py
index 097fcfb..1ff4276 100644
--- a/daisy/tcp/tcp_stream.py
+++ b/daisy/tcp/tcp_stream.py
@@ -85,15 +85,18 @@ class TCPStream(IOLooper):
             self.stream = None
 
     async def _get_message(self):
-        if self.stream is None:
+        # self.stream can become None at any time (if sending fails or this
+        # stream gets closed)
+        stream = self.stream
+        if stream is None:
             raise StreamClosedError(*self.address)
 
         try:
-            size = await self.stream.read_bytes(4)
+            size = await stream.read_bytes(4)
             size = struct.unpack("I", size)[0]
             assert size < 2**64  # TODO: parameterize max message size
             # assert size < 2**16  # TODO: parameterize max message size
-            pickled_data = await self.stream.read_bytes(size)
+            pickled_data = await stream.read_bytes(size)
 
         except OSError:
             # the connection was closed, or broke (tornado's StreamClosedError
-- 
2.43.0


From c7c54dd59df05fb02af45f1e183266b453608bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:12 +0000
Subject: [PATCH 21/38] fix: messages are sent as they were when send_message()
 was called

Messages were pickled by the IO loop some time after send_message() returned. Changes the
caller made to the content in the meantime ended up in the message.
---
 daisy/tcp/tcp_stream.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/daisy/tcp/tcp_stream.py b/daisy/tcp/tcp_stream.py
index 1ff4276..30399e4 100644
--- a/daisy/tcp/tcp_stream.py
+++ b/daisy/tcp/tcp_stream.py
@@ -44,7 +44,11 @@ class TCPStream(IOLooper):
         if self.stream is None:
             raise StreamClosedError(*self.address)
 
-        self.ioloop.add_callback(self._send_message, message)
+        # pickle now, the caller might change the content of the message before
+        # the IO loop gets to send it
+        pickled_data = pickle.dumps(message)
+
+        self.ioloop.add_callback(self._send_message, pickled_data)
 
     def close(self):
         """Close this stream."""
@@ -63,11 +67,10 @@ class TCPStream(IOLooper):
             return True
         return stream.closed()
 
-    async def _send_message(self, message):
+    async def _send_message(self, pickled_data):
         if self.stream is None:
             logger.error("No TCPStream available, can't send message.")
 
-        pickled_data = pickle.dumps(message)
         message_size_bytes = struct.pack("I", len(pickled_data))
         message_bytes = message_size_bytes + pickled_data
 
-- 
2.43.0


From af814a49e72ec36f9af6c7bc58d6a4fc6177743e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:34 +0000
Subject: [PATCH 22/38] fix: blocks retried by the SerialServer do not keep
 their failed status

A block that was marked as failed once was never counted as successful by
the SerialServer, because its status was still FAILED in the next attempt.
---
 daisy/serial_server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/daisy/serial_server.py b/daisy/serial_server.py
index e241862..35308a4 100644
--- a/daisy/serial_server.py
+++ b/daisy/serial_server.py
@@ -43,6 +43,8 @@ class SerialServer(ServerObservee):
                 self.notify_acquire_block(
                     block.task_id, scheduler.task_states[block.task_id]
                 )
+                # the block might be a retry of a failed one
+                block.status = BlockStatus.PROCESSING
                 process_funcs[block.task_id](block)
                 if not block.status == BlockStatus.FAILED:
                     # unless explicitly set to failed, we assume the block is successful
-- 
2.43.0


From 7d0e06235b59f21c482bc833541dfdab6d516244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:30 +0000
Subject: [PATCH 23/38] fix: the SerialServer goes on after skipping all ready
 blocks

If all blocks that were ready had been skipped, the SerialServer stopped,
even if that made other blocks ready. Tasks that finished without processing
a block (all of them skipped or orphaned) were not reported as done.
---
 daisy/serial_server.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/daisy/serial_server.py b/daisy/serial_server.py
index 35308a4..f2c347e 100644
--- a/daisy/serial_server.py
+++ b/daisy/serial_server.py
@@ -24,6 +24,7 @@ class SerialServer(ServerObservee):
         process_funcs = {task.task_id: task.process_function for task in tasks}
 
         while True:
+            self._notify_tasks_done(scheduler, finished_tasks)
             ready_tasks = scheduler.get_ready_tasks()
             if finished_tasks == all_tasks:
                 break
@@ -34,7 +35,10 @@ class SerialServer(ServerObservee):
                     if block is not None:
                         break
                 if block is None:
-                    break
+                    if not ready_tasks:
+                        break
+                    # all ready blocks were skipped, others might be ready now
+                    continue
                 if block.task_id not in started_tasks:
                     self.notify_task_start(
                         block.task_id, scheduler.task_states[block.task_id]
@@ -55,16 +59,11 @@ class SerialServer(ServerObservee):
                     block.task_id, scheduler.task_states[block.task_id]
                 )
 
-                if scheduler.task_states[block.task_id].is_done():
-                    self.notify_task_done(
-                        block.task_id, scheduler.task_states[block.task_id]
-                    )
-                    finished_tasks.add(block.task_id)
-                    started_tasks.remove(block.task_id)
-                    del process_funcs[block.task_id]
-
-            if len(process_funcs) == 0:
-                break
-
         self.notify_server_exit()
         return scheduler.task_states
+
+    def _notify_tasks_done(self, scheduler, finished_tasks):
+        for task_id, task_state in scheduler.task_states.items():
+            if task_id not in finished_tasks and task_state.is_done():
+                self.notify_task_done(task_id, task_state)
+                finished_tasks.add(task_id)
-- 
2.43.0


From 487c6d397c523e42b732f08a52c10db91a4142d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:47 +0000
Subject: [PATCH 24/38] fix: workers do not keep the sockets of their server
 open

Forked workers inherit the listening socket and the accepted connections of
the server. If the server got killed, a worker that connected late ended up
in the backlog of its own copy of the listening socket, and waited for a block
forever.
---
 daisy/tcp/tcp_server.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/daisy/tcp/tcp_server.py b/daisy/tcp/tcp_server.py
index aee63e4..19235d8 100644
--- a/daisy/tcp/tcp_server.py
+++ b/daisy/tcp/tcp_server.py
@@ -3,12 +3,29 @@ from .internal_messages import AckClientDisconnect, NotifyClientDisconnect
 from .io_looper import IOLooper
 from .tcp_stream import TCPStream
 import logging
+import os
 import queue
 import socket
 import tornado.tcpserver
+import weakref
 
 logger = logging.getLogger(__name__)
 
+_servers: weakref.WeakSet = weakref.WeakSet()
+
+
+def _close_inherited_sockets():
+    """Close the sockets of all servers in a forked process (e.g., a worker).
+    Otherwise, the connections to a server stay open if it gets killed, for as
+    long as any of its workers is alive."""
+
+    for server in list(_servers):
+        server._close_sockets()
+
+
+if hasattr(os, "register_at_fork"):
+    os.register_at_fork(after_in_child=_close_inherited_sockets)
+
 
 class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
     """A TCP server to handle client-server communication through
@@ -41,6 +58,8 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
                         % self.max_port_tries
                     )
 
+        _servers.add(self)
+
         self.address = self._get_address(host)
 
     def get_message(self, timeout=None):
@@ -75,6 +94,15 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
             logger.debug("Closing stream %s", stream)
             stream.close()
 
+    def _close_sockets(self):
+        sockets = list(self._sockets.values())
+        for stream in list(self.client_streams):
+            iostream = stream.stream
+            sockets.append(iostream.socket if iostream is not None else None)
+        for sock in sockets:
+            if sock is not None:
+                sock.close()
+
     async def handle_stream(self, stream, address):
         """Overrides a function from tornado's TCPServer, and is called
         whenever there is a new IOStream from an incoming connection (not
-- 
2.43.0


From 5e81cab78f22ff97ddd5cebc95b3ab7cb790d99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:41 +0000
Subject: [PATCH 25/38] fix: blocks that timed out on a closed stream are lost
 only once

A block that was overdue and whose stream was closed was added to the list of
lost blocks twice, get_lost_blocks() then raised a KeyError.
---
 daisy/block_bookkeeper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daisy/block_bookkeeper.py b/daisy/block_bookkeeper.py
index 5b5ad67..dbb02a3 100644
--- a/daisy/block_bookkeeper.py
+++ b/daisy/block_bookkeeper.py
@@ -75,7 +75,7 @@ class BlockBookkeeper:
                 lost_block_ids.append(block_id)
 
             # did processing time out?
-            if self.processing_timeout is not None:
+            elif self.processing_timeout is not None:
                 if time.time() - log.time_sent > self.processing_timeout:
                     lost_block_ids.append(block_id)
 
-- 
2.43.0


From 611db2a7c4dd0fa85e357b7aad0edf66e3004f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:53 +0000
Subject: [PATCH 26/38] fix: retry to find a free port

The first failing attempt to listen on a port raised an AttributeError,
instead of trying again (and raising NoFreePort eventually).
---
 daisy/tcp/tcp_server.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/daisy/tcp/tcp_server.py b/daisy/tcp/tcp_server.py
index 19235d8..ad11c58 100644
--- a/daisy/tcp/tcp_server.py
+++ b/daisy/tcp/tcp_server.py
@@ -52,10 +52,9 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
                 break
 
             except OSError:
-                if i == self.max_port_tries - 1:
+                if i == max_port_tries - 1:
                     raise NoFreePort(
-                        "Could not find a free port after %d tries "
-                        % self.max_port_tries
+                        "Could not find a free port after %d tries " % max_port_tries
                     )
 
         _servers.add(self)
-- 
2.43.0


From 23e5a1dc736362cec582e2d39b3c1b0a364815d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:47 +0000
Subject: [PATCH 27/38] fix: disconnecting a client whose connection just got
 lost does not raise

---
 daisy/tcp/tcp_client.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/daisy/tcp/tcp_client.py b/daisy/tcp/tcp_client.py
index 3b49493..ea948da 100644
--- a/daisy/tcp/tcp_client.py
+++ b/daisy/tcp/tcp_client.py
@@ -1,4 +1,4 @@
-from .exceptions import NotConnected
+from .exceptions import NotConnected, StreamClosedError
 from .io_looper import IOLooper
 from .tcp_stream import TCPStream
 from .internal_messages import AckClientDisconnect, NotifyClientDisconnect
@@ -64,7 +64,11 @@ class TCPClient(IOLooper):
             return
 
         logger.debug("Notifying server of disconnect...")
-        stream.send_message(NotifyClientDisconnect())
+        try:
+            stream.send_message(NotifyClientDisconnect())
+        except StreamClosedError:
+            # the connection was lost just now
+            logger.debug("Server is gone already")
 
         while self.connected():
             time.sleep(0.1)
-- 
2.43.0


From 556d3fadafc9ca3d287a32a16a81ec40271aebe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:51 +0000
Subject: [PATCH 28/38] fix: do not swallow queue.Empty raised by a worker

---
 daisy/worker_pool.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/daisy/worker_pool.py b/daisy/worker_pool.py
index 04eca36..2fe48c4 100644
--- a/daisy/worker_pool.py
+++ b/daisy/worker_pool.py
@@ -97,10 +97,13 @@ class WorkerPool:
 
         try:
             error = self.error_queue.get(block=False)
-            logger.debug("Got error: %s", error)
-            raise error
         except queue.Empty:
-            pass
+            return
+
+        # not in the try block above, the error of a worker might be any
+        # exception (e.g., queue.Empty)
+        logger.debug("Got error: %s", error)
+        raise error
 
     def reap_dead_workers(self):
         """Detect worker processes that have exited. Dead workers
-- 
2.43.0


From 1456cec6c0c80eec67782dfb03d7daae70af806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:47 +0000
Subject: [PATCH 29/38] fix: report the end of a serial run also if it raises

---
 daisy/serial_server.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/daisy/serial_server.py b/daisy/serial_server.py
index f2c347e..576ae31 100644
--- a/daisy/serial_server.py
+++ b/daisy/serial_server.py
@@ -13,6 +13,12 @@ class SerialServer(ServerObservee):
         super().__init__()
 
     def run_blockwise(self, tasks: list[Task], scheduler=None) -> dict[str, TaskState]:
+        try:
+            return self._run_blockwise(tasks, scheduler)
+        finally:
+            self.notify_server_exit()
+
+    def _run_blockwise(self, tasks, scheduler):
         if scheduler is None:
             scheduler = Scheduler(tasks)
         else:
@@ -59,7 +65,6 @@ class SerialServer(ServerObservee):
                     block.task_id, scheduler.task_states[block.task_id]
                 )
 
-        self.notify_server_exit()
         return scheduler.task_states
 
     def _notify_tasks_done(self, scheduler, finished_tasks):
-- 
2.43.0


From 5a55272719493dd9825dc4341332f634a827529f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:47 +0000
Subject: [PATCH 30/38] fix: measure time with a monotonic clock in the event
 loop

---
 daisy/server.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/daisy/server.py b/daisy/server.py
index ed14b81..25c364a 100644
--- a/daisy/server.py
+++ b/daisy/server.py
@@ -1,4 +1,4 @@
-from time import time
+from time import monotonic
 from .block import BlockStatus
 from .block_bookkeeper import BlockBookkeeper
 from .context import Context
@@ -69,9 +69,9 @@ class Server(ServerObservee):
         return self.scheduler.task_states
 
     def _event_loop(self):
-        last_time = time()
+        last_time = monotonic()
         while not self.stop_event.is_set():
-            current_time = time()
+            current_time = monotonic()
             self._handle_client_messages()
             self._check_for_lost_blocks()
             self.worker_pools.check_worker_health()
-- 
2.43.0


From 9fc310c8944b55f095a20b5bfe3f143f8882341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:01 +0000
Subject: [PATCH 31/38] fix: report exceptions of classes the server does not
 know, or that cannot be printed

---
 daisy/messages/message.py | 37 +++++++++++++++++++++++++++++++------
 daisy/worker.py           |  4 ++--
 daisy/worker_pool.py      |  3 ++-
 3 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/daisy/messages/message.py b/daisy/messages/message.py
index 2479519..ac0b23e 100644
--- a/daisy/messages/message.py
+++ b/daisy/messages/message.py
@@ -5,15 +5,34 @@ import pickle
 logger = logging.getLogger(__name__)
 
 
-def picklable_exception(exception):
-    """Returns the given exception if it can be sent to another process, or
-    otherwise a description of it that can be sent."""
+def pack_exception(exception):
+    """Prepare an exception to be sent to another process. In addition to the
+    exception, this contains a description of it, in case it can't be
+    reproduced there (e.g., it can't be pickled, or its class is not known)."""
 
     try:
-        pickle.loads(pickle.dumps(exception))
+        description = repr(exception)
+    except Exception:
+        description = type(exception).__name__
+
+    try:
+        return pickle.dumps(exception), description
+    except Exception:
+        return None, description
+
+
+def unpack_exception(packed):
+    """Returns the exception that was given to :func:`pack_exception`, or
+    otherwise one with its description."""
+
+    pickled, description = packed
+
+    try:
+        exception = pickle.loads(pickled)
+        repr(exception)  # needed to report the exception
         return exception
     except Exception:
-        return RuntimeError(repr(exception))
+        return RuntimeError(description)
 
 
 class Message(TCPMessage):
@@ -30,4 +49,10 @@ class ExceptionMessage(Message):
     """
 
     def __init__(self, exception):
-        self.exception = picklable_exception(exception)
+        self.exception = exception
+
+    def __getstate__(self):
+        return dict(self.__dict__, exception=pack_exception(self.exception))
+
+    def __setstate__(self, state):
+        self.__dict__.update(state, exception=unpack_exception(state["exception"]))
diff --git a/daisy/worker.py b/daisy/worker.py
index dce52f0..1de863b 100644
--- a/daisy/worker.py
+++ b/daisy/worker.py
@@ -1,5 +1,5 @@
 from .context import Context
-from .messages.message import picklable_exception
+from .messages.message import pack_exception
 import daisy.logging as daisy_logging
 import logging
 import multiprocessing
@@ -104,7 +104,7 @@ class Worker:
             logger.error("%s received exception: %s", self, e)
             if self.error_queue:
                 try:
-                    self.error_queue.put(picklable_exception(e), timeout=1)
+                    self.error_queue.put(pack_exception(e), timeout=1)
                 except queue.Full:
                     logger.error(
                         "%s failed to forward exception, error queue is full", self
diff --git a/daisy/worker_pool.py b/daisy/worker_pool.py
index 2fe48c4..d894631 100644
--- a/daisy/worker_pool.py
+++ b/daisy/worker_pool.py
@@ -1,4 +1,5 @@
 from .context import Context
+from .messages.message import unpack_exception
 from .worker import Worker
 import logging
 import threading
@@ -96,7 +97,7 @@ class WorkerPool:
         """
 
         try:
-            error = self.error_queue.get(block=False)
+            error = unpack_exception(self.error_queue.get(block=False))
         except queue.Empty:
             return
 
-- 
2.43.0


From 31e48c5b3519d7ecf8e138ee66c2a519399ac26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:00 +0000
Subject: [PATCH 32/38] fix: report an interrupted block as failed even if it
 was marked as succeeded before

---
 daisy/client.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/daisy/client.py b/daisy/client.py
index e150a20..23c2351 100644
--- a/daisy/client.py
+++ b/daisy/client.py
@@ -93,10 +93,13 @@ class Client:
                 block.status = BlockStatus.FAILED
                 self.tcp_client.send_message(BlockFailed(e, block, self.context))
                 logger.exception("Block %s failed in worker %d", block, self.worker_id)
+            except BaseException:
+                # processing was interrupted (e.g., by KeyboardInterrupt), the
+                # block failed even if user code set its status before
+                block.status = BlockStatus.FAILED
+                raise
             finally:
-                # if we somehow got here without setting the block status to
-                # "SUCCESS" (e.g., through KeyboardInterrupt), we assume the
-                # block failed
+                # anything but "SUCCESS" is reported as a failure
                 if block.status != BlockStatus.SUCCESS:
                     block.status = BlockStatus.FAILED
                 self.release_block(block)
-- 
2.43.0


From 8357722278b4539fc8a71b6cebeb3df37f3cb0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:00 +0000
Subject: [PATCH 33/38] fix: measure the processing time of blocks with a
 monotonic clock

---
 daisy/block_bookkeeper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/daisy/block_bookkeeper.py b/daisy/block_bookkeeper.py
index dbb02a3..15dcb96 100644
--- a/daisy/block_bookkeeper.py
+++ b/daisy/block_bookkeeper.py
@@ -9,6 +9,8 @@ class BlockLog:
         self.block = block
         self.stream = stream
         self.time_sent = time.time()
+        # not affected by changes of the system's clock
+        self.monotonic_sent = time.monotonic()
 
 
 class BlockBookkeeper:
@@ -76,7 +78,8 @@ class BlockBookkeeper:
 
             # did processing time out?
             elif self.processing_timeout is not None:
-                if time.time() - log.time_sent > self.processing_timeout:
+                elapsed = time.monotonic() - log.monotonic_sent
+                if elapsed > self.processing_timeout:
                     lost_block_ids.append(block_id)
 
         lost_blocks = []
-- 
2.43.0


From d9864dd1de547b3b1020365d5eb94c650646d419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:31 +0000
Subject: [PATCH 34/38] fix: listen in the thread of the IO loop

A server that was not created in the thread that created the process' IO loop
never handled any connection (e.g., Server().run_blockwise in the main thread
after run_blockwise).
---
 daisy/tcp/tcp_server.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/daisy/tcp/tcp_server.py b/daisy/tcp/tcp_server.py
index ad11c58..15cd561 100644
--- a/daisy/tcp/tcp_server.py
+++ b/daisy/tcp/tcp_server.py
@@ -48,7 +48,7 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
         # find empty port, start listening
         for i in range(max_port_tries):
             try:
-                self.listen(0)  # 0 == random port
+                self._listen(0)  # 0 == random port
                 break
 
             except OSError:
@@ -93,6 +93,26 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
             logger.debug("Closing stream %s", stream)
             stream.close()
 
+    def _listen(self, port):
+        """Listen in the thread of the IO loop: tornado registers the sockets
+        with the current loop of the calling thread, which is a different one
+        if the IO loop was created in another thread."""
+
+        result = queue.Queue()
+
+        def listen():
+            try:
+                self.listen(port)
+                result.put(None)
+            except Exception as e:
+                result.put(e)
+
+        self.ioloop.add_callback(listen)
+
+        exception = result.get()
+        if exception is not None:
+            raise exception
+
     def _close_sockets(self):
         sockets = list(self._sockets.values())
         for stream in list(self.client_streams):
-- 
2.43.0


From faf2e349be1eccf44934fd1ac54246ad603e2019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:52 +0000
Subject: [PATCH 35/38] fix: create only one IO loop if several threads need it
 first

Two threads creating the first servers or clients of a process at the same
time started the thread of the same loop twice (RuntimeError), or left one of
the loops without a running thread.
---
 daisy/tcp/io_looper.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/daisy/tcp/io_looper.py b/daisy/tcp/io_looper.py
index 5eb526f..58399fd 100644
--- a/daisy/tcp/io_looper.py
+++ b/daisy/tcp/io_looper.py
@@ -30,17 +30,23 @@ class IOLooper:
     def __init__(self):
         pid = os.getpid()
 
-        if pid not in IOLooper.threads:
+        self.ioloop = IOLooper.ioloops.get(pid)
+
+        if self.ioloop is None:
             logger.debug("Creating new IOLoop for process %d...", pid)
-            self.ioloop = tornado.ioloop.IOLoop()
-            self.ioloops[pid] = self.ioloop
+            ioloop = tornado.ioloop.IOLoop()
+
+            # other threads might be here at the same time, only the first of
+            # their loops is used
+            self.ioloop = IOLooper.ioloops.setdefault(pid, ioloop)
 
-            logger.debug("Starting io loop for process %d...", pid)
-            IOLooper.threads[pid] = threading.Thread(
-                target=self.ioloop.start, daemon=True
-            )
-            IOLooper.threads[pid].start()
+            if self.ioloop is ioloop:
+                logger.debug("Starting io loop for process %d...", pid)
+                thread = threading.Thread(target=ioloop.start, daemon=True)
+                IOLooper.threads[pid] = thread
+                thread.start()
+            else:
+                ioloop.close()
 
         else:
             logger.debug("Reusing IOLoop for process %d...", pid)
-            self.ioloop = self.ioloops[pid]
-- 
2.43.0


From f4a79bc529ea2cf8487d96df3b438eca5248335b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:50 +0000
Subject: [PATCH 36/38] fix: let a server run more than once

The end of a run set the server's stop event, further runs of the same server
returned without processing any block.
---
 daisy/server.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/daisy/server.py b/daisy/server.py
index 25c364a..af9fc1e 100644
--- a/daisy/server.py
+++ b/daisy/server.py
@@ -70,7 +70,7 @@ class Server(ServerObservee):
 
     def _event_loop(self):
         last_time = monotonic()
-        while not self.stop_event.is_set():
+        while not self.all_done and not self.stop_event.is_set():
             current_time = monotonic()
             self._handle_client_messages()
             self._check_for_lost_blocks()
@@ -201,7 +201,7 @@ class Server(ServerObservee):
         self._recruit_workers()
 
     def _check_all_tasks_completed(self):
-        """Check if all tasks are completed and stop"""
+        """Check if all tasks are completed (which ends the event loop)"""
 
         self.all_done = True
         task_states = self.scheduler.task_states
@@ -221,7 +221,6 @@ class Server(ServerObservee):
 
         if self.all_done:
             logger.debug("All tasks finished")
-            self.stop_event.set()
 
     def _safe_release_block(self, block, stream):
         """Releases a block, if the bookkeeper agrees that this is a valid
-- 
2.43.0


From d2ada0d32732d19bd1a55d3267346dcf34de673c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:55 +0000
Subject: [PATCH 37/38] fix: send through a stream in the thread of its own
 loop

A stream used the loop that was the process' current one when the connection
was made, which is not the loop of its server if run_blockwise was called since
the server was created. Messages sent from a foreign thread got duplicated or
corrupted.
---
 daisy/tcp/tcp_stream.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/daisy/tcp/tcp_stream.py b/daisy/tcp/tcp_stream.py
index 30399e4..5918c2f 100644
--- a/daisy/tcp/tcp_stream.py
+++ b/daisy/tcp/tcp_stream.py
@@ -1,5 +1,4 @@
 from .exceptions import StreamClosedError
-from .io_looper import IOLooper
 import logging
 import pickle
 import struct
@@ -8,7 +7,7 @@ import tornado.iostream
 logger = logging.getLogger(__name__)
 
 
-class TCPStream(IOLooper):
+class TCPStream:
     """Wrapper around :class:`tornado.iostream.IOStream` to send
     :class:`TCPMessage` objects.
 
@@ -22,8 +21,9 @@ class TCPStream(IOLooper):
     """
 
     def __init__(self, stream, address):
-        super().__init__()
         self.stream = stream
+        # tornado's streams may be used in the thread of their own loop only
+        self.ioloop = stream.io_loop
         self.address = address
 
     def send_message(self, message):
-- 
2.43.0


From c3d6479da6c85071beba6b4c2ddd444e242a0082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:55 +0000
Subject: [PATCH 38/38] fix: unregister worker pools when their run is over

The pools of earlier runs of the same server raised a KeyError when a worker
of another task failed too often.
---
 daisy/server.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/daisy/server.py b/daisy/server.py
index af9fc1e..68f46da 100644
--- a/daisy/server.py
+++ b/daisy/server.py
@@ -60,6 +60,7 @@ class Server(ServerObservee):
         finally:
             logger.debug("Stopping worker pools...")
             self.worker_pools.stop()
+            self.unregister_observer(self.worker_pools)
             logger.debug("Worker pools stopped.")
             logger.debug("Closing TCP streams...")
             self.tcp_server.disconnect()
-- 
2.43.0

