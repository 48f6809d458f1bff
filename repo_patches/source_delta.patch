From c7d3ca58b3657bc9252447e49bd9af6465f1c7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 01/32] fix: shuffle in both directions between two parties no
 longer deadlocks

The per-peer counter of CommContext is shared by sends and receives, so when
two parties exchange values both took number 0 for their send and 1 for their
receive and waited for ever. Order the pair: the lower rank sends first.
---
 mplang/backends/simp_worker/ops.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/mplang/backends/simp_worker/ops.py b/mplang/backends/simp_worker/ops.py
index 5a5f2e7..d445189 100644
--- a/mplang/backends/simp_worker/ops.py
+++ b/mplang/backends/simp_worker/ops.py
@@ -94,17 +94,26 @@ def _shuffle_static_worker_impl(
     my_rank = worker.rank
     data = args[0]
 
+    # A pair of parties that exchange data in both directions shares one
+    # CommContext counter, so both sides must order the two interactions the
+    # same way: the lower rank sends first, the higher rank receives first.
+    deferred: list[int] = []
     for tgt, src in routing.items():
         if src == my_rank and tgt != my_rank:
-            ctx.send(tgt, data)
+            if routing.get(my_rank) == tgt and tgt < my_rank:
+                deferred.append(tgt)
+            else:
+                ctx.send(tgt, data)
 
     if my_rank in routing:
         src = routing[my_rank]
-        if src == my_rank:
-            return data
-        return ctx.recv(src)
+        result = data if src == my_rank else ctx.recv(src)
     else:
-        return None
+        result = None
+
+    for tgt in deferred:
+        ctx.send(tgt, data)
+    return result
 
 
 def _converge_worker_impl(interpreter: Interpreter, op: Operation, *args: Any) -> Any:
-- 
2.43.0


From a59339f925c67d3bfc60ef77d38578a007aa50d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 02/32] fix: pcall_dynamic skips parties on which an input is
 absent

As documented, a party executes only if all inputs are present and yields
None otherwise; the worker ran the body on missing (None) inputs.
---
 mplang/backends/simp_worker/ops.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mplang/backends/simp_worker/ops.py b/mplang/backends/simp_worker/ops.py
index d445189..a0323f4 100644
--- a/mplang/backends/simp_worker/ops.py
+++ b/mplang/backends/simp_worker/ops.py
@@ -73,8 +73,13 @@ def _pcall_dynamic_worker_impl(
 ) -> Any:
     """Worker implementation of pcall_dynamic."""
     fn_graph = op.regions[0]
-    result = interpreter.evaluate_graph(fn_graph, list(args))
     n_out = len(fn_graph.outputs)
+    if any(arg is None for arg in args):
+        # An input is missing on this party: it does not take part.
+        if n_out == 0:
+            return []
+        return None if n_out == 1 else [None] * n_out
+    result = interpreter.evaluate_graph(fn_graph, list(args))
     if n_out == 0:
         return []
     return result[0] if n_out == 1 else result
-- 
2.43.0


From d1444c3b620d69652b552d87b207728e64e4848f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:27 +0000
Subject: [PATCH 03/32] fix: every driver dispatch gets its own message
 namespace

Dispatches carried no job ID, so all of them shared the 'anonymous'
CommContext: messages left over by a failed dispatch (or duplicated by the
network) were delivered to the next one as if they were its own, giving wrong
results or 'Mailbox overflow', and concurrent dispatches read each other's
messages.
---
 mplang/backends/simp_driver/ops.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mplang/backends/simp_driver/ops.py b/mplang/backends/simp_driver/ops.py
index 10588cb..9890cb9 100644
--- a/mplang/backends/simp_driver/ops.py
+++ b/mplang/backends/simp_driver/ops.py
@@ -21,6 +21,7 @@ Op-specific logic lives in Worker handlers (simp_worker/ops.py).
 
 from __future__ import annotations
 
+import uuid
 from typing import Any
 
 from mplang.backends.simp_driver.values import DriverVar
@@ -104,14 +105,16 @@ def _generic_simp_dispatch(interpreter: Any, op: Operation, *args: Any) -> Any:
     # 1. Wrap operation into a Graph
     wrapper_graph = _wrap_op_as_graph(op)
 
-    # 2. SPMD dispatch to ALL workers
+    # 2. SPMD dispatch to ALL workers. The job ID names the message namespace
+    # of this dispatch on every worker, so it must not be shared with any other.
+    job_id = uuid.uuid4().hex
     futures = []
     for rank in range(world_size):
         # Extract per-party inputs from DriverVars
         party_inputs = [
             arg[rank] if isinstance(arg, DriverVar) else arg for arg in args
         ]
-        futures.append(driver.submit(rank, wrapper_graph, party_inputs))
+        futures.append(driver.submit(rank, wrapper_graph, party_inputs, job_id))
 
     # 3. Collect results
     results = driver.collect(futures)
-- 
2.43.0


From 5adb64efd60588b2dc50e1ea34d32f97f816d5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 04/32] fix: concurrent jobs no longer stall each other for
 want of threads

The parties of a job wait for each other, but the pools that run them had room
for one job (in-process mesh, driver) or two (HTTP worker). Two in-process jobs
submitted at once, or a job following a failed one whose peers were still
waiting, could block for ever or until the receive timeout failed them.
---
 mplang/backends/simp_driver/http.py | 3 ++-
 mplang/backends/simp_worker/base.py | 5 +++++
 mplang/backends/simp_worker/http.py | 3 ++-
 mplang/backends/simp_worker/mem.py  | 6 ++++--
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/mplang/backends/simp_driver/http.py b/mplang/backends/simp_driver/http.py
index a792067..78f5f78 100644
--- a/mplang/backends/simp_driver/http.py
+++ b/mplang/backends/simp_driver/http.py
@@ -24,6 +24,7 @@ from typing import TYPE_CHECKING, Any
 import httpx
 
 from mplang.backends.simp_driver.state import SimpDriver
+from mplang.backends.simp_worker.base import MAX_CONCURRENT_JOBS
 from mplang.edsl import serde
 from mplang.runtime.interpreter import Interpreter
 from mplang.runtime.object_store import FileSystemBackend, ObjectStore
@@ -78,7 +79,7 @@ class SimpHttpDriver(SimpDriver):
         # HTTP client and executor
         self._client = httpx.Client(timeout=None)
         self._executor = concurrent.futures.ThreadPoolExecutor(
-            max_workers=self._world_size
+            max_workers=self._world_size * MAX_CONCURRENT_JOBS
         )
 
     @property
diff --git a/mplang/backends/simp_worker/base.py b/mplang/backends/simp_worker/base.py
index a868a92..77bda77 100644
--- a/mplang/backends/simp_worker/base.py
+++ b/mplang/backends/simp_worker/base.py
@@ -27,6 +27,11 @@ import concurrent.futures
 from collections.abc import Sequence
 from typing import Any, Protocol
 
+# Jobs a worker executes at the same time. The parties of a job wait for each
+# other, so a pool that is too small for the jobs in flight can stall all of them
+# (each worker running jobs whose peers are still queued elsewhere).
+MAX_CONCURRENT_JOBS = 32
+
 # ---------------------------------------------------------------------------
 # Communicator Protocol
 # ---------------------------------------------------------------------------
diff --git a/mplang/backends/simp_worker/http.py b/mplang/backends/simp_worker/http.py
index 29dc3ba..e7ea336 100644
--- a/mplang/backends/simp_worker/http.py
+++ b/mplang/backends/simp_worker/http.py
@@ -53,6 +53,7 @@ from fastapi import Request as FastAPIRequest
 from pydantic import BaseModel, ValidationError
 
 from mplang.backends.simp_worker.base import (
+    MAX_CONCURRENT_JOBS,
     Request,
     RequestStatus,
     SendRequest,
@@ -935,7 +936,7 @@ def create_worker_app(
     )
 
     exec_pool = concurrent.futures.ThreadPoolExecutor(
-        max_workers=2, thread_name_prefix=f"exec_{rank}"
+        max_workers=MAX_CONCURRENT_JOBS, thread_name_prefix=f"exec_{rank}"
     )
 
     @asynccontextmanager
diff --git a/mplang/backends/simp_worker/mem.py b/mplang/backends/simp_worker/mem.py
index 04d5539..c00c641 100644
--- a/mplang/backends/simp_worker/mem.py
+++ b/mplang/backends/simp_worker/mem.py
@@ -20,7 +20,7 @@ import concurrent.futures
 import threading
 from typing import Any
 
-from mplang.backends.simp_worker.base import SendRequest
+from mplang.backends.simp_worker.base import MAX_CONCURRENT_JOBS, SendRequest
 
 # ---------------------------------------------------------------------------
 # ThreadCommunicator
@@ -164,7 +164,9 @@ class LocalMesh:
         ]
         for comm in self.comms:
             comm.set_peers(self.comms)
-        self.executor = concurrent.futures.ThreadPoolExecutor(max_workers=world_size)
+        self.executor = concurrent.futures.ThreadPoolExecutor(
+            max_workers=world_size * MAX_CONCURRENT_JOBS
+        )
 
     def shutdown(self, wait: bool = True) -> None:
         for comm in self.comms:
-- 
2.43.0


From d7c050fb7b48703cc3553a0fbe27453bd34d0d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:24 +0000
Subject: [PATCH 05/32] fix: deliver messages whose key is not a plain URL
 segment

The message key (which starts with the job ID chosen by the caller) went into
the URL unquoted: with '/', '?', '#' or '%' in it the message was refused or
filed under a truncated key, where it collided with other jobs' messages. Quote
it, and let the worker routes accept encoded slashes.
---
 mplang/backends/simp_worker/http.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mplang/backends/simp_worker/http.py b/mplang/backends/simp_worker/http.py
index e7ea336..cd6e08f 100644
--- a/mplang/backends/simp_worker/http.py
+++ b/mplang/backends/simp_worker/http.py
@@ -46,6 +46,7 @@ from contextlib import asynccontextmanager
 from dataclasses import dataclass, field
 from enum import StrEnum
 from typing import Any
+from urllib.parse import quote
 
 import httpx
 from fastapi import FastAPI, HTTPException
@@ -385,7 +386,7 @@ class HttpCommunicator:
             request_timeout: Per-request timeout passed to httpx.  If *None*,
                 the client-level ``http_timeout`` is used instead.
         """
-        url = f"{self.endpoints[to]}/comm/{key}"
+        url = f"{self.endpoints[to]}/comm/{quote(key, safe=':')}"
         logger.debug(f"Rank {self.rank} sending to {to} key={key}, url={url}")
 
         # Raw-bytes transport rule:
@@ -745,7 +746,7 @@ def register_routes(
         exec_pool.submit(_do_execute_async, exec_id, graph, inputs, req.job_id)
         return {"exec_id": exec_id}
 
-    @app.get("/exec/{exec_id}/status")
+    @app.get("/exec/{exec_id:path}/status")
     async def get_exec_status(exec_id: str) -> dict[str, str | None]:
         """Poll the status of an async execution task."""
         task = async_tasks.get(exec_id)
@@ -764,7 +765,7 @@ def register_routes(
             response["error"] = task.error
         return response
 
-    @app.put("/comm/{key}")
+    @app.put("/comm/{key:path}")
     async def receive_comm(key: str, request: FastAPIRequest) -> dict[str, str]:
         """Receive communication data from another worker.
 
-- 
2.43.0


From 37f72afeba8d52cdac5d44a0f8ba69da995bbd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:58 +0000
Subject: [PATCH 06/32] fix: a polled job state always comes with its result or
 error

---
 mplang/backends/simp_worker/http.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/mplang/backends/simp_worker/http.py b/mplang/backends/simp_worker/http.py
index cd6e08f..96eb063 100644
--- a/mplang/backends/simp_worker/http.py
+++ b/mplang/backends/simp_worker/http.py
@@ -690,15 +690,19 @@ def register_routes(
         exec_id: str, graph: Graph, inputs: list[Any], job_id: str | None = None
     ) -> None:
         """Wrapper that updates AsyncTaskState around _do_execute."""
-        async_tasks[exec_id].status = AsyncTaskStatus.RUNNING
+        # A state is never modified once published: a poll running at the same
+        # time sees a status together with the result or error that belongs to it.
+        async_tasks[exec_id] = AsyncTaskState(status=AsyncTaskStatus.RUNNING)
         try:
-            result = _do_execute(graph, inputs, job_id)
-            async_tasks[exec_id].status = AsyncTaskStatus.SUCCESS
-            async_tasks[exec_id].result = serde.dumps_b64(result)
+            result = serde.dumps_b64(_do_execute(graph, inputs, job_id))
+            async_tasks[exec_id] = AsyncTaskState(
+                status=AsyncTaskStatus.SUCCESS, result=result
+            )
         except Exception as e:
             logger.error(f"Worker {rank} async exec failed: {e}")
-            async_tasks[exec_id].status = AsyncTaskStatus.FAILED
-            async_tasks[exec_id].error = str(e)
+            async_tasks[exec_id] = AsyncTaskState(
+                status=AsyncTaskStatus.FAILED, error=str(e)
+            )
 
     @app.post("/exec")
     async def execute(req: ExecRequest) -> dict[str, str]:
-- 
2.43.0


From bc0740cc597a4d8f79a8c5451fb698d1d90d456a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:11 +0000
Subject: [PATCH 07/32] fix: a party's job never waits for a pool thread

The parties of a job wait for each other. ThreadPoolExecutor may leave a call
queued although its limit is not reached: a thread that was counted idle can take
a call whose submission started a new thread, and the stale count then lets a later
submission believe that an idle thread will take it. A job whose fourth party is
queued behind the three that wait for it never ends.
---
 mplang/backends/simp_driver/http.py |  7 +---
 mplang/backends/simp_worker/base.py | 62 +++++++++++++++++++++++++++--
 mplang/backends/simp_worker/http.py |  8 ++--
 mplang/backends/simp_worker/mem.py  |  6 +--
 4 files changed, 65 insertions(+), 18 deletions(-)

diff --git a/mplang/backends/simp_driver/http.py b/mplang/backends/simp_driver/http.py
index 78f5f78..ce1084a 100644
--- a/mplang/backends/simp_driver/http.py
+++ b/mplang/backends/simp_driver/http.py
@@ -16,7 +16,6 @@
 
 from __future__ import annotations
 
-import concurrent.futures
 import os
 import pathlib
 from typing import TYPE_CHECKING, Any
@@ -24,7 +23,7 @@ from typing import TYPE_CHECKING, Any
 import httpx
 
 from mplang.backends.simp_driver.state import SimpDriver
-from mplang.backends.simp_worker.base import MAX_CONCURRENT_JOBS
+from mplang.backends.simp_worker.base import JobExecutor
 from mplang.edsl import serde
 from mplang.runtime.interpreter import Interpreter
 from mplang.runtime.object_store import FileSystemBackend, ObjectStore
@@ -78,9 +77,7 @@ class SimpHttpDriver(SimpDriver):
 
         # HTTP client and executor
         self._client = httpx.Client(timeout=None)
-        self._executor = concurrent.futures.ThreadPoolExecutor(
-            max_workers=self._world_size * MAX_CONCURRENT_JOBS
-        )
+        self._executor = JobExecutor(thread_name_prefix="driver")
 
     @property
     def world_size(self) -> int:
diff --git a/mplang/backends/simp_worker/base.py b/mplang/backends/simp_worker/base.py
index 77bda77..60a8d43 100644
--- a/mplang/backends/simp_worker/base.py
+++ b/mplang/backends/simp_worker/base.py
@@ -24,13 +24,67 @@ ThreadCommunicator:
 from __future__ import annotations
 
 import concurrent.futures
+import threading
 from collections.abc import Sequence
 from typing import Any, Protocol
 
-# Jobs a worker executes at the same time. The parties of a job wait for each
-# other, so a pool that is too small for the jobs in flight can stall all of them
-# (each worker running jobs whose peers are still queued elsewhere).
-MAX_CONCURRENT_JOBS = 32
+
+class JobExecutor(concurrent.futures.Executor):
+    """Runs every submitted call in a thread of its own, at once.
+
+    The parties of a job wait for each other, so a call must never be kept
+    waiting for a thread by the calls that wait for it. A pool that is too small
+    does that; so does, now and then, any ThreadPoolExecutor, which may queue a
+    call below its limit because it believes that an idle thread will take it.
+    """
+
+    def __init__(self, thread_name_prefix: str = "job") -> None:
+        self._prefix = thread_name_prefix
+        self._lock = threading.Lock()
+        self._threads: set[threading.Thread] = set()
+        self._count = 0
+        self._closed = False
+
+    def submit(
+        self, fn: Any, /, *args: Any, **kwargs: Any
+    ) -> concurrent.futures.Future:
+        future: concurrent.futures.Future = concurrent.futures.Future()
+        with self._lock:
+            if self._closed:
+                raise RuntimeError("cannot schedule new futures after shutdown")
+            thread = threading.Thread(
+                target=self._run,
+                args=(future, fn, args, kwargs),
+                name=f"{self._prefix}_{self._count}",
+            )
+            self._count += 1
+            self._threads.add(thread)
+            thread.start()
+        return future
+
+    def _run(
+        self, future: concurrent.futures.Future, fn: Any, args: Any, kwargs: Any
+    ) -> None:
+        try:
+            if future.set_running_or_notify_cancel():
+                try:
+                    result = fn(*args, **kwargs)
+                except BaseException as e:
+                    future.set_exception(e)
+                else:
+                    future.set_result(result)
+        finally:
+            with self._lock:
+                self._threads.discard(threading.current_thread())
+
+    def shutdown(self, wait: bool = True, *, cancel_futures: bool = False) -> None:
+        with self._lock:
+            self._closed = True
+            threads = list(self._threads)
+        if wait:
+            for thread in threads:
+                thread.join()
+
 
 # ---------------------------------------------------------------------------
 # Communicator Protocol
diff --git a/mplang/backends/simp_worker/http.py b/mplang/backends/simp_worker/http.py
index 96eb063..8da3b31 100644
--- a/mplang/backends/simp_worker/http.py
+++ b/mplang/backends/simp_worker/http.py
@@ -54,7 +54,7 @@ from fastapi import Request as FastAPIRequest
 from pydantic import BaseModel, ValidationError
 
 from mplang.backends.simp_worker.base import (
-    MAX_CONCURRENT_JOBS,
+    JobExecutor,
     Request,
     RequestStatus,
     SendRequest,
@@ -641,7 +641,7 @@ def register_routes(
     infra: WorkerInfra,
     comm: HttpCommunicator,
     store: ObjectStore,
-    exec_pool: concurrent.futures.ThreadPoolExecutor,
+    exec_pool: concurrent.futures.Executor,
 ) -> None:
     """Register HTTP routes on a FastAPI app for a SIMP worker.
 
@@ -940,9 +940,7 @@ def create_worker_app(
         async_ops=DEFAULT_ASYNC_OPS,
     )
 
-    exec_pool = concurrent.futures.ThreadPoolExecutor(
-        max_workers=MAX_CONCURRENT_JOBS, thread_name_prefix=f"exec_{rank}"
-    )
+    exec_pool = JobExecutor(thread_name_prefix=f"exec_{rank}")
 
     @asynccontextmanager
     async def lifespan(app: FastAPI) -> AsyncIterator[None]:
diff --git a/mplang/backends/simp_worker/mem.py b/mplang/backends/simp_worker/mem.py
index c00c641..53ada1c 100644
--- a/mplang/backends/simp_worker/mem.py
+++ b/mplang/backends/simp_worker/mem.py
@@ -20,7 +20,7 @@ import concurrent.futures
 import threading
 from typing import Any
 
-from mplang.backends.simp_worker.base import MAX_CONCURRENT_JOBS, SendRequest
+from mplang.backends.simp_worker.base import JobExecutor, SendRequest
 
 # ---------------------------------------------------------------------------
 # ThreadCommunicator
@@ -164,9 +164,7 @@ class LocalMesh:
         ]
         for comm in self.comms:
             comm.set_peers(self.comms)
-        self.executor = concurrent.futures.ThreadPoolExecutor(
-            max_workers=world_size * MAX_CONCURRENT_JOBS
-        )
+        self.executor = JobExecutor(thread_name_prefix="worker")
 
     def shutdown(self, wait: bool = True) -> None:
         for comm in self.comms:
-- 
2.43.0


From 02a58c91c17489d069caa2adc56b2d9f3417bb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 08/32] fix: tracing survives concurrent evaluations of one
 graph

---
 mplang/runtime/interpreter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mplang/runtime/interpreter.py b/mplang/runtime/interpreter.py
index a6414de..f182d61 100644
--- a/mplang/runtime/interpreter.py
+++ b/mplang/runtime/interpreter.py
@@ -129,8 +129,9 @@ class ExecutionTracer:
 
         # Record scheduling latency (Queue Time)
         key = (id(op), namespace)
-        if key in self.op_schedule_times:
-            sched_ts = self.op_schedule_times.pop(key)
+        # Concurrent evaluations of one graph share keys: take the entry in one step.
+        sched_ts = self.op_schedule_times.pop(key, None)
+        if sched_ts is not None:
             self.trace_events.append({
                 "name": f"Queue: {op.opcode}",
                 "cat": "scheduler",
-- 
2.43.0


From 466b29f894a8fb231fb77d1ffea564764429b45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:02 +0000
Subject: [PATCH 09/32] fix: a stored object is replaced atomically, durably
 and only below the store's root

---
 mplang/runtime/object_store.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/mplang/runtime/object_store.py b/mplang/runtime/object_store.py
index 3d10579..da2a348 100644
--- a/mplang/runtime/object_store.py
+++ b/mplang/runtime/object_store.py
@@ -166,6 +166,8 @@ class MemoryBackend(StoreBackend):
 class FileSystemBackend(StoreBackend):
     """File system storage backend using pickle."""
 
+    _TMP_SUFFIX = ".mplang-tmp"
+
     @property
     def scheme(self) -> str:
         return "fs"
@@ -180,15 +182,35 @@ class FileSystemBackend(StoreBackend):
         root = os.path.abspath(self._root_path)
         clean_key = key.lstrip("/")
         path = os.path.abspath(os.path.join(root, clean_key))
-        if not path.startswith(root):
+        if os.path.commonpath([root, path]) != root:
             raise ValueError(f"Invalid key (traversal attempt): {key}")
         return path
 
     def put(self, key: str, value: Any) -> None:
         path = self._resolve_key(key)
         os.makedirs(os.path.dirname(path), exist_ok=True)
-        with open(path, "wb") as f:
-            pickle.dump(value, f)
+        # Write a temporary file and rename it into place, so that a crash, a
+        # disk error or a concurrent reader never meets a partial object.
+        directory = os.path.dirname(path)
+        tmp = os.path.join(directory, f".{uuid.uuid4().hex}{self._TMP_SUFFIX}")
+        try:
+            with open(tmp, "wb") as f:
+                pickle.dump(value, f)
+                f.flush()
+                os.fsync(f.fileno())
+            os.replace(tmp, path)
+        except BaseException:
+            try:
+                os.remove(tmp)
+            except OSError:
+                pass
+            raise
+        # Make the rename itself durable before reporting success.
+        fd = os.open(directory, os.O_RDONLY)
+        try:
+            os.fsync(fd)
+        finally:
+            os.close(fd)
 
     def get(self, key: str) -> Any:
         path = self._resolve_key(key)
@@ -211,6 +233,8 @@ class FileSystemBackend(StoreBackend):
         keys = []
         for dirpath, _, files in os.walk(root):
             for file in files:
+                if file.endswith(self._TMP_SUFFIX):
+                    continue  # left behind by an interrupted put()
                 full_path = os.path.join(dirpath, file)
                 rel_path = os.path.relpath(full_path, root)
                 keys.append(rel_path)
-- 
2.43.0


From 1945b898e10496b2a561b75286c0622f8c848285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:06 +0000
Subject: [PATCH 10/32] fix: saving or loading a multi-party value at program
 level acts on the parties holding it

---
 mplang/backends/simp_driver/ops.py | 19 +++++++++++++++++--
 mplang/backends/store_impl.py      | 13 +++++++++++++
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/mplang/backends/simp_driver/ops.py b/mplang/backends/simp_driver/ops.py
index 9890cb9..9b7f514 100644
--- a/mplang/backends/simp_driver/ops.py
+++ b/mplang/backends/simp_driver/ops.py
@@ -25,9 +25,10 @@ import uuid
 from typing import Any
 
 from mplang.backends.simp_driver.values import DriverVar
-from mplang.dialects import simp
+from mplang.dialects import simp, store
 from mplang.edsl.graph import Graph, Operation
-from mplang.edsl.typing import CustomType
+from mplang.edsl.registry import get_impl
+from mplang.edsl.typing import CustomType, MPType
 
 
 def _get_driver_context(interpreter: Any) -> Any:
@@ -124,6 +125,18 @@ def _generic_simp_dispatch(interpreter: Any, op: Operation, *args: Any) -> Any:
     return _collect_to_hostvars(results, num_outputs, world_size)
 
 
+def _store_dispatch(interpreter: Any, op: Operation, *args: Any) -> Any:
+    """Store ops on multi-party values run on the parties that hold them.
+
+    The driver only has handles to such values; saving those would not outlive
+    the workers' memory. Values the driver holds itself are stored locally.
+    """
+    if isinstance(op.outputs[0].type, MPType):
+        return _generic_simp_dispatch(interpreter, op, *args)
+    handler: Any = get_impl(op.opcode)
+    return handler(interpreter, op, *args)
+
+
 # =============================================================================
 # All SIMP ops use unified dispatch
 # =============================================================================
@@ -135,4 +148,6 @@ DRIVER_HANDLERS = {
     simp.converge_p.name: _generic_simp_dispatch,
     simp.uniform_cond_p.name: _generic_simp_dispatch,
     simp.while_loop_p.name: _generic_simp_dispatch,
+    store.save_p.name: _store_dispatch,
+    store.load_p.name: _store_dispatch,
 }
diff --git a/mplang/backends/store_impl.py b/mplang/backends/store_impl.py
index 60644b1..87ea72b 100644
--- a/mplang/backends/store_impl.py
+++ b/mplang/backends/store_impl.py
@@ -18,14 +18,25 @@ from __future__ import annotations
 
 from typing import Any
 
+import mplang.edsl.typing as elt
 from mplang.dialects import store
 from mplang.edsl.graph import Operation
 from mplang.runtime.interpreter import Interpreter
 
 
+def _takes_part(interpreter: Interpreter, typ: elt.BaseType) -> bool:
+    """Whether this interpreter's party is among those holding a *typ* value."""
+    rank = getattr(interpreter.get_dialect_state("simp"), "rank", None)
+    if rank is None or not isinstance(typ, elt.MPType) or typ.parties is None:
+        return True
+    return rank in typ.parties
+
+
 @store.save_p.def_impl
 def save_impl(interpreter: Interpreter, op: Operation, obj_val: Any) -> Any:
     """Save implementation — delegates to ObjectStore.put(uri=...)."""
+    if not _takes_part(interpreter, op.outputs[0].type):
+        return obj_val
     uri_base: str = op.attrs["uri_base"]
     if interpreter.store is None:
         raise RuntimeError("Interpreter has no ObjectStore configured. Cannot save.")
@@ -36,6 +47,8 @@ def save_impl(interpreter: Interpreter, op: Operation, obj_val: Any) -> Any:
 @store.load_p.def_impl
 def load_impl(interpreter: Interpreter, op: Operation) -> Any:
     """Load implementation — delegates to ObjectStore.get()."""
+    if not _takes_part(interpreter, op.outputs[0].type):
+        return None
     uri_base: str = op.attrs["uri_base"]
     if interpreter.store is None:
         raise RuntimeError("Interpreter has no ObjectStore configured. Cannot load.")
-- 
2.43.0


From 6d75f9002a3b08387b6436650d8301e3b38ca5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 11/32] fix: table files are staged per party and per
 operation, inside the party's storage

---
 mplang/backends/table_impl.py | 57 +++++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 13 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index 49aa914..50f9e09 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -20,6 +20,10 @@ Implements execution logic for Table primitives using DuckDB and PyArrow.
 from __future__ import annotations
 
 import base64
+import hashlib
+import os
+import shutil
+import uuid
 from abc import ABC, abstractmethod
 from dataclasses import dataclass
 from typing import Any, ClassVar, Protocol, Self, cast, runtime_checkable
@@ -807,14 +811,30 @@ def _infer_format(path: str, format_hint: str) -> str:
         return "parquet"
 
 
+def _local_dir(interpreter: Interpreter) -> str:
+    """Local directory for table files of this interpreter's party.
+
+    Parties may share a process or a working directory, so it is derived from
+    the party's own root directory.
+    """
+    owner = os.path.abspath(str(interpreter.root_dir))
+    return os.path.abspath(
+        os.path.join(".tmp", hashlib.sha256(owner.encode()).hexdigest()[:16])
+    )
+
+
+def _check_relative(path: str) -> None:
+    """Refuse relative paths that lead out of the directory they are joined to."""
+    if os.path.normpath(path).split(os.sep)[0] == os.pardir:
+        raise ValueError(f"Invalid path (traversal attempt): {path}")
+
+
 @table.read_p.def_impl
 def read_impl(interpreter: Interpreter, op: Operation) -> TableValue:
     """Read table from file.
 
     Supported formats: parquet, csv, json
     """
-    import os
-
     path: str = op.attrs["path"]
     schema: elt.TableType = op.attrs["schema"]
     format_hint: str = op.attrs.get("format", "auto")
@@ -827,7 +847,8 @@ def read_impl(interpreter: Interpreter, op: Operation) -> TableValue:
         return _wrap(FileTableSource(path=resolved, format=fmt, schema=pa_schema))
 
     if interpreter.store:
-        local_path = os.path.abspath(os.path.join(".tmp", path))
+        _check_relative(path)
+        local_path = os.path.abspath(os.path.join(_local_dir(interpreter), path))
         os.makedirs(os.path.dirname(local_path), exist_ok=True)
         interpreter.store.download(path, local_path)
         return _do_read(local_path)
@@ -878,8 +899,6 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
     For LazyTable, performs streaming writes when supported.
     For regular Tables, performs direct writes.
     """
-    import os
-
     path: str = op.attrs["path"]
     format_hint: str = op.attrs.get("format", "parquet")
 
@@ -946,19 +965,31 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
             raise e
 
         try:
-            for batch in reader:
-                writer.write_batch(batch)
+            try:
+                for batch in reader:
+                    writer.write_batch(batch)
+            finally:
+                writer.close()
         except Exception as e:
             _safe_remove_file(resolved)
             raise e
         finally:
             reader.close()
-            writer.close()
 
-    if interpreter.store:
-        local_path = os.path.abspath(os.path.join(".tmp", path))
-        os.makedirs(os.path.dirname(local_path), exist_ok=True)
-        _do_write(local_path)
-        interpreter.store.upload(local_path, path)
+    if interpreter.store and os.path.isabs(path):
+        os.makedirs(os.path.dirname(path), exist_ok=True)
+        _do_write(path)
+        interpreter.store.upload(path, path)
+    elif interpreter.store:
+        _check_relative(path)
+        # A directory of its own: never write through a link left by a read.
+        tmp_dir = os.path.join(_local_dir(interpreter), uuid.uuid4().hex)
+        os.makedirs(tmp_dir)
+        try:
+            local_path = os.path.join(tmp_dir, os.path.basename(path))
+            _do_write(local_path)
+            interpreter.store.upload(local_path, path)
+        finally:
+            shutil.rmtree(tmp_dir, ignore_errors=True)
     else:
         _do_write(path)
-- 
2.43.0


From 97135719d0f112248317aa31d82c871827199034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 12/32] fix: table files are linked into place atomically,
 never over another writer's file

---
 mplang/runtime/object_store.py | 71 ++++++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 20 deletions(-)

diff --git a/mplang/runtime/object_store.py b/mplang/runtime/object_store.py
index da2a348..def6443 100644
--- a/mplang/runtime/object_store.py
+++ b/mplang/runtime/object_store.py
@@ -301,9 +301,11 @@ class FileSystemBackend(StoreBackend):
                     )
                 if self._same_file_content(src, dest):
                     return
-                os.remove(dest)
             os.makedirs(os.path.dirname(dest), exist_ok=True)
-            os.symlink(src, dest)
+            # Link aside and rename: another download may create dest meanwhile.
+            link = f"{dest}.{uuid.uuid4().hex}{self._TMP_SUFFIX}"
+            os.symlink(src, link)
+            os.replace(link, dest)
 
     def upload(self, source: str, key: str) -> None:
         """Move data from local *source* to the backend.
@@ -315,8 +317,8 @@ class FileSystemBackend(StoreBackend):
         If destination exists and is a file/symlink, compare content:
         same -> treat as success and remove *source*;
         different -> raise ``FileExistsError`` (no overwrite).
-        Uses ``os.rename`` (zero-copy on same filesystem) with
-        ``shutil.move`` as fallback for cross-filesystem moves.
+        Zero-copy on the same filesystem, with a copy as fallback for
+        cross-filesystem moves.
 
         Raises:
             FileExistsError: If destination is an existing directory, or
@@ -329,24 +331,53 @@ class FileSystemBackend(StoreBackend):
             dst = os.path.abspath(key)
         else:
             dst = self._resolve_key(key)
-        if source != dst:
-            if os.path.lexists(dst):
-                if os.path.isdir(dst) and not os.path.islink(dst):
-                    raise FileExistsError(
-                        f"Upload destination is an existing directory: {dst}"
-                    )
-                if self._same_file_content(source, dst):
-                    if os.path.islink(dst):
-                        os.remove(dst)
-                        shutil.move(source, dst)
-                    else:
-                        os.remove(source)
-                    return
+        if source == dst:
+            return
+        os.makedirs(os.path.dirname(dst), exist_ok=True)
+        try:
+            self._move_new(source, dst)
+        except FileExistsError:
+            if os.path.isdir(dst) and not os.path.islink(dst):
+                raise FileExistsError(
+                    f"Upload destination is an existing directory: {dst}"
+                ) from None
+            if not self._same_file_content(source, dst):
                 raise FileExistsError(
                     f"Upload destination already exists with different content: {dst}"
-                )
-            os.makedirs(os.path.dirname(dst), exist_ok=True)
-            shutil.move(source, dst)
+                ) from None
+            if os.path.islink(dst):
+                shutil.move(source, dst)
+            else:
+                os.remove(source)
+
+    @classmethod
+    def _move_new(cls, source: str, dst: str) -> None:
+        """Move *source* to *dst*, which appears whole and is never overwritten.
+
+        Raises:
+            FileExistsError: If *dst* exists, also if it appears meanwhile.
+        """
+        if os.path.lexists(dst):
+            raise FileExistsError(dst)
+        try:
+            os.link(source, dst)
+        except FileExistsError:
+            raise
+        except OSError:
+            # Another filesystem, or one without hard links.
+            tmp = f"{dst}.{uuid.uuid4().hex}{cls._TMP_SUFFIX}"
+            try:
+                shutil.copyfile(source, tmp)
+                try:
+                    os.link(tmp, dst)
+                except FileExistsError:
+                    raise
+                except OSError:
+                    os.rename(tmp, dst)
+            finally:
+                if os.path.lexists(tmp):
+                    os.remove(tmp)
+        os.remove(source)
 
 
 class ObjectStore:
-- 
2.43.0


From 423c631dbdae88848c742945c01fbfd16466aa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:39 +0000
Subject: [PATCH 13/32] fix: a program cache that cannot be written never fails
 a computation

---
 mplang/backends/tensor_impl.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/mplang/backends/tensor_impl.py b/mplang/backends/tensor_impl.py
index 392d931..edb7802 100644
--- a/mplang/backends/tensor_impl.py
+++ b/mplang/backends/tensor_impl.py
@@ -23,6 +23,7 @@ import base64
 import hashlib
 import os
 import time
+import uuid
 from typing import Any, ClassVar, cast
 
 import jax
@@ -612,7 +613,6 @@ def _run_jax_with_xla(
 
         # Try disk cache
         cache_dir = interpreter.root_dir / "cache" / "jax"
-        cache_dir.mkdir(parents=True, exist_ok=True)
         cache_path = str(cache_dir / f"{code_hash}.pjrt")
         loaded_from_disk = False
 
@@ -635,11 +635,19 @@ def _run_jax_with_xla(
                 compiled = client.compile_and_load(
                     stablehlo_code, client.devices(), compile_options
                 )
-                # Save to disk
+                # Save to disk. The directory may be shared with other processes:
+                # write aside and rename, so that nobody loads a partial file.
                 try:
-                    # Directory creation handled above
-                    with open(cache_path, "wb") as f:
-                        f.write(client.serialize_executable(compiled))
+                    cache_dir.mkdir(parents=True, exist_ok=True)
+                    tmp_path = f"{cache_path}.{uuid.uuid4().hex}.tmp"
+                    try:
+                        with open(tmp_path, "wb") as f:
+                            f.write(client.serialize_executable(compiled))
+                        os.replace(tmp_path, cache_path)
+                    except BaseException:
+                        if os.path.exists(tmp_path):
+                            os.remove(tmp_path)
+                        raise
                     # print(f"[JAX] Saved compiled executable to {cache_path}")
                 except Exception as e:
                     print(f"[JAX] Failed to save to disk cache: {e}")
-- 
2.43.0


From 90ba8e6b64f3bbfe43c769f6905e92de6784daa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:29 +0000
Subject: [PATCH 14/32] fix: shares of a secure group go by the group's rank
 order, however its members are listed

---
 mplang/libs/device/api.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mplang/libs/device/api.py b/mplang/libs/device/api.py
index 89d3de0..1d17c36 100644
--- a/mplang/libs/device/api.py
+++ b/mplang/libs/device/api.py
@@ -173,7 +173,7 @@ def _infer_device_from_args(*args: Any, **kwargs: Any) -> str:
 
 def _device_run_spu(dev_info: Device, fn: Callable, *args: Any, **kwargs: Any) -> Any:
     """Run function on SPU device."""
-    spu_parties = tuple(m.rank for m in dev_info.members)
+    spu_parties = dev_info.member_ranks
 
     # SPU execution uses spu.run_jax to compile and execute the function on the SPU.
     # Inputs are expected to be already on the SPU (handled by _d2d).
@@ -495,7 +495,7 @@ def _d2d(to_dev_id: str, obj: Object) -> Object:
     elif frm_to_pair == ("PPU", "SPU"):
         assert len(frm_dev.members) == 1
         frm_rank = frm_dev.members[0].rank
-        spu_parties = tuple(m.rank for m in to_dev.members)
+        spu_parties = to_dev.member_ranks
         spu_config = spu.SPUConfig.from_dict(to_dev.config)
 
         # 1. Generate shares on source
@@ -530,7 +530,7 @@ def _d2d(to_dev_id: str, obj: Object) -> Object:
     elif frm_to_pair == ("SPU", "PPU"):
         assert len(to_dev.members) == 1
         to_rank = to_dev.members[0].rank
-        spu_parties = tuple(m.rank for m in frm_dev.members)
+        spu_parties = frm_dev.member_ranks
         spu_config = spu.SPUConfig.from_dict(frm_dev.config)
 
         # 1. Gather shares to target
@@ -611,7 +611,7 @@ def _d2d(to_dev_id: str, obj: Object) -> Object:
     elif frm_to_pair == ("TEE", "SPU"):
         assert len(frm_dev.members) == 1
         frm_rank = frm_dev.members[0].rank
-        spu_parties = tuple(m.rank for m in to_dev.members)
+        spu_parties = to_dev.member_ranks
         spu_config = spu.SPUConfig.from_dict(to_dev.config)
 
         # Generate shares on TEE (same logic as PPU -> SPU)
@@ -638,7 +638,7 @@ def _d2d(to_dev_id: str, obj: Object) -> Object:
     elif frm_to_pair == ("SPU", "TEE"):
         assert len(to_dev.members) == 1
         to_rank = to_dev.members[0].rank
-        spu_parties = tuple(m.rank for m in frm_dev.members)
+        spu_parties = frm_dev.member_ranks
         spu_config = spu.SPUConfig.from_dict(frm_dev.config)
 
         # Gather shares to TEE (same logic as SPU -> PPU)
-- 
2.43.0


From 680560f91b12f34153a24f8c2d40304300ad8031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:29 +0000
Subject: [PATCH 15/32] fix: links of a secure group are isolated per job and
 per set of parties

---
 mplang/backends/simp_worker/comm_context.py |  4 +++
 mplang/backends/spu_impl.py                 |  5 +++
 mplang/backends/spu_state.py                | 36 ++++++++++++++++++---
 3 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/mplang/backends/simp_worker/comm_context.py b/mplang/backends/simp_worker/comm_context.py
index 744c7f2..a69e93a 100644
--- a/mplang/backends/simp_worker/comm_context.py
+++ b/mplang/backends/simp_worker/comm_context.py
@@ -54,6 +54,10 @@ class CommContext:
         self._seq: dict[int, int] = defaultdict(int)
         self._spawn_counter: int = 0
 
+    @property
+    def context_id(self) -> str:
+        return self._id
+
     @property
     def rank(self) -> int:
         return self._rank
diff --git a/mplang/backends/spu_impl.py b/mplang/backends/spu_impl.py
index c9885cf..24eea00 100644
--- a/mplang/backends/spu_impl.py
+++ b/mplang/backends/spu_impl.py
@@ -293,10 +293,14 @@ def exec_impl(interpreter: Interpreter, op: Operation, *args: Any) -> Any:
     # Get communicator for Channels mode (reuse existing communication)
     # If no BRPC endpoints configured, use Channels mode
     communicator = None
+    job_id: str | None = None
     if spu_endpoints is None:
         # Use worker's communicator for channel reuse
         # (SimpWorker already imported at function start)
         communicator = context.communicator
+        # Concurrent jobs share the communicator: keep their messages apart
+        if interpreter.comm_ctx is not None:
+            job_id = interpreter.comm_ctx.context_id
 
     # Get or create SPUState for caching Runtime/Io
     spu_state = interpreter.get_dialect_state(SPUState.dialect_name)
@@ -311,6 +315,7 @@ def exec_impl(interpreter: Interpreter, op: Operation, *args: Any) -> Any:
         spu_endpoints,
         communicator=communicator,
         parties=list(parties),
+        job_id=job_id,
     )
 
     executable_code = op.attrs["executable"]
diff --git a/mplang/backends/spu_state.py b/mplang/backends/spu_state.py
index 73a1471..3a83193 100644
--- a/mplang/backends/spu_state.py
+++ b/mplang/backends/spu_state.py
@@ -118,7 +118,9 @@ class SPUState(DialectState):
         self._infra = infra
         self._brpc_config = brpc_config or BrpcLinkConfig()
         # Key: (local_rank, world_size, protocol, field, fxp_fraction_bits,
-        # profiling flags, link_mode, spu_endpoints, brpc_config).
+        # profiling flags, link_mode, spu_endpoints, brpc_config, channels).
+        # ``channels`` is the (job id, parties) whose messages the channels
+        # carry; it participates only when link_mode == "channels" (else None).
         # ``brpc_config`` participates only when link_mode == "brpc" (else None)
         # so callers passing custom configs don't silently reuse the first
         # config's link.
@@ -137,6 +139,7 @@ class SPUState(DialectState):
                 str,
                 tuple[str, ...] | None,
                 BrpcLinkConfig | None,
+                tuple[str | None, tuple[int, ...]] | None,
             ],
             tuple[spu_api.Runtime, spu_api.Io],
         ] = {}
@@ -178,11 +181,16 @@ class SPUState(DialectState):
         parties: list[int] | None,
         spu_endpoints: list[str] | None,
         brpc_config: BrpcLinkConfig | None = None,
+        job_id: str | None = None,
     ) -> libspu.link.Context:
         """Get or create a template link for the given configuration.
 
         With ``WorkerInfra``: uses infra's thread-safe shared cache.
         Without: uses a local (non-thread-safe) cache on this SPUState.
+
+        Channels of a job are never shared with other jobs: ``spawn()`` numbers
+        children in call order, which concurrent jobs reach in a different
+        order on each party.
         """
 
         def _create() -> libspu.link.Context:
@@ -192,13 +200,18 @@ class SPUState(DialectState):
             elif communicator is not None:
                 if parties is None:
                     raise ValueError("parties required when using communicator")
+                tag_prefix = "spu"
+                if job_id is not None:
+                    # cache_key[:6] is equal on all parties but for the rank
+                    scope = "/".join(map(str, (*cache_key[1:6], *parties)))
+                    tag_prefix = f"spu:{job_id}:{scope}"
                 return self._create_channels_link(
-                    local_rank, spu_world_size, communicator, parties
+                    local_rank, spu_world_size, communicator, parties, tag_prefix
                 )
             else:
                 return self._create_mem_link(local_rank, spu_world_size)
 
-        if self._infra is not None:
+        if self._infra is not None and job_id is None:
             return self._infra.get_or_create_spu_link(cache_key, _create)
 
         if cache_key not in self._template_links:
@@ -213,6 +226,7 @@ class SPUState(DialectState):
         spu_endpoints: list[str] | None = None,
         communicator: object | None = None,
         parties: list[int] | None = None,
+        job_id: str | None = None,
     ) -> tuple[spu_api.Runtime, spu_api.Io]:
         """Get or create SPU Runtime and Io for the given configuration.
 
@@ -230,6 +244,8 @@ class SPUState(DialectState):
                 Used only when ``spu_endpoints`` is not provided.
             parties: Optional list of global ranks for SPU parties.
                 Required when communicator is provided.
+            job_id: Identity of the running job, equal on all its parties.
+                With a communicator, isolates the messages of concurrent jobs.
 
         Returns:
             A tuple of (Runtime, Io) for this party.
@@ -247,6 +263,11 @@ class SPUState(DialectState):
         brpc_config = (
             self._effective_brpc_config(config) if link_mode == "brpc" else None
         )
+        if link_mode != "channels":
+            job_id = None
+            channels = None
+        else:
+            channels = (job_id, tuple(parties or ()))
         link_cache_key = (
             local_rank,
             spu_world_size,
@@ -256,6 +277,7 @@ class SPUState(DialectState):
             link_mode,
             tuple(spu_endpoints) if spu_endpoints else None,
             brpc_config,
+            channels,
         )
         runtime_cache_key = (
             local_rank,
@@ -270,6 +292,7 @@ class SPUState(DialectState):
             link_mode,
             tuple(spu_endpoints) if spu_endpoints else None,
             brpc_config,
+            channels,
         )
 
         if runtime_cache_key in self._runtimes:
@@ -284,6 +307,7 @@ class SPUState(DialectState):
             parties,
             spu_endpoints,
             brpc_config,
+            job_id,
         )
         link = template_link.spawn()
 
@@ -311,6 +335,7 @@ class SPUState(DialectState):
         spu_world_size: int,
         communicator: Any,
         parties: list[int],
+        tag_prefix: str = "spu",
     ) -> libspu.link.Context:
         """Create link using custom channels (reuse v2 communicator).
 
@@ -319,6 +344,7 @@ class SPUState(DialectState):
             spu_world_size: Number of SPU parties
             communicator: v2 communicator (ThreadCommunicator/HttpCommunicator)
             parties: List of global ranks for SPU parties (ordered by local rank)
+            tag_prefix: Namespace of all messages on the link
 
         Returns:
             libspu link context using BaseChannel adapters
@@ -336,7 +362,9 @@ class SPUState(DialectState):
                 channel = None
             else:
                 # Create channel to peer
-                channel = BaseChannel(communicator, global_rank, peer_global_rank)
+                channel = BaseChannel(
+                    communicator, global_rank, peer_global_rank, tag_prefix
+                )
             channels.append(channel)
 
         # Create link descriptor
-- 
2.43.0


From b57f857ae45676b0ba0e9648b6d4974ea2920a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:22 +0000
Subject: [PATCH 16/32] fix: run eager operations that have no results

A primitive whose function returns nothing (such as pcall_static around a
function with only effects) was traced and then never executed when called
outside a compiled program.
---
 mplang/runtime/interpreter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mplang/runtime/interpreter.py b/mplang/runtime/interpreter.py
index f182d61..c95c50e 100644
--- a/mplang/runtime/interpreter.py
+++ b/mplang/runtime/interpreter.py
@@ -723,8 +723,8 @@ class Interpreter(AbstractInterpreter):
             for obj, _ in ctx._captured_vars.values()
         ]
 
-        # Execute graph (may have 0 outputs if all were immediates)
-        if graph.outputs:
+        # Execute graph (it may have 0 outputs, but be run for its effects)
+        if graph.outputs or graph.operations:
             result_runtime_list = self.evaluate_graph(graph, inputs_list)
         else:
             result_runtime_list = []
-- 
2.43.0


From cfac68bff62a1dbf8d19c6d3930cc99acfd86d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:22 +0000
Subject: [PATCH 17/32] fix: refuse uniform_cond branches that differ in
 structure or constants

Only traced values depend on the predicate at run time. The containers and
Python constants around them were always those of the then-branch, also when
the else-branch ran.
---
 mplang/dialects/simp.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/mplang/dialects/simp.py b/mplang/dialects/simp.py
index 04d3be6..28716a4 100644
--- a/mplang/dialects/simp.py
+++ b/mplang/dialects/simp.py
@@ -62,6 +62,17 @@ def _validate_scalar_predicate(value: el.graph.Value, context: str) -> None:
         )
 
 
+def _same_immediate(a: Any, b: Any) -> bool:
+    """Whether two Python constants returned by different branches are the same."""
+    if a is b:
+        return True
+    if type(a) is not type(b):
+        return False
+    if hasattr(a, "dtype"):
+        return bool(a.dtype == b.dtype and a.shape == b.shape and (a == b).all())
+    return bool(a == b)
+
+
 def _merge_captures(*capture_lists: list[el.Object]) -> list[el.Object]:
     """Merge capture lists while preserving first-seen order and deduplicating by id."""
     seen: dict[int, el.Object] = {}
@@ -184,6 +195,18 @@ def _uniform_cond_trace(
             "uniform_cond branch output signature mismatch: "
             f"then={then_types}, else={else_types}"
         )
+    # Only the traced values depend on the predicate at run time: the structure
+    # around them and Python constants in it must be the same in both branches.
+    if (
+        then_traced.out_tree != else_traced.out_tree
+        or then_traced.out_var_pos != else_traced.out_var_pos
+        or not all(map(_same_immediate, then_traced.out_imms, else_traced.out_imms))
+    ):
+        raise TypeError(
+            "uniform_cond branches must return the same structure and constants: "
+            f"then={then_traced.out_tree} with {then_traced.out_imms}, "
+            f"else={else_traced.out_tree} with {else_traced.out_imms}"
+        )
 
     num_arg_vars = len(then_traced.in_var_pos)
 
-- 
2.43.0


From 1fb256d2c60907a2bacafc1b63694652a1748370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:29 +0000
Subject: [PATCH 18/32] fix: uint64 arrays from elementwise operations keep all
 their bits in JAX

Their elements are Python integers; without a dtype NumPy turns integers on
both sides of 2**63 into float64.
---
 mplang/backends/tensor_impl.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mplang/backends/tensor_impl.py b/mplang/backends/tensor_impl.py
index edb7802..5f2d296 100644
--- a/mplang/backends/tensor_impl.py
+++ b/mplang/backends/tensor_impl.py
@@ -110,10 +110,14 @@ class TensorValue(WrapValue[Any]):
         """
         return np.asarray(self._data)
 
-    def as_jax(self) -> Any:
+    def as_jax(self, dtype: Any = None) -> Any:
         """Get the underlying data as a JAX array.
 
         If the data is a numpy array, it will be transferred to device.
+
+        Args:
+            dtype: Type of the numbers in an object array. Without it NumPy picks
+                one, which is float64 for integers on both sides of 2**63.
         """
         if hasattr(self._data, "__jax_array__"):
             return self._data
@@ -123,7 +127,7 @@ class TensorValue(WrapValue[Any]):
             try:
                 # Attempt to convert to numeric numpy array first
                 # This handles cases where elementwise returned object array of numbers
-                val_numeric = np.array(self._data.tolist())
+                val_numeric = np.array(self._data.tolist(), dtype=dtype)
                 if val_numeric.dtype != object:
                     return jax.device_put(jnp.asarray(val_numeric))
             except Exception:
@@ -671,7 +675,7 @@ def _run_jax_with_xla(
                 dtype = dtypes.to_jax(cast(elt.ScalarType, input_type.element_type))
                 # Get as JAX array
                 if isinstance(arg, TensorValue):
-                    val = arg.as_jax()
+                    val = arg.as_jax(dtype)
                 else:
                     val = jnp.asarray(arg)
 
-- 
2.43.0


From e3480d9a22c3e986fe28f14a1e9c1c60a496fb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:29 +0000
Subject: [PATCH 19/32] fix: sender_eval_prf returns its hash instead of
 failing

It sliced a (1, 32) tensor with a one-dimensional end.
---
 mplang/libs/mpc/psi/oprf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mplang/libs/mpc/psi/oprf.py b/mplang/libs/mpc/psi/oprf.py
index 45791e7..a2e71a5 100644
--- a/mplang/libs/mpc/psi/oprf.py
+++ b/mplang/libs/mpc/psi/oprf.py
@@ -304,7 +304,7 @@ def sender_eval_prf(
             raw_out_batch, domain_sep=0x0CDF, num_rows=1
         )
 
-        # Flatten back to (32,) using slice to avoid extra run_jax node
-        return tensor.slice_tensor(hashed_batch, (0, 0), (32,))
+        # Flatten back to (32,) using reshape to avoid extra run_jax node
+        return tensor.reshape(hashed_batch, (32,))
 
     return cast(el.Object, simp.pcall_static((sender,), _eval, sender_key, candidate))
-- 
2.43.0


From 361748020aaccf464ee45eb2eacade067a765dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:44 +0000
Subject: [PATCH 20/32] fix: writing several tables keeps all their rows and
 refuses unequal lengths

---
 mplang/backends/table_impl.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index 50f9e09..6e61a9f 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -239,7 +239,7 @@ class TableReader(BatchReader):
             return batches[0]
 
         # Otherwise, combine all batches and return as a single RecordBatch
-        combined = pa.Table.from_batches(batches)
+        combined = pa.Table.from_batches(batches).combine_chunks()
         return combined.to_batches()[0]
 
     def close(self) -> None:
@@ -538,7 +538,7 @@ class QueryTableSource(TableSource):
         if batch_size <= 0:
             batch_size = DEFAULT_BATCH_SIZE
         reader = self.relation.arrow(batch_size)
-        return TableReader(reader)
+        return TableReader(reader, batch_size=batch_size)
 
 
 # =============================================================================
@@ -875,14 +875,21 @@ class MultiTableReader(BatchReader):
         num_rows = -1
         columns: list[pa.ChunkedArray] = []
         for idx, r in enumerate(self._readers):
-            batch = r.read_next_batch()
+            try:
+                batch = r.read_next_batch()
+                batch_rows = batch.num_rows
+            except StopIteration:
+                batch_rows = 0
             if num_rows == -1:
-                num_rows = batch.num_rows
-            elif num_rows != batch.num_rows:
+                num_rows = batch_rows
+            elif num_rows != batch_rows:
                 raise ValueError(
-                    f"Batch {idx} has {batch.num_rows} rows, expected {num_rows}"
+                    f"Batch {idx} has {batch_rows} rows, expected {num_rows}"
                 )
-            columns.extend(batch.columns)
+            if batch_rows > 0:
+                columns.extend(batch.columns)
+        if num_rows <= 0:
+            raise StopIteration
         return pa.RecordBatch.from_arrays(columns, names=self._schema.names)
 
     def close(self) -> None:
@@ -912,7 +919,7 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
             readers.append(
                 data.open(batch_size)
                 if isinstance(data, TableSource)
-                else TableReader(data)
+                else TableReader(data, batch_size=batch_size)
             )
 
         reader: BatchReader = (
-- 
2.43.0


From b26cd044b2e88bc0fad9e7228ff85ff0147e845d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:47 +0000
Subject: [PATCH 21/32] fix: oblivious_groupby_sum_shuffle is exact for uint64
 and refuses non-integers

---
 mplang/libs/mpc/analytics/groupby.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mplang/libs/mpc/analytics/groupby.py b/mplang/libs/mpc/analytics/groupby.py
index 101d517..91941ed 100644
--- a/mplang/libs/mpc/analytics/groupby.py
+++ b/mplang/libs/mpc/analytics/groupby.py
@@ -27,6 +27,7 @@ from typing import Any
 import jax
 import jax.numpy as jnp
 
+import mplang.edsl.typing as elt
 from mplang.dialects import bfv, crypto, simp, tensor
 from mplang.libs.mpc.analytics import aggregation, permutation
 
@@ -268,6 +269,12 @@ def oblivious_groupby_sum_shuffle(
     # This generates cryptographically secure random bytes that are unique per session.
 
     def split_shares_fn(d):
+        # The shares of other numbers would not add up to their sums.
+        if isinstance(d.type.element_type, (elt.FloatType, elt.ComplexType)):
+            raise TypeError(
+                "oblivious_groupby_sum_shuffle supports integer arithmetic only, "
+                f"got {d.type}"
+            )
         # Generate random bytes at runtime (EDSL primitive, NOT during trace)
         # This is secure because crypto.random_bytes executes at runtime on the party.
         n_elements = d.type.shape[0]
@@ -277,9 +284,10 @@ def oblivious_groupby_sum_shuffle(
         mask_bytes = crypto.random_bytes(total_bytes)
 
         def _apply_mask(arr, m_bytes):
-            # View random bytes as int64 (same as typical input dtype)
-            # For generality, we use arr.dtype, but assume int64 for now.
-            mask = m_bytes.view(jnp.int64).reshape(arr.shape)
+            # View random bytes as 64-bit integers of the input's signedness.
+            # (uint64 - int64 would be float64.)
+            dtype = jnp.uint64 if arr.dtype == jnp.uint64 else jnp.int64
+            mask = m_bytes.view(dtype).reshape(arr.shape)
             d0 = arr - mask
             d1 = mask
             return d0, d1
-- 
2.43.0


From 222b89703baf8f71ccdf42e998f91f8d8c211b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:47 +0000
Subject: [PATCH 22/32] fix: BFV evaluation keys do not carry the secret key

---
 mplang/backends/bfv_impl.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/mplang/backends/bfv_impl.py b/mplang/backends/bfv_impl.py
index 53d1b76..bce23bf 100644
--- a/mplang/backends/bfv_impl.py
+++ b/mplang/backends/bfv_impl.py
@@ -158,14 +158,18 @@ class BFVSecretContextValue(BFVPublicContextValue):
 
         self.secret_key = self.ts_ctx.secret_key().data
         self.decryptor = sealapi.Decryptor(self.cpp_ctx, self.secret_key)
+        self._public: BFVPublicContextValue | None = None
 
     def make_public(self) -> BFVPublicContextValue:
-        """Create a public-only version of this context."""
+        """Create (once) a public-only version of this context."""
+        if self._public is not None:
+            return self._public
         # Serialize without secret key
         serialized = self.ts_ctx.serialize(save_secret_key=False)
         # Deserialize to create a new context
         new_ts_ctx = ts.context_from(serialized)
-        return BFVPublicContextValue(new_ts_ctx)
+        self._public = BFVPublicContextValue(new_ts_ctx)
+        return self._public
 
     def to_json(self) -> dict[str, Any]:
         # Serialize TenSEAL context (with secret key)
@@ -288,15 +292,17 @@ def keygen_impl(
 @bfv.make_relin_keys_p.def_impl
 def make_relin_keys_impl(
     interpreter: Interpreter, op: Operation, sk: BFVSecretContextValue
-) -> BFVSecretContextValue:
-    return sk
+) -> BFVPublicContextValue:
+    # Evaluation keys are handed to other parties: leave the secret key out.
+    return sk.make_public()
 
 
 @bfv.make_galois_keys_p.def_impl
 def make_galois_keys_impl(
     interpreter: Interpreter, op: Operation, sk: BFVSecretContextValue
-) -> BFVSecretContextValue:
-    return sk
+) -> BFVPublicContextValue:
+    # Evaluation keys are handed to other parties: leave the secret key out.
+    return sk.make_public()
 
 
 @bfv.create_encoder_p.def_impl
-- 
2.43.0


From 4a7772c58304666144606036a47bcee65218b2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:41 +0000
Subject: [PATCH 23/32] fix: zero products of received BFV ciphertexts are
 zeros instead of failing

---
 mplang/backends/bfv_impl.py | 59 +++++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 13 deletions(-)

diff --git a/mplang/backends/bfv_impl.py b/mplang/backends/bfv_impl.py
index bce23bf..493ca90 100644
--- a/mplang/backends/bfv_impl.py
+++ b/mplang/backends/bfv_impl.py
@@ -205,6 +205,8 @@ class BFVValue(Value):
         finally:
             if os.path.exists(fname):
                 os.unlink(fname)
+        if _is_zero(self):
+            data_bytes = b""  # SEAL does not load an empty ciphertext
 
         # Serialize context as parameters only (to save bandwidth)
         # We create a temporary BFVParamContextValue wrapper
@@ -222,6 +224,8 @@ class BFVValue(Value):
         ctx = serde.from_json(data["ctx"])
         data_bytes = base64.b64decode(data["data_bytes"])
         is_cipher = data["is_cipher"]
+        if not data_bytes:
+            return _zero(ctx)
 
         # Load via temp file (SEAL API requirement)
         # Use /dev/shm on Linux for better performance (no disk I/O)
@@ -243,6 +247,26 @@ class BFVValue(Value):
                 os.unlink(fname)
 
 
+# A product with a zero plaintext is kept as an empty ("transparent") ciphertext,
+# which SEAL itself takes in no operation: every operation below treats it as zero.
+def _zero(ctx: BFVPublicContextValue) -> BFVValue:
+    return BFVValue(sealapi.Ciphertext(), ctx, is_cipher=True)
+
+
+def _is_zero(value: Any) -> bool:
+    return (
+        isinstance(value, BFVValue) and value.is_cipher and value.data.size() == 0
+    )
+
+
+def _encrypt_zero(ctx: BFVPublicContextValue) -> BFVValue:
+    if not hasattr(ctx, "encryptor"):  # received ciphertexts carry no public key
+        return _zero(ctx)
+    result_ct = sealapi.Ciphertext()
+    ctx.encryptor.encrypt_zero(result_ct)
+    return BFVValue(result_ct, ctx, is_cipher=True)
+
+
 # =============================================================================
 # Keygen Cache (Optimization: avoid regenerating keys for same parameters)
 # =============================================================================
@@ -390,7 +414,8 @@ def decrypt_impl(
     # sk is BFVSecretContextValue
 
     pt = sealapi.Plaintext()
-    sk.decryptor.decrypt(ciphertext.data, pt)
+    if not _is_zero(ciphertext):
+        sk.decryptor.decrypt(ciphertext.data, pt)
 
     return BFVValue(pt, sk, is_cipher=False)
 
@@ -512,6 +537,14 @@ def sub_impl(
     lhs: BFVValue | TensorValue,
     rhs: BFVValue | TensorValue,
 ) -> BFVValue | TensorValue:
+    if _is_zero(rhs):
+        return add_impl(interpreter, op, lhs, rhs)
+    if _is_zero(lhs):
+        negated = add_impl(interpreter, op, lhs, rhs)
+        result_ct = sealapi.Ciphertext()
+        negated.ctx.evaluator.negate(negated.data, result_ct)
+        return BFVValue(result_ct, negated.ctx, is_cipher=True)
+
     # Case 1: Both are BFVValues
     if isinstance(lhs, BFVValue) and isinstance(rhs, BFVValue):
         result_ct = sealapi.Ciphertext()
@@ -561,6 +594,11 @@ def mul_impl(
     lhs: BFVValue | TensorValue,
     rhs: BFVValue | TensorValue,
 ) -> BFVValue | TensorValue:
+    if _is_zero(lhs):
+        return lhs
+    if _is_zero(rhs):
+        return rhs
+
     # Case 1: Both are BFVValues
     if isinstance(lhs, BFVValue) and isinstance(rhs, BFVValue):
         result_ct = sealapi.Ciphertext()
@@ -605,9 +643,7 @@ def mul_impl(
         # Check for zero plaintext to avoid "transparent ciphertext" error
         # Also check if plaintext is BFVValue(Plaintext)
         if isinstance(rhs, TensorValue) and np.all(rhs.unwrap() == 0):
-            result_ct = sealapi.Ciphertext()
-            lhs.ctx.encryptor.encrypt_zero(result_ct)
-            return BFVValue(result_ct, lhs.ctx, is_cipher=True)
+            return _encrypt_zero(lhs.ctx)
 
         try:
             pt = _ensure_plaintext(lhs.ctx, rhs)
@@ -620,17 +656,13 @@ def mul_impl(
             # We catch this error and return a valid zero ciphertext to maintain operator semantics.
             if "transparent" in str(e):
                 # Fallback for zero plaintext
-                result_ct = sealapi.Ciphertext()
-                lhs.ctx.encryptor.encrypt_zero(result_ct)
-                return BFVValue(result_ct, lhs.ctx, is_cipher=True)
+                return _encrypt_zero(lhs.ctx)
             raise e
 
     if isinstance(rhs, BFVValue) and rhs.is_cipher:
         # Check for zero plaintext to avoid "transparent ciphertext" error
         if isinstance(lhs, TensorValue) and np.all(lhs.unwrap() == 0):
-            result_ct = sealapi.Ciphertext()
-            rhs.ctx.encryptor.encrypt_zero(result_ct)
-            return BFVValue(result_ct, rhs.ctx, is_cipher=True)
+            return _encrypt_zero(rhs.ctx)
 
         try:
             pt = _ensure_plaintext(rhs.ctx, lhs)
@@ -641,9 +673,7 @@ def mul_impl(
             # See comment above regarding "transparent ciphertext"
             if "transparent" in str(e):
                 # Fallback for zero plaintext
-                result_ct = sealapi.Ciphertext()
-                rhs.ctx.encryptor.encrypt_zero(result_ct)
-                return BFVValue(result_ct, rhs.ctx, is_cipher=True)
+                return _encrypt_zero(rhs.ctx)
             raise e
 
     # Handle Plaintext * Plaintext (TensorValue * TensorValue)
@@ -706,6 +736,9 @@ def rotate_columns_impl(
     gk: BFVPublicContextValue,
 ) -> BFVValue:
     """Swap the two rows in SIMD batching (row 0 <-> row 1)."""
+    if _is_zero(ciphertext):
+        return ciphertext
+
     new_ct = sealapi.Ciphertext()
     ciphertext.ctx.evaluator.rotate_columns(ciphertext.data, gk.galois_keys, new_ct)
     return BFVValue(new_ct, ciphertext.ctx, is_cipher=True)
-- 
2.43.0


From a0906db5017b90bc5eb7850356ad59ed4d86644c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:20 +0000
Subject: [PATCH 24/32] fix: refuse to evaluate a traced program with arguments
 it was not traced for

---
 mplang/edsl/tracer.py | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/mplang/edsl/tracer.py b/mplang/edsl/tracer.py
index 46ef564..e2db5ca 100644
--- a/mplang/edsl/tracer.py
+++ b/mplang/edsl/tracer.py
@@ -29,6 +29,8 @@ from collections.abc import Callable
 from dataclasses import dataclass
 from typing import TYPE_CHECKING, Any, cast
 
+import jax
+import numpy as np
 from jax.tree_util import tree_flatten, tree_map
 
 from mplang.edsl.context import Context
@@ -556,7 +558,23 @@ class TracedFunction:
             List of values corresponding to graph.inputs (may include InterpObject).
             The caller is responsible for unwrapping InterpObject at execution boundary.
         """
-        flat_args, _ = tree_flatten((args, kwargs))
+        flat_args, in_tree = tree_flatten((args, kwargs))
+
+        # The positions and immediates recorded in in_morph only apply to arguments
+        # of the traced structure; the immediates are baked into the graph.
+        if in_tree != self.in_tree:
+            raise ValueError(
+                f"Arguments of '{self.name}' do not have the structure it was traced "
+                f"with: expected {self.in_tree}, got {in_tree}."
+            )
+        var_pos = set(self.in_var_pos)
+        given_imms = [v for i, v in enumerate(flat_args) if i not in var_pos]
+        for traced, given in zip(self.in_imms, given_imms, strict=True):
+            if not _same_immediate(traced, given):
+                raise ValueError(
+                    f"'{self.name}' was traced with constant argument {traced!r} and "
+                    f"cannot be evaluated with {given!r}; trace it again."
+                )
 
         # Map to graph inputs using var positions from in_morph
         # Note: graph.inputs = [explicit_inputs...] + [captured_inputs...]
@@ -578,6 +596,20 @@ class TracedFunction:
         return var_demorph(execution_result, self.out_morph)
 
 
+def _same_immediate(a: Any, b: Any) -> bool:
+    """Whether two constant arguments are the same, as far as they can be compared."""
+    if a is b:
+        return True
+    if type(a) is not type(b):
+        return False
+    if isinstance(a, (bool, int, float, complex, str, bytes, np.generic)):
+        return bool(a == b or (a != a and b != b))
+    if isinstance(a, (np.ndarray, jax.Array)):
+        x, y = np.asarray(a), np.asarray(b)
+        return x.dtype == y.dtype and x.shape == y.shape and x.tobytes() == y.tobytes()
+    return True
+
+
 def trace(
     fn: Callable[..., Any],
     *args: Any,
-- 
2.43.0


From d3861cfe07679ca24562aafd977d697703da18af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:20 +0000
Subject: [PATCH 25/32] fix: refuse to run a compiled program on a cluster with
 too few parties

---
 mplang/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mplang/__init__.py b/mplang/__init__.py
index 7cee11f..1795041 100644
--- a/mplang/__init__.py
+++ b/mplang/__init__.py
@@ -179,6 +179,12 @@ def evaluate(
                     "CompiledProgram requires flat positional inputs matching its signature; "
                     f"expected {fn.signature.input_arity}, got {len(args)}."
                 )
+            world_size = getattr(interp.get_dialect_state("simp"), "world_size", None)
+            if world_size is not None and (fn.required_world_size or 0) > world_size:
+                raise ValueError(
+                    f"CompiledProgram requires {fn.required_world_size} parties, "
+                    f"the cluster has {world_size}."
+                )
 
             return eval_graph(fn.graph, list(args))
 
-- 
2.43.0


From 23ccbaaea85b75f40717989173e554bacc3358fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:07 +0000
Subject: [PATCH 26/32] fix: 'objects' asks the cluster at the base port the
 other commands use

---
 mplang/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mplang/cli.py b/mplang/cli.py
index 649ac40..f02a9c1 100644
--- a/mplang/cli.py
+++ b/mplang/cli.py
@@ -566,7 +566,7 @@ def main() -> None:
 
     # 'objects' subcommand
     objects_parser = subparsers.add_parser("objects", help="List objects on workers")
-    add_cluster_args(objects_parser, include_ports=False)
+    add_cluster_args(objects_parser, include_ports=True)
 
     # 'trace' subcommand
     trace_parser = subparsers.add_parser("trace", help="Trace utilities")
-- 
2.43.0


From 2742676a241bf3e7a146036c9a0583899ce9509a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:07 +0000
Subject: [PATCH 27/32] fix: 'up' does not lose a worker it is starting when
 told to stop

---
 mplang/cli.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mplang/cli.py b/mplang/cli.py
index f02a9c1..be15c0f 100644
--- a/mplang/cli.py
+++ b/mplang/cli.py
@@ -65,6 +65,8 @@ def run_worker(
     # Reset signal handlers to default in child process to avoid conflict with parent's shutdown handler
     signal.signal(signal.SIGINT, signal.SIG_DFL)
     signal.signal(signal.SIGTERM, signal.SIG_DFL)
+    # `up` blocks the signals while it starts a worker
+    signal.pthread_sigmask(signal.SIG_UNBLOCK, (signal.SIGINT, signal.SIGTERM))
 
     from mplang.backends.simp_worker.http import create_worker_app
 
@@ -268,8 +270,11 @@ def cmd_up(args: argparse.Namespace) -> None:
             target=run_worker,
             args=(rank, world_size, ports[rank], endpoints, spu_endpoints),
         )
+        # A shutdown must not miss a worker that is just being started
+        signal.pthread_sigmask(signal.SIG_BLOCK, (signal.SIGINT, signal.SIGTERM))
         p.start()
         processes.append(p)
+        signal.pthread_sigmask(signal.SIG_UNBLOCK, (signal.SIGINT, signal.SIGTERM))
 
     print("\nWorkers started. Press Ctrl+C to stop.")
 
-- 
2.43.0


From 6c75d20e6b51536aef03765606c06a260916b9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:07 +0000
Subject: [PATCH 28/32] fix: workers get the SPU addresses the command line and
 config describe

---
 mplang/cli.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/mplang/cli.py b/mplang/cli.py
index be15c0f..ca8bce5 100644
--- a/mplang/cli.py
+++ b/mplang/cli.py
@@ -111,7 +111,7 @@ def build_endpoints(
     def normalize_endpoint(ep: str) -> str:
         return ep if ep.startswith("http") else f"http://{ep}"
 
-    spu_endpoints: dict[int, str] | None = None
+    use_spu = bool(args.spu_base_port)
 
     if args.config:
         with open(args.config, encoding="utf-8") as f:
@@ -128,30 +128,30 @@ def build_endpoints(
             ports.append(int(endpoint.split(":")[-1]))
 
         devices = conf.get("devices", {})
-        for _dev_name, dev_conf in devices.items():
-            if dev_conf.get("kind", "").upper() == "SPU":
-                spu_endpoints = {}
-                spu_base_port = args.spu_base_port or (ports[0] + 1000)
-                for i, node in enumerate(nodes):
-                    host = node["endpoint"].split(":")[0]
-                    spu_endpoints[i] = f"{host}:{spu_base_port + i}"
-                break
+        use_spu = any(
+            dev_conf.get("kind", "").upper() == "SPU" for dev_conf in devices.values()
+        )
     else:
         world_size = args.world_size
         base_port = getattr(args, "base_port", 5000)
         ports = [base_port + i for i in range(world_size)]
         endpoints = [f"http://127.0.0.1:{p}" for p in ports]
 
-        if args.spu_base_port:
-            spu_endpoints = {
-                i: f"127.0.0.1:{args.spu_base_port + i}" for i in range(world_size)
-            }
-
     if args.endpoints:
         endpoints = [normalize_endpoint(ep.strip()) for ep in args.endpoints.split(",")]
         ports = [int(ep.split(":")[-1]) for ep in endpoints]
         world_size = len(endpoints)
 
+    spu_endpoints: dict[int, str] | None = None
+    if use_spu:
+        spu_base_port = args.spu_base_port or (ports[0] + 1000)
+        spu_endpoints = {}
+        for i, endpoint in enumerate(endpoints):
+            # "http://host:port" -> "host"
+            host = endpoint.split("://", 1)[-1].rsplit(":", 1)[0]
+            spu_endpoints[i] = f"{host}:{spu_base_port + i}"
+    spu_endpoints = parse_spu_endpoints(args.spu_endpoints, world_size, spu_endpoints)
+
     return endpoints, ports, world_size, spu_endpoints
 
 
-- 
2.43.0


From e63ed523b0047ac90df08ca50ae4bf2bbb78f7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:57 +0000
Subject: [PATCH 29/32] fix: a worker host whose name begins with 'http' is an
 address, not a URL

---
 mplang/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mplang/cli.py b/mplang/cli.py
index ca8bce5..cb6447c 100644
--- a/mplang/cli.py
+++ b/mplang/cli.py
@@ -109,7 +109,7 @@ def build_endpoints(
     """Build endpoints and SPU endpoints from config or CLI flags."""
 
     def normalize_endpoint(ep: str) -> str:
-        return ep if ep.startswith("http") else f"http://{ep}"
+        return ep if ep.startswith(("http://", "https://")) else f"http://{ep}"
 
     use_spu = bool(args.spu_base_port)
 
-- 
2.43.0


From 94db6052aad38903020d15505efe0fd948d1da0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:26 +0000
Subject: [PATCH 30/32] fix: background operations use the same message
 namespaces on every party

---
 mplang/runtime/interpreter.py | 56 +++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/mplang/runtime/interpreter.py b/mplang/runtime/interpreter.py
index c95c50e..d6e43ca 100644
--- a/mplang/runtime/interpreter.py
+++ b/mplang/runtime/interpreter.py
@@ -1022,7 +1022,25 @@ class Interpreter(AbstractInterpreter):
         op_to_index = {op: i for i, op in enumerate(graph.operations)}
 
         # CommContext for this execution scope
-        root_comm_ctx = getattr(self._tls, "comm_ctx", self.comm_ctx)
+        prev_comm_ctx = getattr(self._tls, "comm_ctx", None)
+        root_comm_ctx = self.comm_ctx if prev_comm_ctx is None else prev_comm_ctx
+
+        # Derive a deterministic child CommContext for each op.
+        # We include graph_exec_key (structural hash of the graph) to prevent
+        # op_idx collisions between *different nested graphs* within the same
+        # request.  For example, two simp.pcall_static ops in the same parent
+        # graph each trigger a sub-graph execution — without graph_exec_key,
+        # their child ops at the same positional index would share the same
+        # CommContext ID and corrupt each other's messages.
+        # Children are numbered in spawn order, so they are spawned here, in
+        # program order: ops become ready in a different order on every party.
+        # Cross-request isolation is already handled by root context_id (= job_id).
+        child_ctxs: dict[Any, CommContext] = {}
+        if root_comm_ctx is not None:
+            for op, op_idx in op_to_index.items():
+                child_ctxs[op] = root_comm_ctx.spawn(
+                    suffix=f"{graph_exec_key}.{op_idx}"
+                )
 
         # Tracer setup (if not provided, use a disabled stub)
         tracer: ExecutionTracer | _NullTracer
@@ -1127,19 +1145,7 @@ class Interpreter(AbstractInterpreter):
                     f"No implementation registered for opcode: {op.opcode}"
                 )
 
-            # Derive a deterministic child CommContext ID for this op.
-            # We include graph_exec_key (structural hash of the graph) to prevent
-            # op_idx collisions between *different nested graphs* within the same
-            # request.  For example, two simp.pcall_static ops in the same parent
-            # graph each trigger a sub-graph execution — without graph_exec_key,
-            # their child ops at the same positional index would share the same
-            # CommContext ID and corrupt each other's messages.
-            # Cross-request isolation is already handled by root context_id (= job_id).
-            op_idx = op_to_index[op]
-            if root_comm_ctx is not None:
-                child_ctx = root_comm_ctx.spawn(suffix=f"{graph_exec_key}.{op_idx}")
-            else:
-                child_ctx = None
+            child_ctx = child_ctxs.get(op)
 
             if op.opcode in self.async_ops and self.executor:
                 with lock:
@@ -1196,15 +1202,19 @@ class Interpreter(AbstractInterpreter):
             ready_queue.put(None)
 
         # 6. Main Loop
-        while True:
-            item = ready_queue.get()
-            if item is None:
-                break
-            if isinstance(item, Exception):
-                raise item
-
-            # It's an op
-            execute_op(item)
+        try:
+            while True:
+                item = ready_queue.get()
+                if item is None:
+                    break
+                if isinstance(item, Exception):
+                    raise item
+
+                # It's an op
+                execute_op(item)
+        finally:
+            # Ops run in this thread left their own context behind
+            self._tls.comm_ctx = prev_comm_ctx
 
         # 7. Return outputs
         if not self.tracer:
-- 
2.43.0


From a042d5c93ea2dfaf9a94dc98ae5747adf7d2ddd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:17 +0000
Subject: [PATCH 31/32] fix: writing a table as JSON keeps every digit of its
 numbers

pandas rounds floats to ten decimals (1e-12 became 0.0) and turns integer
columns with missing values into floats.
---
 mplang/backends/table_impl.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index 6e61a9f..1e2fe52 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -21,6 +21,8 @@ from __future__ import annotations
 
 import base64
 import hashlib
+import json
+import math
 import os
 import shutil
 import uuid
@@ -945,8 +947,20 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
             def close(self) -> None:
                 # PyArrow doesn't have direct JSON write, convert to pandas
                 tbl = pa.Table.from_batches(self._batches)
-                df = tbl.to_pandas()
-                df.to_json(self._path, orient="records", lines=True)
+                df = tbl.to_pandas(integer_object_nulls=True)
+                rows = json.loads(df.to_json(orient="records"))
+                # pandas rounds floats to a number of decimals: write them as they are
+                for field in tbl.schema:
+                    if pa.types.is_floating(field.type):
+                        for row, v in zip(
+                            rows, tbl.column(field.name).to_pylist(), strict=True
+                        ):
+                            finite = v is not None and math.isfinite(v)
+                            row[field.name] = v if finite else None
+                with open(self._path, "w", encoding="utf-8") as f:
+                    f.writelines(
+                        json.dumps(row, separators=(",", ":")) + "\n" for row in rows
+                    )
 
         def _safe_remove_file(p: str) -> None:
             if os.path.exists(p):
-- 
2.43.0


From 55496885c9bb133d50c62b339cf5a2a955615ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:17 +0000
Subject: [PATCH 32/32] fix: text columns of table files are read as they are
 declared

The JSON reader and DuckDB's CSV and JSON readers guess types from the
values, so declared text like '007', 'False' or '2020-01-02T03:04:05' came
back reformatted, differently by a read and by a query.
---
 mplang/backends/table_impl.py | 48 +++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index 1e2fe52..9b0d775 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -410,6 +410,16 @@ _duckdb_type_mapping = {
 }
 
 
+# DuckDB types guessed for JSON strings.
+_GUESSED_FROM_TEXT = {
+    "DATE",
+    "TIME",
+    "TIMESTAMP",
+    "TIMESTAMP WITH TIME ZONE",
+    "UUID",
+}
+
+
 def _duckdb_type_name(data_type: pa.DataType) -> str:
     """Return the DuckDB SQL type corresponding to an Arrow schema type."""
     if pa.types.is_decimal(data_type):
@@ -466,6 +476,28 @@ class FileTableSource(TableSource):
                     f"{missing_columns}; available columns are {relation.columns}"
                 )
 
+            # The types are guessed from the values: what is declared to be text
+            # stays as it is in the file ("007", "2020-01-02T03:04:05").
+            guessed = dict(zip(relation.columns, relation.types, strict=True))
+            if self.format.lower() == "csv":
+                exact = {
+                    f.name: _duckdb_type_name(f.type)
+                    for f in self.schema
+                    if f.type in (pa.string(), pa.uint64())
+                }
+                if exact:
+                    relation = conn.read_csv(self.path, dtype=exact)
+            elif self.format.lower() == "json":
+                exact = {
+                    f.name: "VARCHAR"
+                    for f in self.schema
+                    if f.type == pa.string()
+                    and str(guessed[f.name]) in _GUESSED_FROM_TEXT
+                }
+                if exact:
+                    types = {c: str(t) for c, t in guessed.items()} | exact
+                    relation = conn.read_json(self.path, columns=types)
+
             projections = []
             for field in self.schema:
                 identifier = _quote_identifier(field.name)
@@ -504,6 +536,22 @@ class FileTableSource(TableSource):
             case "json":
                 read_options = pa_json.ReadOptions(use_threads=True)
                 table = pa_json.read_json(self.path, read_options=read_options)
+                # Text that looks like a time is guessed to be one.
+                text = [
+                    f
+                    for f in self.schema or ()
+                    if f.type == pa.string()
+                    and f.name in table.column_names
+                    and pa.types.is_temporal(table.schema.field(f.name).type)
+                ]
+                if text:
+                    table = pa_json.read_json(
+                        self.path,
+                        read_options=read_options,
+                        parse_options=pa_json.ParseOptions(
+                            explicit_schema=pa.schema(text)
+                        ),
+                    )
                 if columns:
                     table = table.select(columns)
                 reader = table.to_reader()
-- 
2.43.0

