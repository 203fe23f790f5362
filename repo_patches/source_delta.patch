From 8ece09b75966f7ca5b52d02fb4aae760ecedf675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:57 +0000
Subject: [PATCH 01/29] fix: serialize the original function of a remote
 function, not the driver-local data ID (nested submission failed with
 'Unknown DataID')

---
 unidist/core/backends/mpi/remote_function.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/unidist/core/backends/mpi/remote_function.py b/unidist/core/backends/mpi/remote_function.py
index a0b7c30..45b6d81 100644
--- a/unidist/core/backends/mpi/remote_function.py
+++ b/unidist/core/backends/mpi/remote_function.py
@@ -29,10 +29,24 @@ class MPIRemoteFunction(RemoteFunction):
 
     def __init__(self, function, num_cpus, num_returns, resources):
         self._remote_function = function
+        self._remote_function_orig = function
         self._num_cpus = num_cpus
         self._num_returns = 1 if num_returns is None else num_returns
         self._resources = resources
 
+    def __getstate__(self):
+        """
+        Serialize the original function rather than its data ID known to this process only.
+
+        Returns
+        -------
+        dict
+            State of the object.
+        """
+        state = self.__dict__.copy()
+        state["_remote_function"] = self._remote_function_orig
+        return state
+
     def _remote(self, *args, num_cpus=None, num_returns=None, resources=None, **kwargs):
         """
         Execute `self._remote_function` in a worker process.
-- 
2.43.0


From e998c1cc13ab6a3a140ba5271d3ae9b3a2995451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:13 +0000
Subject: [PATCH 02/29] fix: get() with a repeated reference waited forever for
 a second copy of the data

---
 unidist/core/backends/mpi/core/controller/api.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index 2352392..bbb3527 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -415,9 +415,13 @@ def get(data_ids):
     is_list = isinstance(data_ids, list)
     if not is_list:
         data_ids = [data_ids]
-    remote_data_ids = [
-        data_id for data_id in data_ids if not object_store.contains(data_id)
-    ]
+    # Every remote data ID should be requested only once
+    # since an owner sends the data to the requester only once.
+    remote_data_ids = list(
+        dict.fromkeys(
+            data_id for data_id in data_ids if not object_store.contains(data_id)
+        )
+    )
     # Remote data gets available in the local store inside `request_worker_data`
     if remote_data_ids:
         request_worker_data(remote_data_ids)
-- 
2.43.0


From 1aca5d66a4bfc10424046d36a78c52bcc685e6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:13 +0000
Subject: [PATCH 03/29] fix: a repeated get() of a failed task returned the
 exception instead of raising it

---
 unidist/core/backends/mpi/core/controller/api.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index bbb3527..3915a1f 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -430,6 +430,13 @@ def get(data_ids):
 
     values = [object_store.get(data_id) for data_id in data_ids]
 
+    # Results of failed tasks are stored as exceptions in the local store
+    # so the exception should be raised when getting the data repeatedly too.
+    local_store = LocalObjectStore.get_instance()
+    for data_id, value in zip(data_ids, values):
+        if isinstance(value, Exception) and local_store.contains_data_owner(data_id):
+            raise value
+
     # Initiate reference count based cleaup
     # if all the tasks were completed
     garbage_collector.regular_cleanup()
-- 
2.43.0


From 5d3ee5cbd47fc8ff6f9fa51cdcf6f4fce7ee8e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:45 +0000
Subject: [PATCH 04/29] fix: report failed tasks as done and keep the worker
 alive for any failure

A failed task was never reported to the monitor (wait() hung), an exception in
a task with num_returns=0 or in storing the results (unserializable result or
exception, fewer values than num_returns) terminated the worker.
---
 .../backends/mpi/core/worker/task_store.py    | 103 ++++++++++++++----
 1 file changed, 82 insertions(+), 21 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index f9be5c5..99a9402 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -5,6 +5,7 @@
 import asyncio
 import functools
 import inspect
+import itertools
 import time
 
 from unidist.core.backends.common.data_id import is_data_id
@@ -14,7 +15,10 @@ from unidist.core.backends.mpi.core.async_operations import AsyncOperations
 from unidist.core.backends.mpi.core.object_store import ObjectStore
 from unidist.core.backends.mpi.core.local_object_store import LocalObjectStore
 from unidist.core.backends.mpi.core.shared_object_store import SharedObjectStore
-from unidist.core.backends.mpi.core.serialization import serialize_complex_data
+from unidist.core.backends.mpi.core.serialization import (
+    deserialize_complex_data,
+    serialize_complex_data,
+)
 from unidist.core.backends.mpi.core.worker.request_store import RequestStore
 
 mpi_state = communication.MPIState.get_instance()
@@ -205,6 +209,70 @@ class TaskStore:
         else:
             return arg, False
 
+    def _serialize_output(self, output_data_ids, output_values):
+        """
+        Serialize output values of a task/actor-task.
+
+        Parameters
+        ----------
+        output_data_ids : list of unidist.core.backends.mpi.core.common.MpiDataID
+            A list of output data IDs to store the results in local object store.
+        output_values : object
+            Value(s) returned from the task.
+
+        Returns
+        -------
+        tuple
+            Output value(s) and serialized output value(s).
+
+        Notes
+        -----
+        It should be called while the exceptions of the task are being handled
+        so that values that cannot be stored are reported as a failure of the task.
+        """
+        if output_data_ids is None:
+            return output_values, None
+        if isinstance(output_data_ids, (list, tuple)) and len(output_data_ids) > 1:
+            output_values = list(itertools.islice(output_values, len(output_data_ids)))
+            if len(output_values) < len(output_data_ids):
+                raise ValueError(
+                    f"Task returned {len(output_values)} values, expected {len(output_data_ids)}"
+                )
+            return output_values, [serialize_complex_data(v) for v in output_values]
+        return output_values, serialize_complex_data(output_values)
+
+    def _put_exception(self, output_data_ids, exception):
+        """
+        Store the exception raised by a task/actor-task in output data IDs.
+
+        Parameters
+        ----------
+        output_data_ids : list of unidist.core.backends.mpi.core.common.MpiDataID
+            A list of output data IDs to store the exception in local object store.
+        exception : Exception
+            Exception raised by the task.
+
+        Returns
+        -------
+        list
+            List of completed data IDs.
+        """
+        if output_data_ids is None:
+            return []
+        try:
+            # Make sure the exception can be sent to and restored in other processes
+            deserialize_complex_data(**serialize_complex_data(exception))
+        except Exception:
+            exception = RuntimeError(
+                f"{type(exception).__name__}: {exception} (the original exception cannot be serialized)"
+            )
+        if not isinstance(output_data_ids, (list, tuple)):
+            output_data_ids = [output_data_ids]
+        local_store = LocalObjectStore.get_instance()
+        for output_id in output_data_ids:
+            local_store.put(output_id, exception)
+        return list(output_data_ids)
+
     def execute_received_task(self, output_data_ids, task, args, kwargs):
         """
         Execute a task/actor-task and handle results.
@@ -233,6 +301,7 @@ class TaskStore:
         if inspect.iscoroutinefunction(task):
 
             async def execute():
+                completed_data_ids = []
                 try:
                     w_logger.debug("- Start task execution -")
 
@@ -248,6 +317,9 @@ class TaskStore:
                     # Execute user task
                     f_to_execute = functools.partial(task, *args, **kwargs)
                     output_values = await f_to_execute()
+                    output_values, serialized_values = self._serialize_output(
+                        output_data_ids, output_values
+                    )
 
                     w_logger.info(
                         "Task evaluation time: {}".format(time.perf_counter() - start)
@@ -257,14 +329,7 @@ class TaskStore:
                 except Exception as e:
                     w_logger.debug("Exception - {}".format(e))
 
-                    if (
-                        isinstance(output_data_ids, (list, tuple))
-                        and len(output_data_ids) > 1
-                    ):
-                        for output_id in output_data_ids:
-                            local_store.put(output_id, e)
-                    else:
-                        local_store.put(output_data_ids, e)
+                    completed_data_ids = self._put_exception(output_data_ids, e)
                 else:
                     if output_data_ids is not None:
                         if (
@@ -275,7 +340,7 @@ class TaskStore:
                             for idx, (output_id, value) in enumerate(
                                 zip(output_data_ids, output_values)
                             ):
-                                serialized_data = serialize_complex_data(value)
+                                serialized_data = serialized_values[idx]
                                 local_store.put(output_id, value)
                                 if (
                                     shared_store.is_allocated()
@@ -288,7 +353,7 @@ class TaskStore:
                                     )
                                 completed_data_ids[idx] = output_id
                         else:
-                            serialized_data = serialize_complex_data(output_values)
+                            serialized_data = serialized_values
                             local_store.put(output_data_ids, output_values)
                             if (
                                 shared_store.is_allocated()
@@ -337,6 +402,9 @@ class TaskStore:
 
                 # Execute user task
                 output_values = task(*args, **kwargs)
+                output_values, serialized_values = self._serialize_output(
+                    output_data_ids, output_values
+                )
 
                 w_logger.info(
                     "Task evaluation time: {}".format(time.perf_counter() - start)
@@ -346,14 +414,7 @@ class TaskStore:
             except Exception as e:
                 w_logger.debug("Exception - {}".format(e))
 
-                if (
-                    isinstance(output_data_ids, (list, tuple))
-                    and len(output_data_ids) > 1
-                ):
-                    for output_id in output_data_ids:
-                        local_store.put(output_id, e)
-                else:
-                    local_store.put(output_data_ids, e)
+                completed_data_ids = self._put_exception(output_data_ids, e)
             else:
                 if output_data_ids is not None:
                     if (
@@ -364,7 +425,7 @@ class TaskStore:
                         for idx, (output_id, value) in enumerate(
                             zip(output_data_ids, output_values)
                         ):
-                            serialized_data = serialize_complex_data(value)
+                            serialized_data = serialized_values[idx]
                             local_store.put(output_id, value)
                             if (
                                 shared_store.is_allocated()
@@ -377,7 +438,7 @@ class TaskStore:
                                 )
                             completed_data_ids[idx] = output_id
                     else:
-                        serialized_data = serialize_complex_data(output_values)
+                        serialized_data = serialized_values
                         local_store.put(output_data_ids, output_values)
                         if (
                             shared_store.is_allocated()
-- 
2.43.0


From 6c6cda2b1b52b8663c8273c523ac16de0bdcb4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:17 +0000
Subject: [PATCH 05/29] fix: an exception in an actor constructor or a missing
 actor method terminated the worker

---
 unidist/core/backends/mpi/core/worker/loop.py | 32 +++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index 5515ff5..159f631 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -37,6 +37,8 @@ log_file = "{}.log".format(logger_name)
 w_logger = common.get_logger(logger_name, log_file)
 # Actors map {handle : actor}
 actor_map = {}
+# Actors that could not be created {handle : exception}
+failed_actor_map = {}
 
 
 # -------------- #
@@ -69,6 +71,22 @@ def async_wrap(func):
     return run
 
 
+def raise_exception(exception, *args, **kwargs):
+    """
+    Raise `exception` as a result of an actor method, which is impossible to call.
+
+    Parameters
+    ----------
+    exception : Exception
+        Exception to raise.
+    *args : iterable
+        Positional arguments of the method.
+    **kwargs : dict
+        Keyword arguments of the method.
+    """
+    raise exception
+
+
 # ---------------------------- #
 # Worker event processing loop #
 # ---------------------------- #
@@ -180,7 +198,12 @@ async def worker_loop():
                 args = request["args"]
                 kwargs = request["kwargs"]
                 handler = request["handler"]
-                actor_map[handler] = cls(*args, **kwargs)
+                try:
+                    actor_map[handler] = cls(*args, **kwargs)
+                except Exception as e:
+                    w_logger.debug("Exception - {}".format(e))
+                    # The exception is to be raised by every method of the actor
+                    failed_actor_map[handler] = e
 
         elif operation_type == common.Operation.ACTOR_EXECUTE:
             request = pull_data(mpi_state.global_comm, source_rank)
@@ -189,7 +212,12 @@ async def worker_loop():
                 # Actor method here is a data id so we have to retrieve it from the storage
                 method_name = object_store.get(request["task"])
                 handler = request["handler"]
-                actor_method = getattr(actor_map[handler], method_name)
+                try:
+                    if handler in failed_actor_map:
+                        raise failed_actor_map[handler]
+                    actor_method = getattr(actor_map[handler], method_name)
+                except Exception as e:
+                    actor_method = partial(raise_exception, e)
                 request["task"] = actor_method
 
                 # Execute the actor task if possible
-- 
2.43.0


From 02458841451e9e14890bc747a745abf40346818b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:02 +0000
Subject: [PATCH 06/29] fix: an actor call from another process that outran the
 actor creation failed

---
 unidist/core/backends/mpi/core/worker/loop.py | 61 +++++++++++++------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index 159f631..f40f0d4 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -39,6 +39,8 @@ w_logger = common.get_logger(logger_name, log_file)
 actor_map = {}
 # Actors that could not be created {handle : exception}
 failed_actor_map = {}
+# Actor requests that have been received before the actor is created {handle : [requests]}
+early_actor_requests = {}
 
 
 # -------------- #
@@ -87,6 +89,37 @@ def raise_exception(exception, *args, **kwargs):
     raise exception
 
 
+def process_actor_request(request):
+    """
+    Execute an actor task if possible or save it for later processing.
+
+    Parameters
+    ----------
+    request : dict
+        Actor task related data (args, method, output, handler).
+    """
+    task_store = TaskStore.get_instance()
+    # Prepare the data
+    # Actor method here is a data id so we have to retrieve it from the storage
+    method_name = ObjectStore.get_instance().get(request["task"])
+    handler = request["handler"]
+    try:
+        if handler in failed_actor_map:
+            raise failed_actor_map[handler]
+        actor_method = getattr(actor_map[handler], method_name)
+    except Exception as e:
+        actor_method = partial(raise_exception, e)
+    request["task"] = actor_method
+
+    # Execute the actor task if possible
+    pending_actor_request = task_store.process_task_request(request)
+    if pending_actor_request:
+        task_store.put_actor(pending_actor_request)
+    else:
+        # Check pending requests. Maybe some data became available.
+        task_store.check_pending_actor_tasks()
+
+
 # ---------------------------- #
 # Worker event processing loop #
 # ---------------------------- #
@@ -104,7 +137,6 @@ async def worker_loop():
     ``unidist.core.backends.mpi.core.common.Operations`` defines a set of supported operations.
     """
     task_store = TaskStore.get_instance()
-    object_store = ObjectStore.get_instance()
     local_store = LocalObjectStore.get_instance()
     request_store = RequestStore.get_instance()
     async_operations = AsyncOperations.get_instance()
@@ -204,29 +236,21 @@ async def worker_loop():
                     w_logger.debug("Exception - {}".format(e))
                     # The exception is to be raised by every method of the actor
                     failed_actor_map[handler] = e
+                # Process the requests from other processes
+                # that have been received before the actor is created
+                for actor_request in early_actor_requests.pop(handler, []):
+                    process_actor_request(actor_request)
 
         elif operation_type == common.Operation.ACTOR_EXECUTE:
             request = pull_data(mpi_state.global_comm, source_rank)
             if not ready_to_shutdown_posted:
-                # Prepare the data
-                # Actor method here is a data id so we have to retrieve it from the storage
-                method_name = object_store.get(request["task"])
                 handler = request["handler"]
-                try:
-                    if handler in failed_actor_map:
-                        raise failed_actor_map[handler]
-                    actor_method = getattr(actor_map[handler], method_name)
-                except Exception as e:
-                    actor_method = partial(raise_exception, e)
-                request["task"] = actor_method
-
-                # Execute the actor task if possible
-                pending_actor_request = task_store.process_task_request(request)
-                if pending_actor_request:
-                    task_store.put_actor(pending_actor_request)
+                if handler in actor_map or handler in failed_actor_map:
+                    process_actor_request(request)
                 else:
-                    # Check pending requests. Maybe some data became available.
-                    task_store.check_pending_actor_tasks()
+                    # The handle could be passed to another process,
+                    # which request can outrun the creation of the actor.
+                    early_actor_requests.setdefault(handler, []).append(request)
 
         elif operation_type == common.Operation.CLEANUP:
             cleanup_list = communication.recv_serialized_data(
@@ -238,6 +262,7 @@ async def worker_loop():
         elif operation_type == common.Operation.CANCEL:
             task_store.clear_pending_tasks()
             task_store.clear_pending_actor_tasks()
+            early_actor_requests.clear()
             request_store.clear_get_requests()
             request_store.clear_wait_requests()
             async_operations.finish()
-- 
2.43.0


From f4b7177e3514a9301203527c2c7f0953dd8198ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:55 +0000
Subject: [PATCH 07/29] fix: completion of a task or coroutine did not release
 everything waiting for its result

Pending GET requests were lost if they arrived while a coroutine was scheduled,
tasks waiting for a result of a coroutine and tasks/actor tasks waiting for
each other in the same process were never executed.
---
 unidist/core/backends/mpi/core/worker/loop.py | 12 +++-----
 .../backends/mpi/core/worker/task_store.py    | 29 +++++++++++++++++--
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index f40f0d4..6ca3e86 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -117,7 +117,7 @@ def process_actor_request(request):
         task_store.put_actor(pending_actor_request)
     else:
         # Check pending requests. Maybe some data became available.
-        task_store.check_pending_actor_tasks()
+        task_store.check_all_pending_tasks()
 
 
 # ---------------------------- #
@@ -169,7 +169,7 @@ async def worker_loop():
                     task_store.put(pending_request)
                 else:
                     # Check pending requests. Maybe some data became available.
-                    task_store.check_pending_tasks()
+                    task_store.check_all_pending_tasks()
 
         elif operation_type == common.Operation.GET:
             request = communication.mpi_recv_object(mpi_state.global_comm, source_rank)
@@ -191,9 +191,7 @@ async def worker_loop():
                 request_store.discard_data_request(request["id"])
 
                 # Check pending requests. Maybe some data became available.
-                task_store.check_pending_tasks()
-                # Check pending actor requests also.
-                task_store.check_pending_actor_tasks()
+                task_store.check_all_pending_tasks()
 
         elif operation_type == common.Operation.PUT_OWNER:
             request = communication.mpi_recv_object(mpi_state.global_comm, source_rank)
@@ -213,9 +211,7 @@ async def worker_loop():
             request_store.discard_data_request(result["id"])
 
             # Check pending requests. Maybe some data became available.
-            task_store.check_pending_tasks()
-            # Check pending actor requests also.
-            task_store.check_pending_actor_tasks()
+            task_store.check_all_pending_tasks()
 
         elif operation_type == common.Operation.WAIT:
             request = communication.mpi_recv_object(mpi_state.global_comm, source_rank)
diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index 99a9402..7651ac6 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -132,6 +132,26 @@ class TaskStore:
 
         self._pending_actor_tasks_list.clear()
 
+    def check_all_pending_tasks(self):
+        """
+        Check pending task and actor task execution requests and process all ready ones.
+
+        Notes
+        -----
+        A task can be waiting for the output of an actor task in the same process and vice versa
+        so the lists are checked until there are no ready tasks.
+        """
+        while True:
+            pending_count = len(self._pending_tasks_list) + len(
+                self._pending_actor_tasks_list
+            )
+            self.check_pending_tasks()
+            self.check_pending_actor_tasks()
+            if pending_count == len(self._pending_tasks_list) + len(
+                self._pending_actor_tasks_list
+            ):
+                break
+
     def request_worker_data(self, dest_rank, data_id):
         """
         Send GET operation with data request to destination worker.
@@ -367,6 +387,7 @@ class TaskStore:
                             completed_data_ids = [output_data_ids]
 
                 RequestStore.get_instance().check_pending_get_requests(output_data_ids)
+                RequestStore.get_instance().check_pending_wait_requests(output_data_ids)
                 # Monitor the task execution
                 # We use a blocking send here because we have to wait for
                 # completion of the communication, which is necessary for the pipeline to continue.
@@ -379,6 +400,8 @@ class TaskStore:
                     completed_data_ids,
                     root_monitor,
                 )
+                # Check pending requests. Maybe some data became available.
+                self.check_all_pending_tasks()
 
             async_task = asyncio.create_task(execute())
             # Add task to the set. This creates a strong reference.
@@ -451,6 +474,7 @@ class TaskStore:
                             )
                         completed_data_ids = [output_data_ids]
             RequestStore.get_instance().check_pending_get_requests(output_data_ids)
+            RequestStore.get_instance().check_pending_wait_requests(output_data_ids)
             # Monitor the task execution.
             # We use a blocking send here because we have to wait for
             # completion of the communication, which is necessary for the pipeline to continue.
@@ -513,10 +537,9 @@ class TaskStore:
             request["kwargs"] = kwargs
             return request
         else:
+            # Pending requests for `output_ids` are processed
+            # once the task is complete, which is later for coroutines.
             self.execute_received_task(output_ids, task, args, kwargs)
-            if output_ids is not None:
-                RequestStore.get_instance().check_pending_get_requests(output_ids)
-                RequestStore.get_instance().check_pending_wait_requests(output_ids)
             return None
 
     def __del__(self):
-- 
2.43.0


From df2755e801f0e7388e0640c1d279f08ed96f4eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:11 +0000
Subject: [PATCH 08/29] fix: count executed tasks per submitting process and do
 not keep tracebacks of failed tasks

The monitor counted actor calls and tasks submitted by workers, the driver did
not, so dropped objects were either never cleaned up or cleaned up while tasks
using them were still running. A stored exception kept the arguments and the
output IDs of its task alive for ever.
---
 .../backends/mpi/core/controller/actor.py     |  6 +++++
 .../core/backends/mpi/core/controller/api.py  |  2 ++
 .../core/backends/mpi/core/monitor/loop.py    | 26 +++++++++++++------
 .../backends/mpi/core/worker/task_store.py    | 18 ++++++++-----
 4 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/unidist/core/backends/mpi/core/controller/actor.py b/unidist/core/backends/mpi/core/controller/actor.py
index cb994e6..7ac87a6 100644
--- a/unidist/core/backends/mpi/core/controller/actor.py
+++ b/unidist/core/backends/mpi/core/controller/actor.py
@@ -51,6 +51,8 @@ class ActorMethod:
             "kwargs": kwargs,
             "output": output_id,
             "handler": self._actor._handler_id,
+            # The process, which tracks the task execution
+            "source": communication.MPIState.get_instance().global_rank,
         }
         async_operations = AsyncOperations.get_instance()
         h_list, _ = communication.isend_complex_operation(
@@ -61,6 +63,10 @@ class ActorMethod:
             is_serialized=False,
         )
         async_operations.extend(h_list)
+
+        # Track the task execution
+        garbage_collector.increment_task_counter()
+
         return output_id
 
 
diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index 3915a1f..0771c64 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -574,6 +574,8 @@ def submit(task, *args, num_returns=1, **kwargs):
         "args": list(args),
         "kwargs": kwargs,
         "output": output_ids,
+        # The process, which tracks the task execution
+        "source": communication.MPIState.get_instance().global_rank,
     }
     async_operations = AsyncOperations.get_instance()
     h_list, _ = communication.isend_complex_operation(
diff --git a/unidist/core/backends/mpi/core/monitor/loop.py b/unidist/core/backends/mpi/core/monitor/loop.py
index 7787133..81c3717 100755
--- a/unidist/core/backends/mpi/core/monitor/loop.py
+++ b/unidist/core/backends/mpi/core/monitor/loop.py
@@ -4,6 +4,8 @@
 
 """Monitoring process."""
 
+from collections import defaultdict
+
 try:
     import mpi4py
 except ImportError:
@@ -33,7 +35,8 @@ class TaskCounter:
     __instance = None
 
     def __init__(self):
-        self.task_counter = 0
+        # Number of executed tasks per process they were submitted from {Rank : int}
+        self.task_counter = defaultdict(int)
 
     @classmethod
     def get_instance(cls):
@@ -48,9 +51,16 @@ class TaskCounter:
             cls.__instance = TaskCounter()
         return cls.__instance
 
-    def increment(self):
-        """Increment task counter by one."""
-        self.task_counter += 1
+    def increment(self, source_rank):
+        """
+        Increment task counter by one.
+
+        Parameters
+        ----------
+        source_rank : int
+            Rank of the process the task was submitted from.
+        """
+        self.task_counter[source_rank] += 1
 
 
 class DataIDTracker:
@@ -195,11 +205,11 @@ def monitor_loop():
         )
         # Proceed the request
         if operation_type == common.Operation.TASK_DONE:
-            task_counter.increment()
-            output_data_ids = communication.mpi_recv_object(
+            operation_data = communication.mpi_recv_object(
                 mpi_state.global_comm, source_rank
             )
-            data_id_tracker.add_to_completed(output_data_ids)
+            task_counter.increment(operation_data["source"])
+            data_id_tracker.add_to_completed(operation_data["data_ids"])
             wait_handler.process_wait_requests()
         elif operation_type == common.Operation.WAIT:
             # TODO: WAIT request can be received from several workers,
@@ -215,7 +225,7 @@ def monitor_loop():
             # We use a blocking send here because the receiver is waiting for the result.
             communication.mpi_send_object(
                 mpi_state.global_comm,
-                task_counter.task_counter,
+                task_counter.task_counter[source_rank],
                 source_rank,
             )
         elif operation_type == common.Operation.RESERVE_SHARED_MEMORY:
diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index 7651ac6..1fbb813 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -280,8 +280,10 @@ class TaskStore:
         if output_data_ids is None:
             return []
         try:
-            # Make sure the exception can be sent to and restored in other processes
-            deserialize_complex_data(**serialize_complex_data(exception))
+            # Make sure the exception can be sent to and restored in other processes.
+            # The restored exception is stored because the original one holds references
+            # to the data and the data IDs of the task through its traceback.
+            exception = deserialize_complex_data(**serialize_complex_data(exception))
         except Exception:
             exception = RuntimeError(
                 f"{type(exception).__name__}: {exception} (the original exception cannot be serialized)"
@@ -293,7 +295,7 @@ class TaskStore:
             local_store.put(output_id, exception)
         return list(output_data_ids)
 
-    def execute_received_task(self, output_data_ids, task, args, kwargs):
+    def execute_received_task(self, output_data_ids, task, args, kwargs, source_rank):
         """
         Execute a task/actor-task and handle results.
 
@@ -307,6 +309,8 @@ class TaskStore:
             Positional arguments to be passed in the `task`.
         kwargs : dict
             Keyword arguments to be passed in the `task`.
+        source_rank : int
+            Rank of the process the task was submitted from.
 
         Notes
         -----
@@ -397,7 +401,7 @@ class TaskStore:
                 communication.send_simple_operation(
                     communication.MPIState.get_instance().global_comm,
                     common.Operation.TASK_DONE,
-                    completed_data_ids,
+                    {"source": source_rank, "data_ids": completed_data_ids},
                     root_monitor,
                 )
                 # Check pending requests. Maybe some data became available.
@@ -484,7 +488,7 @@ class TaskStore:
             communication.send_simple_operation(
                 communication.MPIState.get_instance().global_comm,
                 common.Operation.TASK_DONE,
-                completed_data_ids,
+                {"source": source_rank, "data_ids": completed_data_ids},
                 root_monitor,
             )
 
@@ -539,7 +543,9 @@ class TaskStore:
         else:
             # Pending requests for `output_ids` are processed
             # once the task is complete, which is later for coroutines.
-            self.execute_received_task(output_ids, task, args, kwargs)
+            self.execute_received_task(
+                output_ids, task, args, kwargs, request["source"]
+            )
             return None
 
     def __del__(self):
-- 
2.43.0


From 0db7e947aa1583378bb32fe06bbc4377b7b3a300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:55 +0000
Subject: [PATCH 09/29] fix: the monitor terminated when the shared object
 store was full

The data is now stored in the local store of a process instead.
---
 .../core/backends/mpi/core/communication.py   | 10 +++++++++-
 .../core/backends/mpi/core/controller/api.py  |  6 +++---
 .../backends/mpi/core/controller/common.py    |  7 ++++---
 .../core/backends/mpi/core/monitor/loop.py    | 16 ++++++++++-----
 .../mpi/core/monitor/shared_memory_manager.py |  3 ++-
 .../backends/mpi/core/shared_object_store.py  | 15 +++++++++++---
 .../backends/mpi/core/worker/task_store.py    | 20 ++++++++-----------
 7 files changed, 49 insertions(+), 28 deletions(-)

diff --git a/unidist/core/backends/mpi/core/communication.py b/unidist/core/backends/mpi/core/communication.py
index a864e66..6040fe5 100755
--- a/unidist/core/backends/mpi/core/communication.py
+++ b/unidist/core/backends/mpi/core/communication.py
@@ -1067,6 +1067,11 @@ def send_reserve_operation(comm, data_id, data_size):
     -------
     dict
         Reservation info about the allocated range in shared memory.
+
+    Raises
+    ------
+    MemoryError
+        If there is not enough space in shared memory.
     """
     mpi_state = MPIState.get_instance()
     operation_type = common.Operation.RESERVE_SHARED_MEMORY
@@ -1083,4 +1088,7 @@ def send_reserve_operation(comm, data_id, data_size):
         operation_data,
         mpi_state.get_monitor_by_worker_rank(),
     )
-    return mpi_recv_object(comm, mpi_state.get_monitor_by_worker_rank())
+    reservation_info = mpi_recv_object(comm, mpi_state.get_monitor_by_worker_rank())
+    if isinstance(reservation_info, MemoryError):
+        raise reservation_info
+    return reservation_info
diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index 0771c64..ec0b481 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -387,9 +387,9 @@ def put(data):
 
     data_id = local_store.generate_data_id(garbage_collector)
     serialized_data = serialize_complex_data(data)
-    if shared_store.is_allocated():
-        shared_store.put(data_id, serialized_data)
-    else:
+    if not (
+        shared_store.is_allocated() and shared_store.put(data_id, serialized_data)
+    ):
         local_store.cache_serialized_data(data_id, serialized_data)
 
     logger.debug("PUT {} id".format(data_id._id))
diff --git a/unidist/core/backends/mpi/core/controller/common.py b/unidist/core/backends/mpi/core/controller/common.py
index 6d6f368..402bbe8 100644
--- a/unidist/core/backends/mpi/core/controller/common.py
+++ b/unidist/core/backends/mpi/core/controller/common.py
@@ -401,10 +401,11 @@ def push_data(dest_rank, value, is_blocking_op=False):
         elif local_store.contains(data_id):
             data = local_store.get(data_id)
             serialized_data = serialize_complex_data(data)
-            if shared_store.is_allocated() and shared_store.should_be_shared(
-                serialized_data
+            if (
+                shared_store.is_allocated()
+                and shared_store.should_be_shared(serialized_data)
+                and shared_store.put(data_id, serialized_data)
             ):
-                shared_store.put(data_id, serialized_data)
                 _push_shared_data(dest_rank, data_id, is_blocking_op)
             else:
                 local_store.cache_serialized_data(data_id, serialized_data)
diff --git a/unidist/core/backends/mpi/core/monitor/loop.py b/unidist/core/backends/mpi/core/monitor/loop.py
index 81c3717..8142b5d 100755
--- a/unidist/core/backends/mpi/core/monitor/loop.py
+++ b/unidist/core/backends/mpi/core/monitor/loop.py
@@ -231,15 +231,21 @@ def monitor_loop():
         elif operation_type == common.Operation.RESERVE_SHARED_MEMORY:
             request = communication.mpi_recv_object(mpi_state.global_comm, source_rank)
             reservation_info = shm_manager.get(request["id"])
-            if reservation_info is None:
-                reservation_info = shm_manager.put(request["id"], request["size"])
-                is_first_request = True
+            try:
+                if reservation_info is None:
+                    reservation_info = shm_manager.put(request["id"], request["size"])
+                    is_first_request = True
+                else:
+                    is_first_request = False
+            except MemoryError as e:
+                # The requester should handle the lack of memory
+                response = e
             else:
-                is_first_request = False
+                response = {**reservation_info, "is_first_request": is_first_request}
 
             communication.mpi_send_object(
                 mpi_state.global_comm,
-                data={**reservation_info, "is_first_request": is_first_request},
+                data=response,
                 dest_rank=source_rank,
             )
         elif operation_type == common.Operation.REQUEST_SHARED_DATA:
diff --git a/unidist/core/backends/mpi/core/monitor/shared_memory_manager.py b/unidist/core/backends/mpi/core/monitor/shared_memory_manager.py
index 17d0063..b873ff4 100644
--- a/unidist/core/backends/mpi/core/monitor/shared_memory_manager.py
+++ b/unidist/core/backends/mpi/core/monitor/shared_memory_manager.py
@@ -174,10 +174,11 @@ class SharedMemoryManager:
                 "`SharedMemoryManager` cannot be used if the shared object storage is not enabled."
             )
         first_index, last_index = self.free_memory.occupy(memory_len)
-        service_index, _ = self.free_service_indexes.occupy(SharedObjectStore.INFO_SIZE)
         if first_index is None:
             raise MemoryError("Overflow memory")
+        service_index, _ = self.free_service_indexes.occupy(SharedObjectStore.INFO_SIZE)
         if service_index is None:
+            self.free_memory.release(first_index, last_index)
             raise MemoryError("Overflow service memory")
 
         reservation_info = ImmutableDict(
diff --git a/unidist/core/backends/mpi/core/shared_object_store.py b/unidist/core/backends/mpi/core/shared_object_store.py
index 4aff7c4..256568a 100644
--- a/unidist/core/backends/mpi/core/shared_object_store.py
+++ b/unidist/core/backends/mpi/core/shared_object_store.py
@@ -731,6 +731,11 @@ class SharedObjectStore:
         data_id : unidist.core.backends.mpi.core.common.MpiDataID
         serialized_data : dict
             Serialized data to put into the storage.
+
+        Returns
+        -------
+        bool
+            ``False`` if there is not enough space in shared memory, ``True`` otherwise.
         """
         mpi_state = communication.MPIState.get_instance()
 
@@ -738,9 +743,12 @@ class SharedObjectStore:
             [len(buf) for buf in serialized_data["raw_buffers"]]
         )
         # reserve shared memory
-        reservation_data = communication.send_reserve_operation(
-            mpi_state.global_comm, data_id, data_size
-        )
+        try:
+            reservation_data = communication.send_reserve_operation(
+                mpi_state.global_comm, data_id, data_size
+            )
+        except MemoryError:
+            return False
         service_index = reservation_data["service_index"]
         first_index = reservation_data["first_index"]
 
@@ -754,6 +762,7 @@ class SharedObjectStore:
 
         # put shared info
         self._put_shared_info(data_id, shared_info)
+        return True
 
     def get(self, data_id, owner_rank=None, shared_info=None):
         """
diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index 1fbb813..747c4e3 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -366,12 +366,11 @@ class TaskStore:
                             ):
                                 serialized_data = serialized_values[idx]
                                 local_store.put(output_id, value)
-                                if (
+                                if not (
                                     shared_store.is_allocated()
                                     and shared_store.should_be_shared(serialized_data)
+                                    and shared_store.put(output_id, serialized_data)
                                 ):
-                                    shared_store.put(output_id, serialized_data)
-                                else:
                                     local_store.cache_serialized_data(
                                         output_id, serialized_data
                                     )
@@ -379,12 +378,11 @@ class TaskStore:
                         else:
                             serialized_data = serialized_values
                             local_store.put(output_data_ids, output_values)
-                            if (
+                            if not (
                                 shared_store.is_allocated()
                                 and shared_store.should_be_shared(serialized_data)
+                                and shared_store.put(output_data_ids, serialized_data)
                             ):
-                                shared_store.put(output_data_ids, serialized_data)
-                            else:
                                 local_store.cache_serialized_data(
                                     output_data_ids, serialized_data
                                 )
@@ -454,12 +452,11 @@ class TaskStore:
                         ):
                             serialized_data = serialized_values[idx]
                             local_store.put(output_id, value)
-                            if (
+                            if not (
                                 shared_store.is_allocated()
                                 and shared_store.should_be_shared(serialized_data)
+                                and shared_store.put(output_id, serialized_data)
                             ):
-                                shared_store.put(output_id, serialized_data)
-                            else:
                                 local_store.cache_serialized_data(
                                     output_id, serialized_data
                                 )
@@ -467,12 +464,11 @@ class TaskStore:
                     else:
                         serialized_data = serialized_values
                         local_store.put(output_data_ids, output_values)
-                        if (
+                        if not (
                             shared_store.is_allocated()
                             and shared_store.should_be_shared(serialized_data)
+                            and shared_store.put(output_data_ids, serialized_data)
                         ):
-                            shared_store.put(output_data_ids, serialized_data)
-                        else:
                             local_store.cache_serialized_data(
                                 output_data_ids, serialized_data
                             )
-- 
2.43.0


From 4ed8d967065551bbb68e12f4b967fd3d949f8770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:08 +0000
Subject: [PATCH 10/29] fix: shared memory was reused while arrays returned by
 get() were still referring to it

---
 .../backends/mpi/core/shared_object_store.py  | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/unidist/core/backends/mpi/core/shared_object_store.py b/unidist/core/backends/mpi/core/shared_object_store.py
index 256568a..6e9ee88 100644
--- a/unidist/core/backends/mpi/core/shared_object_store.py
+++ b/unidist/core/backends/mpi/core/shared_object_store.py
@@ -4,6 +4,7 @@
 
 """`SharedObjectStore` functionality."""
 
+import ctypes
 import os
 import sys
 import time
@@ -279,7 +280,7 @@ class SharedObjectStore:
         splited_id = str(data_id).replace(")", "").split("_")
         return int(splited_id[1]), int(splited_id[3])
 
-    def _increment_ref_number(self, data_id, service_index):
+    def _increment_ref_number(self, data_id, service_index, referent=None):
         """
         Increment the number of references to indicate to the monitor that this data is being used.
 
@@ -288,10 +289,12 @@ class SharedObjectStore:
         data_id : unidist.core.backends.mpi.core.common.MpiDataID
         service_index : int
             The service buffer index.
+        referent : object, default: None
+            The object using the data. If ``None``, it is `data_id`.
 
         Notes
         -----
-        This function create `weakref.finalizer' with decrement function which will be called after data_id collecting.
+        This function create `weakref.finalizer' with decrement function which will be called after referent collecting.
         """
         if MPI.Is_finalized():
             return
@@ -311,7 +314,10 @@ class SharedObjectStore:
             )
         self.finalizers.append(
             weakref.finalize(
-                data_id, self._decrement_ref_number, str(data_id), service_index
+                data_id if referent is None else referent,
+                self._decrement_ref_number,
+                str(data_id),
+                service_index,
             )
         )
 
@@ -452,11 +458,13 @@ class SharedObjectStore:
         raw_buffers = []
         for raw_buffer_len in buffer_lens:
             raw_last_index = prev_last_index + raw_buffer_len
-            raw_buffers.append(
+            # Out-of-band buffers are not copied when deserializing,
+            # so shared memory should not be cleared until the buffer is in use.
+            raw_buffer = (ctypes.c_byte * raw_buffer_len).from_buffer(
                 self.shared_buffer[prev_last_index:raw_last_index]
-                .cast("b")
-                .toreadonly()
             )
+            self._increment_ref_number(data_id, service_index, referent=raw_buffer)
+            raw_buffers.append(memoryview(raw_buffer).cast("B").cast("b").toreadonly())
             prev_last_index = raw_last_index
 
         data = deserialize_complex_data(s_data, raw_buffers, buffer_count)
-- 
2.43.0


From 7f7d3c19741df75b021045f35a339480f5cabc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:21 +0000
Subject: [PATCH 11/29] fix: shutdown hung if a task was waiting for a result
 of a task it submitted

---
 unidist/core/backends/mpi/core/worker/loop.py |  2 +
 .../backends/mpi/core/worker/request_store.py | 41 ++++++++++++++++++-
 2 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index 6ca3e86..f69981a 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -177,6 +177,8 @@ async def worker_loop():
                 request_store.process_get_request(
                     request["source"], request["id"], request["is_blocking_op"]
                 )
+            elif request is not None and request["is_blocking_op"]:
+                request_store.reject_get_request(request["source"], request["id"])
 
         elif operation_type == common.Operation.PUT_DATA:
             request = pull_data(mpi_state.global_comm, source_rank)
diff --git a/unidist/core/backends/mpi/core/worker/request_store.py b/unidist/core/backends/mpi/core/worker/request_store.py
index 89703cf..e64cb80 100644
--- a/unidist/core/backends/mpi/core/worker/request_store.py
+++ b/unidist/core/backends/mpi/core/worker/request_store.py
@@ -8,6 +8,7 @@ import unidist.core.backends.mpi.core.common as common
 import unidist.core.backends.mpi.core.communication as communication
 from unidist.core.backends.mpi.core.controller.common import push_data
 from unidist.core.backends.mpi.core.object_store import ObjectStore
+from unidist.core.backends.mpi.core.serialization import serialize_complex_data
 
 
 mpi_state = communication.MPIState.get_instance()
@@ -123,10 +124,48 @@ class RequestStore:
         self._data_requests.discard(data_id)
 
     def clear_get_requests(self):
-        """Clear blocking and non-blocking get requests."""
+        """
+        Clear blocking and non-blocking get requests.
+
+        Notes
+        -----
+        Requesters of blocking requests are notified that the data will never be sent.
+        """
+        for data_id, ranks in self._blocking_get_requests.items():
+            for rank in ranks:
+                self.reject_get_request(rank, data_id)
         self._blocking_get_requests.clear()
         self._nonblocking_get_requests.clear()
 
+    def reject_get_request(self, source_rank, data_id):
+        """
+        Notify the requester of a blocking get request that the data will never be sent.
+
+        Parameters
+        ----------
+        source_rank : int
+            Rank number of the requester.
+        data_id: unidist.core.backends.mpi.core.common.MpiDataID
+            `data_id` associated data to request.
+
+        Notes
+        -----
+        It is necessary for a worker in controller mode to be able to finish its task
+        when shutting down. ``Root`` rank does not wait for the data at that moment.
+        """
+        if source_rank == communication.MPIRank.ROOT:
+            return
+        operation_data = serialize_complex_data(
+            RuntimeError("The worker has been shut down.")
+        )
+        operation_data["id"] = data_id
+        communication.send_complex_data(
+            communication.MPIState.get_instance().global_comm,
+            operation_data,
+            source_rank,
+            is_serialized=True,
+        )
+
     def clear_wait_requests(self):
         """Clear blocking wait requests requests."""
         self._blocking_wait_requests.clear()
-- 
2.43.0


From 2d79a256e2ce757f3eeb4bc72e8dc9fc9c6c7268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:58 +0000
Subject: [PATCH 12/29] fix: deserializing an object emptied the cached list of
 its out-of-band buffers

A put array could not be passed to tasks after it was obtained by get().
---
 unidist/core/backends/mpi/core/serialization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/serialization.py b/unidist/core/backends/mpi/core/serialization.py
index cb6d4d2..5098d01 100755
--- a/unidist/core/backends/mpi/core/serialization.py
+++ b/unidist/core/backends/mpi/core/serialization.py
@@ -121,7 +121,8 @@ class ComplexDataSerializer:
     PICKLE_THRESHOLD = MpiPickleThreshold.get()
 
     def __init__(self, buffers=None, buffer_count=None):
-        self.buffers = buffers if buffers else []
+        # The list is consumed when deserializing so the given one should not be changed
+        self.buffers = list(buffers) if buffers else []
         self.buffer_count = list(buffer_count) if buffer_count else []
         self._callback_counter = 0
 
-- 
2.43.0


From 65f2cd8898e52064c5407948793584c2f3fb15fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:55 +0000
Subject: [PATCH 13/29] fix: data of a blocking get was mixed with other data
 on its way from the same process

---
 unidist/core/backends/mpi/core/common.py      |  4 ++++
 .../core/backends/mpi/core/communication.py   | 21 ++++++++++++-------
 .../backends/mpi/core/controller/common.py    |  6 ++++--
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/unidist/core/backends/mpi/core/common.py b/unidist/core/backends/mpi/core/common.py
index 8e61ab7..77dde88 100755
--- a/unidist/core/backends/mpi/core/common.py
+++ b/unidist/core/backends/mpi/core/common.py
@@ -104,12 +104,16 @@ class MPITag:
     OBJECT_BLOCKING : int, default: 114
         The tag for send/recv of a regular Python object
         to indicate the blocking get request.
+    BUFFER_BLOCKING : int, default: 115
+        The tag for send/recv of a buffer-like object
+        to indicate the blocking get request.
     """
 
     OPERATION = 111
     OBJECT = 112
     BUFFER = 113
     OBJECT_BLOCKING = 114
+    BUFFER_BLOCKING = 115
 
 
 class MetadataPackage(ImmutableDict):
diff --git a/unidist/core/backends/mpi/core/communication.py b/unidist/core/backends/mpi/core/communication.py
index 6040fe5..2eb7663 100755
--- a/unidist/core/backends/mpi/core/communication.py
+++ b/unidist/core/backends/mpi/core/communication.py
@@ -651,14 +651,14 @@ def _send_complex_data_impl(comm, s_data, raw_buffers, dest_rank, info_package):
     Notes
     -----
     The special tags are used for this communication, namely,
-    ``common.MPITag.OBJECT`` and ``common.MPITag.BUFFER``.
+    ``common.MPITag.OBJECT_BLOCKING`` and ``common.MPITag.BUFFER_BLOCKING``.
     """
     # wrap to dict for sending and correct deserialization of the object by the recipient
     comm.send(dict(info_package), dest=dest_rank, tag=common.MPITag.OBJECT_BLOCKING)
     with pkl5._bigmpi as bigmpi:
-        comm.Send(bigmpi(s_data), dest=dest_rank, tag=common.MPITag.BUFFER)
+        comm.Send(bigmpi(s_data), dest=dest_rank, tag=common.MPITag.BUFFER_BLOCKING)
         for sbuf in raw_buffers:
-            comm.Send(bigmpi(sbuf), dest=dest_rank, tag=common.MPITag.BUFFER)
+            comm.Send(bigmpi(sbuf), dest=dest_rank, tag=common.MPITag.BUFFER_BLOCKING)
 
 
 def send_complex_data(comm, data, dest_rank, is_serialized=False):
@@ -813,7 +813,9 @@ def isend_complex_data(comm, data, dest_rank, is_serialized=False):
     return handlers, s_data, raw_buffers, buffer_count
 
 
-def recv_complex_data(comm, source_rank, info_package):
+def recv_complex_data(
+    comm, source_rank, info_package, buffer_tag=common.MPITag.BUFFER
+):
     """
     Receive the data that may consist of different user provided complex types, lambdas and buffers.
 
@@ -827,6 +829,8 @@ def recv_complex_data(comm, source_rank, info_package):
         Source MPI process to receive data from.
     info_package : unidist.core.backends.mpi.core.common.MetadataPackage
         Required information to deserialize data.
+    buffer_tag : common.MPITag, default: common.MPITag.BUFFER
+        The tag the buffers were sent with.
 
     Returns
     -------
@@ -835,16 +839,17 @@ def recv_complex_data(comm, source_rank, info_package):
 
     Notes
     -----
-    The special tags are used for this communication, namely,
-    ``common.MPITag.OBJECT`` and ``common.MPITag.BUFFER``.
+    The special tags are used for this communication, namely, ``common.MPITag.BUFFER`` or
+    ``common.MPITag.BUFFER_BLOCKING``. The latter keeps the data of a blocking get request
+    apart from the data that is on its way from the same source at the moment.
     """
     msgpack_buffer = bytearray(info_package["s_data_len"])
     buffer_count = info_package["buffer_count"]
     raw_buffers = list(map(bytearray, info_package["raw_buffers_len"]))
     with pkl5._bigmpi as bigmpi:
-        comm.Recv(bigmpi(msgpack_buffer), source=source_rank, tag=common.MPITag.BUFFER)
+        comm.Recv(bigmpi(msgpack_buffer), source=source_rank, tag=buffer_tag)
         for rbuf in raw_buffers:
-            comm.Recv(bigmpi(rbuf), source=source_rank, tag=common.MPITag.BUFFER)
+            comm.Recv(bigmpi(rbuf), source=source_rank, tag=buffer_tag)
 
     return deserialize_complex_data(msgpack_buffer, raw_buffers, buffer_count)
 
diff --git a/unidist/core/backends/mpi/core/controller/common.py b/unidist/core/backends/mpi/core/controller/common.py
index 402bbe8..72f4dac 100644
--- a/unidist/core/backends/mpi/core/controller/common.py
+++ b/unidist/core/backends/mpi/core/controller/common.py
@@ -133,8 +133,10 @@ def pull_data(comm, owner_rank=None):
             comm, tag=common.MPITag.OBJECT_BLOCKING
         )
         owner_rank = source
+        buffer_tag = common.MPITag.BUFFER_BLOCKING
     else:
         info_package = communication.mpi_recv_object(comm, owner_rank)
+        buffer_tag = common.MPITag.BUFFER
     if info_package["package_type"] == common.MetadataPackage.SHARED_DATA:
         local_store = LocalObjectStore.get_instance()
         shared_store = SharedObjectStore.get_instance()
@@ -155,7 +157,7 @@ def pull_data(comm, owner_rank=None):
     elif info_package["package_type"] == common.MetadataPackage.LOCAL_DATA:
         local_store = LocalObjectStore.get_instance()
         data = communication.recv_complex_data(
-            comm, owner_rank, info_package=info_package
+            comm, owner_rank, info_package=info_package, buffer_tag=buffer_tag
         )
         data_id = info_package["id"]
         local_store.put(data_id, data)
@@ -165,7 +167,7 @@ def pull_data(comm, owner_rank=None):
         }
     elif info_package["package_type"] == common.MetadataPackage.TASK_DATA:
         return communication.recv_complex_data(
-            comm, owner_rank, info_package=info_package
+            comm, owner_rank, info_package=info_package, buffer_tag=buffer_tag
         )
     else:
         raise ValueError("Unexpected package of data info!")
-- 
2.43.0


From 17637f050d62349fd7745d1308accdcdab96be30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:37 +0000
Subject: [PATCH 14/29] fix: PyMP lost or changed results that are bytes,
 callables or cannot be stored, and terminated the worker

---
 .../core/backends/pymp/core/object_store.py   | 10 ++-
 .../backends/pymp/core/process_manager.py     | 64 +++++++++++++++----
 2 files changed, 58 insertions(+), 16 deletions(-)

diff --git a/unidist/core/backends/pymp/core/object_store.py b/unidist/core/backends/pymp/core/object_store.py
index 8af83c8..3685004 100644
--- a/unidist/core/backends/pymp/core/object_store.py
+++ b/unidist/core/backends/pymp/core/object_store.py
@@ -66,7 +66,11 @@ class ObjectStore:
         """
         data_id = DataID() if data_id is None else data_id
 
-        self.store_delayed[data_id] = pkl.dumps(data) if callable(data) else data
+        # Data is always stored serialized so that the manager process does not have to
+        # deserialize it and `bytes` can be distinguished from serialized data.
+        self.store_delayed[data_id] = (
+            data if isinstance(data, Delayed) else pkl.dumps(data)
+        )
         return data_id
 
     def get(self, data_ids):
@@ -97,11 +101,11 @@ class ObjectStore:
             while isinstance(self.store_delayed[data_id], Delayed):
                 pass
 
-            value = self.store_delayed[data_id]
+            value = pkl.loads(self.store_delayed[data_id])
             if isinstance(value, Exception):
                 raise value
 
-            values[idx] = pkl.loads(value) if isinstance(value, bytes) else value
+            values[idx] = value
 
         return values if is_list else values[0]
 
diff --git a/unidist/core/backends/pymp/core/process_manager.py b/unidist/core/backends/pymp/core/process_manager.py
index 07037af..0448e13 100644
--- a/unidist/core/backends/pymp/core/process_manager.py
+++ b/unidist/core/backends/pymp/core/process_manager.py
@@ -4,6 +4,8 @@
 
 """Workers related functionality."""
 
+import itertools
+
 import cloudpickle as pkl
 from multiprocessing import (
     Process,
@@ -40,24 +42,60 @@ class Worker(Process):
 
             data_ids = task.data_ids
             try:
-                value = task()
+                self._put_result(data_ids, task())
             except Exception as e:
-                if isinstance(data_ids, list) and len(data_ids) > 1:
-                    for i, data_id in enumerate(data_ids):
-                        self._obj_store.store_delayed[data_id] = e
-                else:
-                    self._obj_store.store_delayed[data_ids] = e
-            else:
-                if data_ids is not None:
-                    if isinstance(data_ids, list) and len(data_ids) > 1:
-                        for data_id, val in zip(data_ids, value):
-                            self._obj_store.store_delayed[data_id] = val
-                    else:
-                        self._obj_store.store_delayed[data_ids] = value
+                self._put_exception(data_ids, e)
             finally:
                 self.task_queue.task_done()
         return
 
+    def _put_result(self, data_ids, value):
+        """
+        Put the result of a task into the object storage.
+
+        Parameters
+        ----------
+        data_ids : unidist.core.backends.common.data_id.DataID, list or None
+            ``DataID``-(s) associated with the result.
+        value : object
+            Value(s) returned from the task.
+        """
+        if data_ids is None:
+            return
+        if isinstance(data_ids, list) and len(data_ids) > 1:
+            values = list(itertools.islice(value, len(data_ids)))
+            if len(values) < len(data_ids):
+                raise ValueError(
+                    f"Task returned {len(values)} values, expected {len(data_ids)}"
+                )
+            for data_id, val in zip(data_ids, values):
+                self._obj_store.put(val, data_id)
+        else:
+            self._obj_store.put(value, data_ids)
+
+    def _put_exception(self, data_ids, exception):
+        """
+        Put the exception raised by a task into the object storage.
+
+        Parameters
+        ----------
+        data_ids : unidist.core.backends.common.data_id.DataID, list or None
+            ``DataID``-(s) associated with the result.
+        exception : Exception
+            Exception raised by the task.
+        """
+        if data_ids is None:
+            return
+        try:
+            # Make sure the exception can be restored in other processes
+            pkl.loads(pkl.dumps(exception))
+        except Exception:
+            exception = RuntimeError(
+                f"{type(exception).__name__}: {exception} (the original exception cannot be serialized)"
+            )
+        for data_id in data_ids if isinstance(data_ids, list) else [data_ids]:
+            self._obj_store.put(exception, data_id)
+
     def add_task(self, task):
         """
         Add `task` to `self.task_queue`.
-- 
2.43.0


From 2f34603ab1a988cbc0f8897833bb55f56c8dc726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:42 +0000
Subject: [PATCH 15/29] fix: PyMP wait returned wrong references, raised
 exceptions of tasks and waited for unfinished ones

---
 .../core/backends/pymp/core/object_store.py   | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/unidist/core/backends/pymp/core/object_store.py b/unidist/core/backends/pymp/core/object_store.py
index 3685004..fb5494b 100644
--- a/unidist/core/backends/pymp/core/object_store.py
+++ b/unidist/core/backends/pymp/core/object_store.py
@@ -133,19 +133,15 @@ class ObjectStore:
             data_ids = [data_ids]
 
         ready = list()
-        not_ready = list()
-
-        for idx, data_id in enumerate(data_ids[:]):
-            if not isinstance(self.store_delayed[data_id], Delayed):
-                ready.append(data_ids.pop(idx))
-
-            if len(ready) == num_returns:
-                break
-
-        not_ready = data_ids
+        not_ready = list(data_ids)
 
+        # Both successful and failed tasks are considered as finished
         while len(ready) != num_returns:
-            self.get(not_ready[0])
-            ready.append(not_ready.pop(0))
+            for data_id in not_ready[:]:
+                if not isinstance(self.store_delayed[data_id], Delayed):
+                    not_ready.remove(data_id)
+                    ready.append(data_id)
+                    if len(ready) == num_returns:
+                        break
 
         return ready, not_ready
-- 
2.43.0


From af63ec101369108c84309bacd8e95b625ece8079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:42 +0000
Subject: [PATCH 16/29] fix: PySeq raised the failure of a task when submitting
 a task that depends on it

---
 unidist/core/backends/pyseq/core/api.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/unidist/core/backends/pyseq/core/api.py b/unidist/core/backends/pyseq/core/api.py
index 84dcfbb..8fb6e9b 100644
--- a/unidist/core/backends/pyseq/core/api.py
+++ b/unidist/core/backends/pyseq/core/api.py
@@ -4,6 +4,7 @@
 
 """High-level API of Python Sequential backend."""
 
+import itertools
 
 from unidist.core.backends.common.data_id import DataID
 from unidist.core.backends.pyseq.core.object_store import ObjectStore
@@ -100,23 +101,28 @@ def submit(func, *args, num_returns=1, **kwargs):
     """
     obj_store = ObjectStore.get_instance()
 
-    materialized_args = [
-        obj_store.get(arg) if isinstance(arg, DataID) else arg for arg in args
-    ]
-    materialized_kwargs = {
-        key: obj_store.get(value) if isinstance(value, DataID) else value
-        for key, value in kwargs.items()
-    }
-
     try:
+        materialized_args = [
+            obj_store.get(arg) if isinstance(arg, DataID) else arg for arg in args
+        ]
+        materialized_kwargs = {
+            key: obj_store.get(value) if isinstance(value, DataID) else value
+            for key, value in kwargs.items()
+        }
         result = func(*materialized_args, **materialized_kwargs)
+        if num_returns > 1:
+            result = list(itertools.islice(result, num_returns))
+            if len(result) < num_returns:
+                raise ValueError(
+                    f"Task returned {len(result)} values, expected {num_returns}"
+                )
     except Exception as e:
         result = [e] * num_returns if num_returns > 1 else e
 
     if num_returns == 0:
         data_ids = None
     elif num_returns > 1:
-        data_ids = [obj_store.put(result[idx]) for idx in range(num_returns)]
+        data_ids = [obj_store.put(value) for value in result]
     else:
         data_ids = obj_store.put(result)
 
-- 
2.43.0


From 1d7265e4cd02d1f3e84aed6713410269231cf684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:58 +0000
Subject: [PATCH 17/29] fix: the parallel copy of a few bytes wrote outside of
 the destination, and of no bytes failed

---
 unidist/core/backends/mpi/core/memory/_memory.pyx | 2 ++
 unidist/core/backends/mpi/core/memory/memory.cpp  | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/unidist/core/backends/mpi/core/memory/_memory.pyx b/unidist/core/backends/mpi/core/memory/_memory.pyx
index af43c07..cbe54a0 100644
--- a/unidist/core/backends/mpi/core/memory/_memory.pyx
+++ b/unidist/core/backends/mpi/core/memory/_memory.pyx
@@ -19,6 +19,8 @@ def parallel_memcopy(const uint8_t[:] src, uint8_t[:] dst, int memcopy_threads):
     memcopy_threads : int
         Number of threads to write.
     """
+    if len(src) == 0:
+        return
     with nogil:
         memory.parallel_memcopy(&dst[0],
                                 &src[0],
diff --git a/unidist/core/backends/mpi/core/memory/memory.cpp b/unidist/core/backends/mpi/core/memory/memory.cpp
index 5eba543..c1a313c 100644
--- a/unidist/core/backends/mpi/core/memory/memory.cpp
+++ b/unidist/core/backends/mpi/core/memory/memory.cpp
@@ -29,6 +29,11 @@ namespace unidist {
     std::vector<std::thread> threadpool(num_threads);
     uint8_t *left = pointer_logical_and(src + block_size - 1, ~(block_size - 1));
     uint8_t *right = pointer_logical_and(src + nbytes, ~(block_size - 1));
+    if (right < left) {
+      // There is no block boundary within the data so there is nothing to divide.
+      std::memcpy(dst, src, nbytes);
+      return;
+    }
     int64_t num_blocks = (right - left) / block_size;
 
     // Update right address
-- 
2.43.0


From 3ba1a273ff2a96642ddaf021875b2801f09b67a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:58 +0000
Subject: [PATCH 18/29] fix: putting the text of a negative boolean set a
 config to True

---
 unidist/config/parameter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unidist/config/parameter.py b/unidist/config/parameter.py
index 271a344..30389f5 100644
--- a/unidist/config/parameter.py
+++ b/unidist/config/parameter.py
@@ -51,7 +51,11 @@ _TYPE_PARAMS = {
     ),
     bool: TypeDescriptor(
         decode=lambda value: value.strip().lower() in {"true", "yes", "1"},
-        normalize=bool,
+        normalize=lambda value: (
+            value.strip().lower() in {"true", "yes", "1"}
+            if isinstance(value, str)
+            else bool(value)
+        ),
         verify=lambda value: isinstance(value, bool)
         or (
             isinstance(value, str)
-- 
2.43.0


From 893a92b17b82dc2ba00fafd8de0808969d5d6799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:58 +0000
Subject: [PATCH 19/29] fix: a config value that is not among the choices
 replaced the previous value

---
 unidist/config/parameter.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/unidist/config/parameter.py b/unidist/config/parameter.py
index 30389f5..534edb5 100644
--- a/unidist/config/parameter.py
+++ b/unidist/config/parameter.py
@@ -212,14 +212,26 @@ class Parameter(object):
             else:
                 if not _TYPE_PARAMS[cls.type].verify(raw):
                     raise ValueError(f"Unsupported raw value: {raw}")
-                cls._value = _TYPE_PARAMS[cls.type].decode(raw)
+                value = _TYPE_PARAMS[cls.type].decode(raw)
+                cls._check_choices(value)
+                cls._value = value
                 cls._value_source = ValueSource.GOT_FROM_CFG_SOURCE
+        return cls._value
 
-        if cls.choices is not None and cls._value not in cls.choices:
+    @classmethod
+    def _check_choices(cls, value):
+        """
+        Check that the value is among the possible options.
+
+        Parameters
+        ----------
+        value : Any
+            Config value to check.
+        """
+        if cls.choices is not None and value not in cls.choices:
             raise ValueError(
-                f"Unsupported value '{cls._value}'. Supported set of values is {cls.choices}."
+                f"Unsupported value '{value}'. Supported set of values is {cls.choices}."
             )
-        return cls._value
 
     @classmethod
     def put(cls, value):
@@ -233,7 +245,9 @@ class Parameter(object):
         """
         if not _TYPE_PARAMS[cls.type].verify(value):
             raise ValueError(f"Unsupported value: {value}")
-        cls._value = _TYPE_PARAMS[cls.type].normalize(value)
+        value = _TYPE_PARAMS[cls.type].normalize(value)
+        cls._check_choices(value)
+        cls._value = value
         cls._value_source = ValueSource.SET_BY_USER
 
 
-- 
2.43.0


From 17d2db9250e20d6bca5c587ef9eb21c2bbb572ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:58 +0000
Subject: [PATCH 20/29] fix: reading the pickle threshold with the shared
 object store on lost the source of the value set for it

---
 unidist/config/backends/mpi/envvars.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/unidist/config/backends/mpi/envvars.py b/unidist/config/backends/mpi/envvars.py
index 417cfa7..e68ef8b 100644
--- a/unidist/config/backends/mpi/envvars.py
+++ b/unidist/config/backends/mpi/envvars.py
@@ -56,11 +56,23 @@ class MpiPickleThreshold(EnvironmentVariable, type=int):
         """
         if MpiSharedObjectStore.get():
             mpi_pickle_threshold = MpiSharedObjectStoreThreshold.get()
-            cls.put_value_source(MpiSharedObjectStoreThreshold.get_value_source())
         else:
             mpi_pickle_threshold = super().get()
         return mpi_pickle_threshold
 
+    @classmethod
+    def get_value_source(cls):
+        """
+        Get value source of the config.
+
+        Returns
+        -------
+        int
+        """
+        if MpiSharedObjectStore.get():
+            return MpiSharedObjectStoreThreshold.get_value_source()
+        return super().get_value_source()
+
 
 class MpiBackoff(EnvironmentVariable, type=float):
     """
-- 
2.43.0


From a965c6f52a4b9accea69ff0f6ef1fd91388e5a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:58 +0000
Subject: [PATCH 21/29] fix: runtime environment variables with quotes or
 backslashes broke the code of spawned processes

---
 unidist/core/backends/mpi/core/controller/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index ec0b481..6cd9ff5 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -187,7 +187,7 @@ def init():
                 if option == MpiRuntimeEnv.env_vars:
                     for env_var_name, env_var_value in value.items():
                         env_vars += [
-                            f"os.environ['{env_var_name}'] = '{env_var_value}'"
+                            f"os.environ[{env_var_name!r}] = {str(env_var_value)!r}"
                         ]
             py_str += env_vars
         py_str += ["unidist.init()"]
-- 
2.43.0


From 45b3f964c29dfa9c49712b1469de6d4dd4b6c3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:58 +0000
Subject: [PATCH 22/29] fix: shutdown waited for a process that is not the
 monitor of the driver's host

---
 unidist/core/backends/mpi/core/controller/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index 6cd9ff5..e4e344d 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -328,7 +328,7 @@ def shutdown():
         # Make sure that monitor has sent the shutdown signal to all workers.
         op_type = communication.mpi_recv_object(
             mpi_state.global_comm,
-            communication.MPIRank.MONITOR,
+            mpi_state.get_monitor_by_worker_rank(communication.MPIRank.ROOT),
         )
         if op_type != common.Operation.SHUTDOWN:
             raise ValueError(f"Got wrong operation type {op_type}.")
-- 
2.43.0


From 9549afa6f7ad10d8eb62e7f2b86c64700bcebdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:12 +0000
Subject: [PATCH 23/29] fix: monitors of several hosts mixed up cleanup lists
 received in a different order

---
 .../mpi/core/monitor/shared_memory_manager.py | 47 ++++++-------------
 1 file changed, 14 insertions(+), 33 deletions(-)

diff --git a/unidist/core/backends/mpi/core/monitor/shared_memory_manager.py b/unidist/core/backends/mpi/core/monitor/shared_memory_manager.py
index b873ff4..842bf2f 100644
--- a/unidist/core/backends/mpi/core/monitor/shared_memory_manager.py
+++ b/unidist/core/backends/mpi/core/monitor/shared_memory_manager.py
@@ -4,23 +4,10 @@
 
 """`SharedMemoryManager` functionality."""
 
-from array import array
-
-try:
-    import mpi4py
-except ImportError:
-    raise ImportError(
-        "Missing dependency 'mpi4py'. Use pip or conda to install it."
-    ) from None
-
 from unidist.core.backends.mpi.core import communication, common
 from unidist.core.backends.mpi.core.shared_object_store import SharedObjectStore
 from unidist.core.backends.mpi.utils import ImmutableDict
 
-# TODO: Find a way to move this after all imports
-mpi4py.rc(recv_mprobe=False, initialize=False)
-from mpi4py import MPI  # noqa: E402
-
 
 class FreeMemoryRange:
     """
@@ -206,30 +193,24 @@ class SharedMemoryManager:
         cleanup_list = self.pending_cleanup + data_id_list
         self.pending_cleanup = []
 
-        has_refs = array(
-            "B",
-            [
-                (
-                    1
-                    if data_id in self._reservation_info
-                    and self.shared_store.get_ref_number(
-                        data_id, self._reservation_info[data_id]["service_index"]
-                    )
-                    > 0
-                    else 0
-                )
-                for data_id in cleanup_list
-            ],
-        )
+        has_refs = {
+            data_id: data_id in self._reservation_info
+            and self.shared_store.get_ref_number(
+                data_id, self._reservation_info[data_id]["service_index"]
+            )
+            > 0
+            for data_id in cleanup_list
+        }
 
+        # Monitors can receive the lists of different processes in a different order,
+        # so wait until every monitor is requested to clear the `data_id`.
         if self.monitor_comm is not None:
-            all_refs = array("B", [0] * len(has_refs))
-            self.monitor_comm.Allreduce(has_refs, all_refs, MPI.MAX)
+            all_refs = self.monitor_comm.allgather(has_refs)
         else:
-            all_refs = has_refs
+            all_refs = [has_refs]
 
-        for data_id, referers in zip(cleanup_list, all_refs):
-            if referers == 0:
+        for data_id in has_refs:
+            if not any(refs.get(data_id, True) for refs in all_refs):
                 if data_id in self._reservation_info:
                     reservation_info = self._reservation_info[data_id]
                     self.shared_store.delete_service_info(
-- 
2.43.0


From e4673584e1c0341f0d9d4bff68c73f134353e8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:12 +0000
Subject: [PATCH 24/29] fix: shutdown hung if a monitor had not processed a
 cleanup request of the driver

---
 unidist/core/backends/mpi/core/controller/api.py | 11 ++++++++++-
 unidist/core/backends/mpi/core/monitor/loop.py   | 11 +++++++----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index e4e344d..ee76d4a 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -325,10 +325,19 @@ def shutdown():
                 rank_id,
             )
             logger.debug("Shutdown rank {}".format(rank_id))
+        root_monitor = mpi_state.get_monitor_by_worker_rank(
+            communication.MPIRank.ROOT
+        )
+        # Monitor should process all previous operations of the root process before the shutdown.
+        communication.mpi_send_operation(
+            mpi_state.global_comm,
+            common.Operation.READY_TO_SHUTDOWN,
+            root_monitor,
+        )
         # Make sure that monitor has sent the shutdown signal to all workers.
         op_type = communication.mpi_recv_object(
             mpi_state.global_comm,
-            mpi_state.get_monitor_by_worker_rank(communication.MPIRank.ROOT),
+            root_monitor,
         )
         if op_type != common.Operation.SHUTDOWN:
             raise ValueError(f"Got wrong operation type {op_type}.")
diff --git a/unidist/core/backends/mpi/core/monitor/loop.py b/unidist/core/backends/mpi/core/monitor/loop.py
index 8142b5d..471072d 100755
--- a/unidist/core/backends/mpi/core/monitor/loop.py
+++ b/unidist/core/backends/mpi/core/monitor/loop.py
@@ -190,10 +190,10 @@ def monitor_loop():
     # Barrier to check if monitor process is ready to start the communication loop
     mpi_state.global_comm.Barrier()
     monitor_logger.debug("Monitor loop started")
-    # Once all workers excluding ``Root`` and ``Monitor`` ranks are ready to shutdown,
+    # Once all workers and ``Root`` are ready to shutdown,
     # ``Monitor` sends the shutdown signal to every worker, as well as notifies ``Root`` that
     # it can exit the program.
-    workers_ready_to_shutdown = []
+    ranks_ready_to_shutdown = []
     shutdown_workers = False
     while True:
         # Listen receive operation from any source
@@ -274,8 +274,11 @@ def monitor_loop():
             cleanup_list = [common.MpiDataID(*tpl) for tpl in cleanup_list]
             shm_manager.clear(cleanup_list)
         elif operation_type == common.Operation.READY_TO_SHUTDOWN:
-            workers_ready_to_shutdown.append(source_rank)
-            shutdown_workers = len(workers_ready_to_shutdown) == len(mpi_state.workers)
+            ranks_ready_to_shutdown.append(source_rank)
+            # +1 for ``Root``
+            shutdown_workers = (
+                len(ranks_ready_to_shutdown) == len(mpi_state.workers) + 1
+            )
         elif operation_type == common.Operation.SHUTDOWN:
             SharedObjectStore.get_instance().finalize()
             if not MPI.Is_finalized():
-- 
2.43.0


From a3345855ff00501a5582b8f8d387582069267069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:59 +0000
Subject: [PATCH 25/29] fix: references to shared data dropped while the
 service window was locked were never released

---
 .../backends/mpi/core/shared_object_store.py  | 29 +++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/unidist/core/backends/mpi/core/shared_object_store.py b/unidist/core/backends/mpi/core/shared_object_store.py
index 6e9ee88..b595d8a 100644
--- a/unidist/core/backends/mpi/core/shared_object_store.py
+++ b/unidist/core/backends/mpi/core/shared_object_store.py
@@ -4,9 +4,11 @@
 
 """`SharedObjectStore` functionality."""
 
+import collections
 import ctypes
 import os
 import sys
+import threading
 import time
 import warnings
 import psutil
@@ -52,16 +54,22 @@ class WinLock:
     This class should be used as a context manager.
     """
 
+    # MPI forbids a process to lock a window that is already locked by the process.
+    # The mutex is held by a thread of the process that works with the locked window.
+    mutex = threading.Lock()
+
     def __init__(self, win):
         self.win = win
 
     def __enter__(self):
         """Lock the current MPI.Window for other processes."""
+        self.mutex.acquire()
         self.win.Lock(communication.MPIRank.MONITOR)
 
     def __exit__(self, *args):
         """Unlock the current MPI.Window for other processes."""
         self.win.Unlock(communication.MPIRank.MONITOR)
+        self.mutex.release()
 
 
 class SharedObjectStore:
@@ -119,6 +127,8 @@ class SharedObjectStore:
         self._shared_info = weakref.WeakKeyDictionary()
         # The list of `weakref.finalize` which should be canceled before closing the shared memory.
         self.finalizers = []
+        # References which are no longer used but are not yet subtracted from the number of references.
+        self._released_references = collections.deque()
 
     def _get_allowed_memory_size(self):
         """
@@ -312,6 +322,7 @@ class SharedObjectStore:
             self.logger.debug(
                 f"Rank {communication.MPIState.get_instance().global_rank}: Increment references number for {data_id} from {prev_ref_number} to {prev_ref_number + 1}"
             )
+        self._decrement_released_references()
         self.finalizers.append(
             weakref.finalize(
                 data_id if referent is None else referent,
@@ -341,8 +352,18 @@ class SharedObjectStore:
         # we must set service_index in args because the shared_info will be deleted before than this function is called
         if MPI.Is_finalized():
             return
-        if self._check_service_info(data_id, service_index):
-            with WinLock(self.service_win):
+        # The Python garbage collector can call this function at any point and in any thread,
+        # even if the window is already locked by the process. In that case the references number
+        # is decremented as soon as the window is unlocked.
+        self._released_references.append((data_id, service_index))
+        self._decrement_released_references()
+
+    def _decrement_released_references(self):
+        """Decrement the number of references for all released references unless the window is locked by the process."""
+        while self._released_references and WinLock.mutex.acquire(blocking=False):
+            self.service_win.Lock(communication.MPIRank.MONITOR)
+            data_id, service_index = self._released_references.popleft()
+            if self._check_service_info(data_id, service_index):
                 prev_ref_number = self.service_shared_buffer[
                     service_index + self.REFERENCES_NUMBER
                 ]
@@ -352,6 +373,8 @@ class SharedObjectStore:
                 self.logger.debug(
                     f"Rank {communication.MPIState.get_instance().global_rank}: Decrement references number for {data_id} from {prev_ref_number} to {prev_ref_number - 1}"
                 )
+            self.service_win.Unlock(communication.MPIRank.MONITOR)
+            WinLock.mutex.release()
 
     def _put_service_info(self, service_index, data_id, first_index):
         """
@@ -381,6 +404,7 @@ class SharedObjectStore:
                 data_number
             )
             self.service_shared_buffer[service_index + self.WORKER_ID_INDEX] = worker_id
+        self._decrement_released_references()
 
         self.finalizers.append(
             weakref.finalize(
@@ -729,6 +753,7 @@ class SharedObjectStore:
                     f"Service index: {service_index} First index: {old_first_index} References number: {old_references_number}"
                 )
                 raise RuntimeError("Unexpected data_id for cleanup shared memory")
+        self._decrement_released_references()
 
     def put(self, data_id, serialized_data):
         """
-- 
2.43.0


From 59611264039109537522384ff4ffd679bdf946d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:27 +0000
Subject: [PATCH 26/29] fix: references dropped while a cleanup request was
 being sent were never reclaimed

---
 .../core/backends/mpi/core/controller/garbage_collector.py  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/unidist/core/backends/mpi/core/controller/garbage_collector.py b/unidist/core/backends/mpi/core/controller/garbage_collector.py
index 58b015b..805feae 100644
--- a/unidist/core/backends/mpi/core/controller/garbage_collector.py
+++ b/unidist/core/backends/mpi/core/controller/garbage_collector.py
@@ -136,8 +136,10 @@ class GarbageCollector:
                         )
                     )
                     if executed_task_counter == self._task_counter:
-                        self._send_cleanup_request(self._cleanup_list)
-                        self._cleanup_list.clear()
+                        # IDs can be added to the list while it is being sent
+                        cleanup_list = self._cleanup_list[:]
+                        self._send_cleanup_request(cleanup_list)
+                        del self._cleanup_list[: len(cleanup_list)]
                         self._cleanup_counter += 1
                         self._timestamp = time.perf_counter()
             else:
-- 
2.43.0


From 92a65fa55c3cbe07b09fa66ef80f91a5ab130d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:23 +0000
Subject: [PATCH 27/29] fix: tuples and sets with local functions or classes
 could not be serialized

---
 unidist/core/backends/mpi/core/serialization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unidist/core/backends/mpi/core/serialization.py b/unidist/core/backends/mpi/core/serialization.py
index 5098d01..4b6dcdc 100755
--- a/unidist/core/backends/mpi/core/serialization.py
+++ b/unidist/core/backends/mpi/core/serialization.py
@@ -67,6 +67,8 @@ def is_cpkl_serializable(data):
         or inspect.ismethod(data)
         or data.__class__.__module__ != "builtins"
         or isinstance(data, KeysView)
+        # items can be any objects, including those that only cloudpickle is able to serialize
+        or isinstance(data, (tuple, set, frozenset))
     )
 
 
-- 
2.43.0


From 7c8a30231feea6664a556bb1c0afffdbc3b17561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:21 +0000
Subject: [PATCH 28/29] fix: arguments passed by value changed if the caller
 modified them before the transfer completed

---
 unidist/core/backends/mpi/core/communication.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/communication.py b/unidist/core/backends/mpi/core/communication.py
index 2eb7663..22d0fc0 100755
--- a/unidist/core/backends/mpi/core/communication.py
+++ b/unidist/core/backends/mpi/core/communication.py
@@ -799,7 +799,9 @@ def isend_complex_data(comm, data, dest_rank, is_serialized=False):
     else:
         serialized_data = serialize_complex_data(data)
         s_data = serialized_data["s_data"]
-        raw_buffers = serialized_data["raw_buffers"]
+        # We make a copy because the original buffers belong to the user
+        # and can be modified before the non-blocking send completes.
+        raw_buffers = [buf.tobytes() for buf in serialized_data["raw_buffers"]]
         buffer_count = serialized_data["buffer_count"]
         info_package = common.MetadataPackage.get_task_info(
             len(s_data), [len(sbuf) for sbuf in raw_buffers], buffer_count
-- 
2.43.0


From 18a08844650a0a1f58527a15e318f8049f51b2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:06 +0000
Subject: [PATCH 29/29] fix: raising the exception of a task kept the frames of
 the caller and their references alive for good

---
 unidist/core/backends/mpi/core/controller/api.py    | 5 ++++-
 unidist/core/backends/mpi/core/controller/common.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index ee76d4a..51f12b5 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -4,6 +4,7 @@
 
 """High-level API of MPI backend."""
 
+import copy
 import os
 import sys
 import atexit
@@ -444,7 +445,9 @@ def get(data_ids):
     local_store = LocalObjectStore.get_instance()
     for data_id, value in zip(data_ids, values):
         if isinstance(value, Exception) and local_store.contains_data_owner(data_id):
-            raise value
+            # The stored exception itself must not be raised, otherwise its traceback
+            # would keep the frames of callers (and data IDs there) alive.
+            raise copy.copy(value)
 
     # Initiate reference count based cleaup
     # if all the tasks were completed
diff --git a/unidist/core/backends/mpi/core/controller/common.py b/unidist/core/backends/mpi/core/controller/common.py
index 72f4dac..77fc039 100644
--- a/unidist/core/backends/mpi/core/controller/common.py
+++ b/unidist/core/backends/mpi/core/controller/common.py
@@ -4,6 +4,7 @@
 
 """Common functionality related to `controller`."""
 
+import copy
 import itertools
 
 from unidist.core.backends.common.data_id import is_data_id
@@ -232,7 +233,9 @@ def request_worker_data(data_ids):
                 f"DataID {data_id} isn't in the requested list {data_ids}"
             )
     if exception_raised:
-        raise exception_raised
+        # The stored exception itself must not be raised, otherwise its traceback
+        # would keep the frames of callers (and data IDs there) alive.
+        raise copy.copy(exception_raised)
 
 
 def _push_local_data(dest_rank, data_id, is_blocking_op, is_serialized):
-- 
2.43.0

