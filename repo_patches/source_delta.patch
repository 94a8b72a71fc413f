From fc4181859850b281cd99960aa8a3c46f35e8a353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:10 +0000
Subject: [PATCH 01/41] fix: PriorityQueue.max_priority detached the heap entry
 from the locator

---
 scaled/utility/queues/async_priority_queue.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scaled/utility/queues/async_priority_queue.py b/scaled/utility/queues/async_priority_queue.py
index 4f976c0..3e256e3 100644
--- a/scaled/utility/queues/async_priority_queue.py
+++ b/scaled/utility/queues/async_priority_queue.py
@@ -46,6 +46,5 @@ class PriorityQueue(Queue):
         heapq._siftdown(self._queue, 0, i)  # type: ignore # noqa
 
     def max_priority(self):
-        priority, item = heapq.heappop(self._queue)
-        heapq.heappush(self._queue, [priority, item])
-        return priority
+        # peek only: the entries in the heap are shared with the locator, they must not be replaced by copies
+        return self._queue[0][0]
-- 
2.43.0


From 580821cb0781c7f2226517a7e29be1080ee6560f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:10 +0000
Subject: [PATCH 02/41] fix: graph node using the same dependency twice crashed
 the scheduler

---
 scaled/scheduler/graph_manager.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/scaled/scheduler/graph_manager.py b/scaled/scheduler/graph_manager.py
index 8ab0e8a..8cf6cb1 100644
--- a/scaled/scheduler/graph_manager.py
+++ b/scaled/scheduler/graph_manager.py
@@ -187,9 +187,13 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
 
         for task_id in ready_task_ids:
             task_info = graph_info.tasks[task_id]
+            required_task_ids = {arg.data for arg in task_info.task.function_args if arg.type == ArgumentType.Task}
             task_info.task.function_args = [
-                self.__get_argument(graph_task_id, task_id, arg) for arg in task_info.task.function_args
+                self.__get_argument(graph_task_id, arg) for arg in task_info.task.function_args
             ]
+            for required_task_id in required_task_ids:
+                self.__release_dependency(graph_task_id, task_id, required_task_id)
+
             task_info.state = _TaskState.Running
             await self._task_manager.on_task_new(graph_info.client, task_info.task)
 
@@ -239,26 +243,19 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
         graph_info = self._graph_task_id_to_graph[graph_task_id]
         return [graph_info.tasks[task_id].result for task_id in graph_info.target_task_ids]
 
-    def __get_argument(self, graph_task_id: bytes, task_id: bytes, argument: Argument) -> Argument:
+    def __get_argument(self, graph_task_id: bytes, argument: Argument) -> Argument:
         if argument.type == ArgumentType.Data:
             return argument
 
         assert argument.type == ArgumentType.Task
-        argument_task_id = argument.data
-
-        result = self.__get_task_result(graph_task_id, task_id, argument_task_id)
-        return Argument(ArgumentType.Data, result)
+        return Argument(ArgumentType.Data, self._graph_task_id_to_graph[graph_task_id].tasks[argument.data].result)
 
-    def __get_task_result(self, graph_task_id: bytes, task_id: bytes, argument_task_id: bytes) -> bytes:
+    def __release_dependency(self, graph_task_id: bytes, task_id: bytes, required_task_id: bytes):
         graph_info = self._graph_task_id_to_graph[graph_task_id]
-        graph_info.dependencies.remove_value(argument_task_id, task_id)
-
-        task_info = graph_info.tasks[argument_task_id]
-        if argument_task_id in graph_info.dependencies:
-            return task_info.result
-
-        if argument_task_id not in graph_info.target_task_ids:
-            self._task_id_to_graph_task_id.pop(argument_task_id)
-            graph_info.tasks.pop(argument_task_id)
+        graph_info.dependencies.remove_value(required_task_id, task_id)
+        if required_task_id in graph_info.dependencies:
+            return
 
-        return task_info.result
+        if required_task_id not in graph_info.target_task_ids:
+            self._task_id_to_graph_task_id.pop(required_task_id)
+            graph_info.tasks.pop(required_task_id)
-- 
2.43.0


From 1e63c14d00103201b3270b6479762f1ffce2b056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:10 +0000
Subject: [PATCH 03/41] fix: cancelling an unknown or finished graph crashed
 the scheduler

---
 scaled/scheduler/graph_manager.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scaled/scheduler/graph_manager.py b/scaled/scheduler/graph_manager.py
index 8cf6cb1..82adabe 100644
--- a/scaled/scheduler/graph_manager.py
+++ b/scaled/scheduler/graph_manager.py
@@ -1,5 +1,6 @@
 import dataclasses
 import enum
+import logging
 from asyncio import Queue
 from graphlib import TopologicalSorter
 from typing import Dict
@@ -107,6 +108,10 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
         await self._unassigned.put((client, graph_task))
 
     async def on_graph_task_cancel(self, graph_task_cancel: GraphTaskCancel):
+        if graph_task_cancel.task_id not in self._graph_task_id_to_graph:
+            logging.warning(f"cannot cancel graph is not running: graph_task_id={graph_task_cancel.task_id.hex()}")
+            return
+
         await self.__clean_graph(graph_task_cancel.task_id)
 
     async def on_task_done(self, result: TaskResult) -> bool:
-- 
2.43.0


From 1c93a44fbf1be721c172deab0f7e88e6e331e8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:10 +0000
Subject: [PATCH 04/41] fix: ending a graph with a node still waiting for a
 worker crashed the scheduler

---
 scaled/scheduler/graph_manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scaled/scheduler/graph_manager.py b/scaled/scheduler/graph_manager.py
index 82adabe..d734f1e 100644
--- a/scaled/scheduler/graph_manager.py
+++ b/scaled/scheduler/graph_manager.py
@@ -211,6 +211,9 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
         client = await self._client_manager.on_task_done(graph_task_id)
         graph_info = self._graph_task_id_to_graph.pop(graph_task_id)
 
+        for task_id in graph_info.task_ids:
+            self._task_id_to_graph_task_id.pop(task_id, None)
+
         for task_id in graph_info.task_ids:
             if task_id not in graph_info.tasks:
                 continue
@@ -223,8 +226,6 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
             else:
                 pass
 
-            self._task_id_to_graph_task_id.pop(task_id, None)
-
         return graph_info
 
     def __mark_node_done(self, graph_task_id: bytes, result: TaskResult):
-- 
2.43.0


From b0ddc13260ef11d9d82c57d373740d02f0491bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:10 +0000
Subject: [PATCH 05/41] fix: a graph node reported as not found crashed the
 scheduler

---
 scaled/scheduler/graph_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaled/scheduler/graph_manager.py b/scaled/scheduler/graph_manager.py
index d734f1e..7953878 100644
--- a/scaled/scheduler/graph_manager.py
+++ b/scaled/scheduler/graph_manager.py
@@ -236,7 +236,7 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
 
         if result.status == TaskStatus.Success:
             task_info.state = _TaskState.Success
-        elif result.status == TaskStatus.Canceled:
+        elif result.status in {TaskStatus.Canceled, TaskStatus.NotFound}:
             task_info.state = _TaskState.Canceled
         elif result.status == TaskStatus.Failed:
             task_info.state = _TaskState.Failed
-- 
2.43.0


From b624be24649fb7b49a096d08864e44994b372768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:10 +0000
Subject: [PATCH 06/41] fix: deleting an unused function crashed the scheduler

---
 scaled/scheduler/function_manager.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/scaled/scheduler/function_manager.py b/scaled/scheduler/function_manager.py
index 25e25c1..ec99d5e 100644
--- a/scaled/scheduler/function_manager.py
+++ b/scaled/scheduler/function_manager.py
@@ -135,14 +135,12 @@ class VanillaFunctionManager(FunctionManager, Looper, Reporter):
             await self.__send_function_response(client, function_id, FunctionResponseType.NotExists)
             return
 
-        if len(self._function_id_to_task_ids.get_values(function_id)) > 0:
+        if function_id in self._function_id_to_task_ids:
             await self.__send_function_response(client, function_id, FunctionResponseType.StillHaveTask)
             return
 
         self._function_id_to_func_info.pop(function_id)
-        self._function_id_to_task_ids.remove_key(function_id)
-
-        await self.__send_function_response(client, function_id, FunctionResponseType.StillHaveTask)
+        await self.__send_function_response(client, function_id, FunctionResponseType.OK)
 
     async def __send_function_response(self, client: bytes, function_id: bytes, response_type: FunctionResponseType):
         await self._binder.send(client, FunctionResponse(response_type, function_id, b"", b""))
-- 
2.43.0


From 6cd2cccea851d48077431a565c9f49a50226cd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:10 +0000
Subject: [PATCH 07/41] fix: load balancing never triggered with
 load_balance_trigger_times=1

---
 scaled/scheduler/worker_manager.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scaled/scheduler/worker_manager.py b/scaled/scheduler/worker_manager.py
index bc2149d..3711646 100644
--- a/scaled/scheduler/worker_manager.py
+++ b/scaled/scheduler/worker_manager.py
@@ -139,8 +139,7 @@ class VanillaWorkerManager(WorkerManager, Looper, Reporter):
         current_advice = self._allocator.balance()
         if self._last_balance_advice != current_advice:
             self._last_balance_advice = current_advice
-            self._load_balance_advice_same_count = 1
-            return
+            self._load_balance_advice_same_count = 0
 
         self._load_balance_advice_same_count += 1
         if self._load_balance_advice_same_count != self._load_balance_trigger_times:
-- 
2.43.0


From 511d951ca9e7aae9f31f11d16f100a5983b3370b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:10 +0000
Subject: [PATCH 08/41] fix: without any worker the first waiting task could
 not be cancelled and was not reported

---
 scaled/scheduler/allocators/queued.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scaled/scheduler/allocators/queued.py b/scaled/scheduler/allocators/queued.py
index a791c18..de8d4e4 100644
--- a/scaled/scheduler/allocators/queued.py
+++ b/scaled/scheduler/allocators/queued.py
@@ -55,6 +55,10 @@ class QueuedAllocator(TaskAllocator):
         return {worker: math.ceil(count - mean) for worker, count in worker_task_count.items() if count > mean}
 
     async def assign_task(self, task_id: bytes) -> Optional[bytes]:
+        if not self.has_available_worker():
+            # waiting here for a worker would keep the task out of reach of cancel requests and statistics
+            return None
+
         count, worker = await self._worker_queue.get()
         if count == self._max_tasks_per_worker:
             await self._worker_queue.put([count, worker])
-- 
2.43.0


From 6b472d2d31788732049c28f0f4fc0dab4a4c6754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:41 +0000
Subject: [PATCH 09/41] fix: a cancelled task was started again when its worker
 died or gave it back

---
 scaled/scheduler/task_manager.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scaled/scheduler/task_manager.py b/scaled/scheduler/task_manager.py
index 1a67ae1..586054e 100644
--- a/scaled/scheduler/task_manager.py
+++ b/scaled/scheduler/task_manager.py
@@ -37,6 +37,7 @@ class VanillaTaskManager(TaskManager, Looper, Reporter):
 
         self._unassigned: IndexedQueue[bytes] = IndexedQueue()
         self._running: Set[bytes] = set()
+        self._canceling: Set[bytes] = set()
 
         self._success_count: int = 0
         self._failed_count: int = 0
@@ -105,6 +106,11 @@ class VanillaTaskManager(TaskManager, Looper, Reporter):
     async def on_task_reroute(self, task_id: bytes):
         assert self._client_manager.get_client_id(task_id) is not None
 
+        if task_id in self._canceling:
+            # the worker that was asked to cancel it gave it back or is gone: it must not be started again
+            await self.on_task_done(TaskResult(task_id, TaskStatus.Canceled, 0, b""))
+            return
+
         self._running.remove(task_id)
         await self._unassigned.put(task_id)
         await self.__send_monitor(task_id, TaskStatus.Inactive)
@@ -118,6 +124,7 @@ class VanillaTaskManager(TaskManager, Looper, Reporter):
             logging.warning(f"cannot cancel task is not running: task_id={task_cancel.task_id.hex()}")
             return
 
+        self._canceling.add(task_cancel.task_id)
         await self._worker_manager.on_task_cancel(client, task_cancel)
         await self.__send_monitor(task_cancel.task_id, TaskStatus.Canceling)
 
@@ -136,6 +143,7 @@ class VanillaTaskManager(TaskManager, Looper, Reporter):
         elif result.task_id in self._running:
             self._running.remove(result.task_id)
 
+        self._canceling.discard(result.task_id)
         await self.__send_monitor(result.task_id, result.status)
 
         self._task_id_to_task.pop(result.task_id)
-- 
2.43.0


From c3f82edcdb91304e0861411a9b0995436379ec57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:41 +0000
Subject: [PATCH 10/41] fix: a late balance response took the task away from
 the worker it was rerouted to

---
 scaled/scheduler/main.py           | 2 +-
 scaled/scheduler/mixins.py         | 2 +-
 scaled/scheduler/worker_manager.py | 7 ++++---
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/scaled/scheduler/main.py b/scaled/scheduler/main.py
index 1edcaa3..79d56cf 100644
--- a/scaled/scheduler/main.py
+++ b/scaled/scheduler/main.py
@@ -95,7 +95,7 @@ class Scheduler:
             return
 
         if isinstance(message, BalanceResponse):
-            await self._worker_manager.on_balance_response(message)
+            await self._worker_manager.on_balance_response(source, message)
             return
 
         if isinstance(message, GraphTask):
diff --git a/scaled/scheduler/mixins.py b/scaled/scheduler/mixins.py
index 73851cb..aef5a7d 100644
--- a/scaled/scheduler/mixins.py
+++ b/scaled/scheduler/mixins.py
@@ -108,7 +108,7 @@ class WorkerManager(metaclass=abc.ABCMeta):
         raise NotImplementedError()
 
     @abc.abstractmethod
-    async def on_balance_response(self, response: BalanceResponse):
+    async def on_balance_response(self, worker: bytes, response: BalanceResponse):
         raise NotImplementedError()
 
     @abc.abstractmethod
diff --git a/scaled/scheduler/worker_manager.py b/scaled/scheduler/worker_manager.py
index 3711646..5165710 100644
--- a/scaled/scheduler/worker_manager.py
+++ b/scaled/scheduler/worker_manager.py
@@ -77,13 +77,14 @@ class VanillaWorkerManager(WorkerManager, Looper, Reporter):
 
         await self._task_manager.on_task_done(task_result)
 
-    async def on_balance_response(self, response: BalanceResponse):
+    async def on_balance_response(self, worker: bytes, response: BalanceResponse):
         task_ids = []
         for task_id in response.task_ids:
-            worker = self._allocator.remove_task(task_id)
-            if worker is None:
+            if self._allocator.get_assigned_worker(task_id) != worker:
+                # it ended, or was rerouted to another worker after this worker was considered dead
                 continue
 
+            self._allocator.remove_task(task_id)
             task_ids.append(task_id)
 
         await self.__reroute_tasks(task_ids=task_ids)
-- 
2.43.0


From 661cda48be6915e0d184e604e300823cf34c04b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:41 +0000
Subject: [PATCH 11/41] fix: submitting a task id that is still in progress
 crashed the scheduler or ran it twice

---
 scaled/scheduler/task_manager.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scaled/scheduler/task_manager.py b/scaled/scheduler/task_manager.py
index 586054e..1d20268 100644
--- a/scaled/scheduler/task_manager.py
+++ b/scaled/scheduler/task_manager.py
@@ -84,6 +84,10 @@ class VanillaTaskManager(TaskManager, Looper, Reporter):
         }
 
     async def on_task_new(self, client: bytes, task: Task):
+        if task.task_id in self._task_id_to_task:
+            await self._binder.send(client, TaskEcho(task.task_id, TaskEchoStatus.Duplicated))
+            return
+
         if not self._function_manager.has_function(task.function_id):
             await self._binder.send(client, TaskEcho(task.task_id, TaskEchoStatus.FunctionNotExists))
             return
-- 
2.43.0


From 5c0daf629c58b265dff2eab54ca276fc9d0f1a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:41 +0000
Subject: [PATCH 12/41] fix: a task result with a status that is not final
 ended the task or crashed the scheduler

---
 scaled/scheduler/worker_manager.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scaled/scheduler/worker_manager.py b/scaled/scheduler/worker_manager.py
index 5165710..f4e6c55 100644
--- a/scaled/scheduler/worker_manager.py
+++ b/scaled/scheduler/worker_manager.py
@@ -17,12 +17,15 @@ from scaled.protocol.python.message import HeartbeatEcho
 from scaled.protocol.python.message import Task
 from scaled.protocol.python.message import TaskCancel
 from scaled.protocol.python.message import TaskResult
+from scaled.protocol.python.message import TaskStatus
 from scaled.scheduler.allocators.queued import QueuedAllocator
 from scaled.scheduler.mixins import Looper
 from scaled.scheduler.mixins import Reporter
 from scaled.scheduler.mixins import TaskManager
 from scaled.scheduler.mixins import WorkerManager
 
+FINAL_TASK_STATUSES = {TaskStatus.Success, TaskStatus.Failed, TaskStatus.Canceled, TaskStatus.NotFound}
+
 
 class VanillaWorkerManager(WorkerManager, Looper, Reporter):
     def __init__(
@@ -67,6 +70,10 @@ class VanillaWorkerManager(WorkerManager, Looper, Reporter):
         await self._binder.send(worker, TaskCancel(task_cancel.task_id))
 
     async def on_task_done(self, task_result: TaskResult):
+        if task_result.status not in FINAL_TASK_STATUSES:
+            logging.error(f"received task result with unexpected status: {task_result}")
+            return
+
         worker = self._allocator.remove_task(task_result.task_id)
         if worker is None:
             logging.error(
-- 
2.43.0


From 96df4399fe9d72150ce8f68a238ddd1e042c8504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:41 +0000
Subject: [PATCH 13/41] fix: a malformed message stopped the scheduler

---
 scaled/io/async_binder.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scaled/io/async_binder.py b/scaled/io/async_binder.py
index 4233360..3d9227c 100644
--- a/scaled/io/async_binder.py
+++ b/scaled/io/async_binder.py
@@ -53,7 +53,12 @@ class AsyncBinder(Looper, Reporter):
         message_type = MessageType(message_type_bytes)
         self.__count_one("received", message_type)
 
-        message = PROTOCOL[message_type].deserialize(payload)
+        try:
+            message = PROTOCOL[message_type].deserialize(payload)
+        except Exception:
+            logging.exception(f"{self.__get_prefix()} received malformed {message_type} from {source!r}")
+            return
+
         await self._callback(source, message)
 
     async def statistics(self) -> Dict:
-- 
2.43.0


From 850684a1fc89e7dcbf406eab52f3a3e600baca1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:41 +0000
Subject: [PATCH 14/41] fix: a peer identity or function name that is not utf-8
 stopped the scheduler

---
 scaled/scheduler/client_manager.py   | 2 +-
 scaled/scheduler/function_manager.py | 2 +-
 scaled/scheduler/worker_manager.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scaled/scheduler/client_manager.py b/scaled/scheduler/client_manager.py
index 5bb74f4..3088317 100644
--- a/scaled/scheduler/client_manager.py
+++ b/scaled/scheduler/client_manager.py
@@ -29,5 +29,5 @@ class VanillaClientManager(ClientManager, Looper, Reporter):
 
     async def statistics(self) -> Dict:
         return {
-            "client_manager": {client.decode(): len(task_ids) for client, task_ids in self._client_to_task_ids.items()}
+            "client_manager": {client.decode(errors="backslashreplace"): len(task_ids) for client, task_ids in self._client_to_task_ids.items()}
         }
diff --git a/scaled/scheduler/function_manager.py b/scaled/scheduler/function_manager.py
index ec99d5e..131316d 100644
--- a/scaled/scheduler/function_manager.py
+++ b/scaled/scheduler/function_manager.py
@@ -91,7 +91,7 @@ class VanillaFunctionManager(FunctionManager, Looper, Reporter):
     async def statistics(self) -> Dict:
         return {
             "function_manager": {
-                self._function_id_to_func_info[k].function_name.decode(): len(v)
+                self._function_id_to_func_info[k].function_name.decode(errors="backslashreplace"): len(v)
                 for k, v in self._function_id_to_task_ids.items()
             }
         }
diff --git a/scaled/scheduler/worker_manager.py b/scaled/scheduler/worker_manager.py
index f4e6c55..1fba5d0 100644
--- a/scaled/scheduler/worker_manager.py
+++ b/scaled/scheduler/worker_manager.py
@@ -122,7 +122,7 @@ class VanillaWorkerManager(WorkerManager, Looper, Reporter):
         return {
             "worker_manager": [
                 {
-                    "worker": worker.decode(),
+                    "worker": worker.decode(errors="backslashreplace"),
                     "agt_cpu": info.agent_cpu,
                     "agt_rss": info.agent_rss,
                     "cpu": info.worker_cpu,
-- 
2.43.0


From a57bb0c52c88c8cfbb72edebd23b3478d86e86ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:41 +0000
Subject: [PATCH 15/41] fix: status report dropped the task number of all but
 one of the functions sharing a name

---
 scaled/scheduler/function_manager.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/scaled/scheduler/function_manager.py b/scaled/scheduler/function_manager.py
index 131316d..3f5ed43 100644
--- a/scaled/scheduler/function_manager.py
+++ b/scaled/scheduler/function_manager.py
@@ -89,12 +89,12 @@ class VanillaFunctionManager(FunctionManager, Looper, Reporter):
             await self._worker_manager.on_delete_function(function_id)
 
     async def statistics(self) -> Dict:
-        return {
-            "function_manager": {
-                self._function_id_to_func_info[k].function_name.decode(errors="backslashreplace"): len(v)
-                for k, v in self._function_id_to_task_ids.items()
-            }
-        }
+        name_to_task_numbers: Dict[str, int] = dict()
+        for function_id, task_ids in self._function_id_to_task_ids.items():
+            name = self._function_id_to_func_info[function_id].function_name.decode(errors="backslashreplace")
+            name_to_task_numbers[name] = name_to_task_numbers.get(name, 0) + len(task_ids)
+
+        return {"function_manager": name_to_task_numbers}
 
     async def __on_function_request(self, source: bytes, function_request: FunctionRequest):
         if function_request.function_id not in self._function_id_to_func_info:
-- 
2.43.0


From cd10f5335d480e08b5c0ff810e67b7caeabebcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:08 +0000
Subject: [PATCH 16/41] fix: a graph hung when one of its nodes became ready
 while the waiting limit was reached

---
 scaled/scheduler/graph_manager.py | 2 +-
 scaled/scheduler/mixins.py        | 3 ++-
 scaled/scheduler/task_manager.py  | 5 +++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/scaled/scheduler/graph_manager.py b/scaled/scheduler/graph_manager.py
index 7953878..e96cfae 100644
--- a/scaled/scheduler/graph_manager.py
+++ b/scaled/scheduler/graph_manager.py
@@ -200,7 +200,7 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
                 self.__release_dependency(graph_task_id, task_id, required_task_id)
 
             task_info.state = _TaskState.Running
-            await self._task_manager.on_task_new(graph_info.client, task_info.task)
+            await self._task_manager.on_task_new(graph_info.client, task_info.task, graph_node=True)
 
     async def __finish_one_graph(self, graph_task_id: bytes):
         results = self.__get_target_results(graph_task_id)
diff --git a/scaled/scheduler/mixins.py b/scaled/scheduler/mixins.py
index aef5a7d..d04168f 100644
--- a/scaled/scheduler/mixins.py
+++ b/scaled/scheduler/mixins.py
@@ -82,7 +82,8 @@ class GraphTaskManager(metaclass=abc.ABCMeta):
 
 class TaskManager(metaclass=abc.ABCMeta):
     @abc.abstractmethod
-    async def on_task_new(self, client: bytes, task: Task):
+    async def on_task_new(self, client: bytes, task: Task, graph_node: bool = False):
+        """graph_node is True for a node of an accepted graph, which cannot be rejected for lack of workers"""
         raise NotImplementedError()
 
     @abc.abstractmethod
diff --git a/scaled/scheduler/task_manager.py b/scaled/scheduler/task_manager.py
index 1d20268..8c4e559 100644
--- a/scaled/scheduler/task_manager.py
+++ b/scaled/scheduler/task_manager.py
@@ -83,7 +83,7 @@ class VanillaTaskManager(TaskManager, Looper, Reporter):
             }
         }
 
-    async def on_task_new(self, client: bytes, task: Task):
+    async def on_task_new(self, client: bytes, task: Task, graph_node: bool = False):
         if task.task_id in self._task_id_to_task:
             await self._binder.send(client, TaskEcho(task.task_id, TaskEchoStatus.Duplicated))
             return
@@ -93,7 +93,8 @@ class VanillaTaskManager(TaskManager, Looper, Reporter):
             return
 
         if (
-            not self._worker_manager.has_available_worker()
+            not graph_node
+            and not self._worker_manager.has_available_worker()
             and 0 <= self._max_number_of_tasks_waiting <= self._unassigned.qsize()
         ):
             await self._binder.send(client, TaskEcho(task.task_id, TaskEchoStatus.NoWorker))
-- 
2.43.0


From ec5cad7701d7325414ac7ba695ff23a47cdafc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:46 +0000
Subject: [PATCH 17/41] fix: a malformed graph (cyclic, dangling or with ids in
 use) stopped the scheduler

---
 scaled/scheduler/client_manager.py |  5 ++++-
 scaled/scheduler/graph_manager.py  | 36 ++++++++++++++++++++++++++++++
 scaled/scheduler/mixins.py         |  4 ++++
 scaled/scheduler/task_manager.py   |  3 +++
 4 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/scaled/scheduler/client_manager.py b/scaled/scheduler/client_manager.py
index 3088317..9c4f2ed 100644
--- a/scaled/scheduler/client_manager.py
+++ b/scaled/scheduler/client_manager.py
@@ -29,5 +29,8 @@ class VanillaClientManager(ClientManager, Looper, Reporter):
 
     async def statistics(self) -> Dict:
         return {
-            "client_manager": {client.decode(errors="backslashreplace"): len(task_ids) for client, task_ids in self._client_to_task_ids.items()}
+            "client_manager": {
+                client.decode(errors="backslashreplace"): len(task_ids)
+                for client, task_ids in self._client_to_task_ids.items()
+            }
         }
diff --git a/scaled/scheduler/graph_manager.py b/scaled/scheduler/graph_manager.py
index e96cfae..fad76f7 100644
--- a/scaled/scheduler/graph_manager.py
+++ b/scaled/scheduler/graph_manager.py
@@ -2,6 +2,7 @@ import dataclasses
 import enum
 import logging
 from asyncio import Queue
+from graphlib import CycleError
 from graphlib import TopologicalSorter
 from typing import Dict
 from typing import List
@@ -138,6 +139,10 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
         return {"graph_manager": {"unassigned": self._unassigned.qsize()}}
 
     async def __add_new_graph(self, client: bytes, graph_task: GraphTask):
+        if not self.__is_valid_graph(graph_task):
+            logging.error(f"received malformed graph from {client!r}: graph_task_id={graph_task.task_id.hex()}")
+            return
+
         graph = {}
 
         for function_id, (function_name, content) in graph_task.functions.items():
@@ -228,6 +233,37 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
 
         return graph_info
 
+    def __is_valid_graph(self, graph_task: GraphTask) -> bool:
+        if graph_task.task_id in self._graph_task_id_to_graph:
+            return False
+
+        dependencies = {
+            task.task_id: {arg.data for arg in task.function_args if arg.type == ArgumentType.Task}
+            for task in graph_task.graph
+        }
+        if len(dependencies) != len(graph_task.graph) or not dependencies.keys() >= set(graph_task.targets):
+            return False
+
+        for task in graph_task.graph:
+            if self._task_manager.has_task(task.task_id) or task.task_id in self._task_id_to_graph_task_id:
+                return False
+
+            if not dependencies.keys() >= dependencies[task.task_id]:
+                return False
+
+            if task.function_id in graph_task.functions:
+                continue
+
+            if not self._function_manager.has_function(task.function_id):
+                return False
+
+        try:
+            TopologicalSorter(dependencies).prepare()
+        except CycleError:
+            return False
+
+        return True
+
     def __mark_node_done(self, graph_task_id: bytes, result: TaskResult):
         graph_info = self._graph_task_id_to_graph[graph_task_id]
 
diff --git a/scaled/scheduler/mixins.py b/scaled/scheduler/mixins.py
index d04168f..466142d 100644
--- a/scaled/scheduler/mixins.py
+++ b/scaled/scheduler/mixins.py
@@ -86,6 +86,10 @@ class TaskManager(metaclass=abc.ABCMeta):
         """graph_node is True for a node of an accepted graph, which cannot be rejected for lack of workers"""
         raise NotImplementedError()
 
+    @abc.abstractmethod
+    def has_task(self, task_id: bytes) -> bool:
+        raise NotImplementedError()
+
     @abc.abstractmethod
     async def on_task_reroute(self, task_id: bytes):
         raise NotImplementedError()
diff --git a/scaled/scheduler/task_manager.py b/scaled/scheduler/task_manager.py
index 8c4e559..c49e97b 100644
--- a/scaled/scheduler/task_manager.py
+++ b/scaled/scheduler/task_manager.py
@@ -108,6 +108,9 @@ class VanillaTaskManager(TaskManager, Looper, Reporter):
         await self._unassigned.put(task.task_id)
         await self.__send_monitor(task.task_id, TaskStatus.Inactive)
 
+    def has_task(self, task_id: bytes) -> bool:
+        return task_id in self._task_id_to_task
+
     async def on_task_reroute(self, task_id: bytes):
         assert self._client_manager.get_client_id(task_id) is not None
 
-- 
2.43.0


From 25f05902eea1b5c2e90da2f416ad0d707dd83d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:08 +0000
Subject: [PATCH 18/41] fix: a graph message without functions could not be
 serialized

---
 scaled/protocol/python/message.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scaled/protocol/python/message.py b/scaled/protocol/python/message.py
index e55ba4f..29dfb45 100644
--- a/scaled/protocol/python/message.py
+++ b/scaled/protocol/python/message.py
@@ -182,9 +182,8 @@ class GraphTask(_Message):
         function_bytes = list()
         function_bytes.append(struct.pack("I", len(self.functions)))
         function_bytes.extend(self.functions.keys())
-        names, content = zip(*self.functions.values())
-        function_bytes.extend(names)
-        function_bytes.extend(content)
+        function_bytes.extend(name for name, _ in self.functions.values())
+        function_bytes.extend(content for _, content in self.functions.values())
 
         graph_bytes = []
         for task in self.graph:
-- 
2.43.0


From 8f4062e3c92d7fed7807a9a9259597f109c8e65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:48 +0000
Subject: [PATCH 19/41] fix: a failed graph resolved only the first of its
 futures

---
 scaled/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index 8e4bf20..1ccdb50 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -227,8 +227,8 @@ class Client:
 
         if graph_result.status == TaskStatus.Failed:
             exception = pickle.loads(graph_result.results[0])
-            for i, result in enumerate(graph_result.results):
-                futures[i].set_exception(exception)
+            for future in futures:
+                future.set_exception(exception)
             return
 
     def __on_exit(self):
-- 
2.43.0


From 2664cf70fe4ee8863c0974d427beb9e8cfb0fde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:48 +0000
Subject: [PATCH 20/41] fix: map over a generator returned no results

---
 scaled/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scaled/client.py b/scaled/client.py
index 1ccdb50..e1c183e 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -94,6 +94,7 @@ class Client:
         return future
 
     def map(self, fn: Callable, iterable: Iterable[Tuple[Any, ...]]) -> List[Any]:
+        iterable = list(iterable)
         if not all(isinstance(args, (tuple, list)) for args in iterable):
             raise TypeError("iterable should be list of arguments(list or tuple-like) of function")
 
-- 
2.43.0


From 3d59ddf7c862c10cdeb7e105eda858e24a3bbdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:48 +0000
Subject: [PATCH 21/41] fix: keyword arguments that cannot be passed by
 position were silently dropped

---
 scaled/client.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index e1c183e..2079f0a 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -262,28 +262,32 @@ class Client:
 
     @staticmethod
     def __convert_kwargs_to_args(fn: Callable, args: Tuple[Any, ...], kwargs: Dict[str, Any]) -> Tuple:
-        all_params = [p for p in signature(fn).parameters.values()]
+        try:
+            fn_signature = signature(fn)
+        except ValueError:
+            # some builtin functions have no signature
+            if kwargs:
+                raise TypeError(f"{fn} has no signature, keyword arguments are not supported: {tuple(kwargs)}")
+
+            return args
 
-        params = [p for p in all_params if p.kind in {p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD}]
+        params = [p for p in fn_signature.parameters.values() if p.kind in {p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD}]
 
-        if len(args) >= len(params):
+        if not kwargs and len(args) >= len(params):
             return args
 
-        number_of_required = len([p for p in params if p.default is p.empty])
+        fn_signature.bind(*args, **kwargs)  # raises TypeError if fn cannot be called like this
 
         args_list = list(args)
         kwargs = kwargs.copy()
-        kwargs.update({p.name: p.default for p in all_params if p.kind == p.KEYWORD_ONLY if p.default != p.empty})
+        for p in params[len(args_list) :]:
+            if not kwargs:
+                break
 
-        for p in params[len(args_list) : number_of_required]:
-            try:
-                args_list.append(kwargs.pop(p.name))
-            except KeyError:
-                missing = tuple(p.name for p in params[len(args_list) : number_of_required])
-                raise TypeError(f"{fn} missing {len(missing)} arguments: {missing}")
+            args_list.append(kwargs.pop(p.name, p.default) if p.kind == p.POSITIONAL_OR_KEYWORD else p.default)
 
-        for p in params[len(args_list) :]:
-            args_list.append(kwargs.pop(p.name, p.default))
+        if kwargs:
+            raise TypeError(f"{fn} arguments can only be passed by keyword, which is not supported: {tuple(kwargs)}")
 
         return tuple(args_list)
 
-- 
2.43.0


From 52d51b2a42f385ef3a83a5458058bc52a55507df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:55 +0000
Subject: [PATCH 22/41] fix: get returned wrong futures for duplicated keys and
 refused keys of constants

---
 scaled/client.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index 2079f0a..9552628 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -122,14 +122,20 @@ class Client:
         }
         """
 
+        values = graph
         node_name_to_data_argument, graph = self.__split_data_and_graph(graph)
         self.__check_graph(node_name_to_data_argument, graph, keys)
 
-        graph_task, futures = self.__construct_graph(node_name_to_data_argument, graph, keys)
-        self._connector.send(graph_task)
-        self._graph_task_id_to_futures[graph_task.task_id] = futures
+        return_futures: Dict[str, Future] = {key: Future() for key in keys}
+        for key in return_futures.keys() & node_name_to_data_argument.keys():
+            return_futures[key].set_result(values[key])
+
+        node_name_to_future = {key: future for key, future in return_futures.items() if key in graph}
+        if node_name_to_future:
+            graph_task = self.__construct_graph(node_name_to_data_argument, graph, list(node_name_to_future.keys()))
+            self._connector.send(graph_task)
+            self._graph_task_id_to_futures[graph_task.task_id] = list(node_name_to_future.values())
 
-        return_futures: Dict[str, Future] = dict(zip(keys, futures))
         if not block:
             # just return futures
             return return_futures
@@ -317,7 +323,7 @@ class Client:
     ):
         # sanity check graph
         for key in keys:
-            if key not in graph:
+            if key not in graph and key not in node_to_argument:
                 raise KeyError(f"key {key} has to be in graph")
 
         sorter: TopologicalSorter = TopologicalSorter()
@@ -337,9 +343,8 @@ class Client:
 
     def __construct_graph(
         self, data_arguments: Dict[str, Argument], graph: Dict[str, Tuple[Union[Callable, Any], ...]], keys: List[str]
-    ) -> Tuple[GraphTask, List[Future]]:
+    ) -> GraphTask:
         node_name_to_task_id = {node_name: uuid.uuid1().bytes for node_name in graph.keys()}
-        task_id_to_future: Dict[bytes, Future] = {node_name_to_task_id[node_name]: Future() for node_name in keys}
 
         functions = {}
         tasks = []
@@ -364,5 +369,4 @@ class Client:
             tasks.append(Task(task_id, function_id, arguments))
 
         # send graph task
-        graph_task = GraphTask(uuid.uuid1().bytes, functions, list(task_id_to_future.keys()), tasks)
-        return graph_task, list(task_id_to_future.values())
+        return GraphTask(uuid.uuid1().bytes, functions, [node_name_to_task_id[node_name] for node_name in keys], tasks)
-- 
2.43.0


From a83a4e73035913b4dd4c1bd1e1536afd3a82b55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:55 +0000
Subject: [PATCH 23/41] fix: tasks submitted while replies arrive or while
 disconnecting were lost or never resolved

---
 scaled/client.py | 67 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 22 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index 9552628..060e48e 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -45,6 +45,8 @@ class Client:
         self._address = address
         self._serializer = serializer
 
+        # guards everything below that is shared between the threads using the client and the thread receiving messages
+        self._lock = threading.Lock()
         self._stop_event = threading.Event()
         self._connector = SyncConnector(
             stop_event=self._stop_event,
@@ -56,8 +58,6 @@ class Client:
             exit_callback=self.__on_exit,
             daemonic=True,
         )
-        self._connector.start()
-        logging.info(f"ScaledClient: connect to {address}")
 
         self._function_to_function_id_cache: Dict[Callable, Tuple[bytes, Tuple[bytes, bytes]]] = dict()
 
@@ -69,6 +69,9 @@ class Client:
 
         self._graph_task_id_to_futures: Dict[bytes, List[Future]] = dict()
 
+        self._connector.start()
+        logging.info(f"ScaledClient: connect to {address}")
+
     def __del__(self):
         logging.info(f"ScaledClient: disconnect from {self._address}")
         self.disconnect()
@@ -84,13 +87,14 @@ class Client:
             function_id,
             [Argument(ArgumentType.Data, self._serializer.serialize_argument(data)) for data in all_args],
         )
-        self._task_id_to_task[task_id] = task
-        self._task_id_to_function[task_id] = (function_name, function_bytes)
-
-        self.__on_buffer_task_send(task)
-
         future: Future = Future()
-        self._task_id_to_future[task_id] = future
+        with self._lock:
+            self.__check_connected()
+            self._task_id_to_task[task_id] = task
+            self._task_id_to_function[task_id] = (function_name, function_bytes)
+            self._task_id_to_future[task_id] = future
+            self.__on_buffer_task_send(task)
+
         return future
 
     def map(self, fn: Callable, iterable: Iterable[Tuple[Any, ...]]) -> List[Any]:
@@ -133,8 +137,10 @@ class Client:
         node_name_to_future = {key: future for key, future in return_futures.items() if key in graph}
         if node_name_to_future:
             graph_task = self.__construct_graph(node_name_to_data_argument, graph, list(node_name_to_future.keys()))
-            self._connector.send(graph_task)
-            self._graph_task_id_to_futures[graph_task.task_id] = list(node_name_to_future.values())
+            with self._lock:
+                self.__check_connected()
+                self._graph_task_id_to_futures[graph_task.task_id] = list(node_name_to_future.values())
+                self._connector.send(graph_task)
 
         if not block:
             # just return futures
@@ -152,6 +158,10 @@ class Client:
     def disconnect(self):
         self._stop_event.set()
 
+    def __check_connected(self):
+        if self._stop_event.is_set():
+            raise ScaledDisconnect(f"disconnected from {self._address}")
+
     def __on_receive(self, message: MessageVariant):
         if isinstance(message, TaskEcho):
             self.__on_task_echo(message)
@@ -179,8 +189,9 @@ class Client:
             return
 
         if task_echo.status == TaskEchoStatus.FunctionNotExists:
-            task = self._task_id_to_task[task_echo.task_id]
-            self.__on_buffer_task_send(task)
+            with self._lock:
+                task = self._task_id_to_task[task_echo.task_id]
+                self.__on_buffer_task_send(task)
             return
 
         if task_echo.status == TaskEchoStatus.NoWorker:
@@ -203,11 +214,12 @@ class Client:
 
     def __on_function_response(self, response: FunctionResponse):
         assert response.status in {FunctionResponseType.OK, FunctionResponseType.Duplicated}
-        if response.function_id not in self._function_id_to_not_ready_tasks:
-            return
+        with self._lock:
+            if response.function_id not in self._function_id_to_not_ready_tasks:
+                return
 
-        for task in self._function_id_to_not_ready_tasks.pop(response.function_id):
-            self._connector.send(task)
+            for task in self._function_id_to_not_ready_tasks.pop(response.function_id):
+                self._connector.send(task)
 
     def __on_task_result(self, result: TaskResult):
         if result.task_id not in self._task_id_to_future:
@@ -239,15 +251,26 @@ class Client:
             return
 
     def __on_exit(self):
-        if self._task_id_to_future:
-            logging.info(f"canceling {len(self._task_id_to_future)} task(s)")
-            for task_id, future in self._task_id_to_future.items():
+        with self._lock:
+            # from here on nothing is added, as the client is not connected anymore
+            task_id_to_future = self._task_id_to_future.copy()
+            graph_task_id_to_futures = self._graph_task_id_to_futures.copy()
+
+            self._task_id_to_task.clear()
+            self._task_id_to_function.clear()
+            self._task_id_to_future.clear()
+            self._function_id_to_not_ready_tasks.clear()
+            self._graph_task_id_to_futures.clear()
+
+        if task_id_to_future:
+            logging.info(f"canceling {len(task_id_to_future)} task(s)")
+            for task_id, future in task_id_to_future.items():
                 self._connector.send_immediately(TaskCancel(task_id))
                 future.set_exception(ScaledDisconnect(f"disconnected from {self._address}"))
 
-        if self._graph_task_id_to_futures:
-            logging.info(f"canceling {len(self._graph_task_id_to_futures)} graph task(s)")
-            for task_id, futures in self._graph_task_id_to_futures.items():
+        if graph_task_id_to_futures:
+            logging.info(f"canceling {len(graph_task_id_to_futures)} graph task(s)")
+            for task_id, futures in graph_task_id_to_futures.items():
                 self._connector.send_immediately(GraphTaskCancel(task_id))
                 for future in futures:
                     future.set_exception(ScaledDisconnect(f"disconnected from {self._address}"))
-- 
2.43.0


From 8057b9271163fc99bf30b4d665b60a0a4235adb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:12 +0000
Subject: [PATCH 24/41] fix: one bad outcome (rejected, cancelled, undecodable)
 stopped the client's receive thread

---
 scaled/client.py             | 102 +++++++++++++++++++++++------------
 scaled/utility/exceptions.py |   4 ++
 2 files changed, 71 insertions(+), 35 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index 060e48e..4441c0d 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -4,7 +4,9 @@ import pickle
 import threading
 import uuid
 from collections import defaultdict
+from concurrent.futures import CancelledError
 from concurrent.futures import Future
+from concurrent.futures import InvalidStateError
 from graphlib import TopologicalSorter
 from inspect import signature
 from typing import Any
@@ -37,6 +39,7 @@ from scaled.protocol.python.message import TaskStatus
 from scaled.protocol.python.serializer.default import DefaultSerializer
 from scaled.protocol.python.serializer.mixins import Serializer
 from scaled.utility.exceptions import ScaledDisconnect
+from scaled.utility.exceptions import ScaledNoWorker
 from scaled.utility.zmq_config import ZMQConfig
 
 
@@ -182,26 +185,31 @@ class Client:
         raise TypeError(f"Unknown {message=}")
 
     def __on_task_echo(self, task_echo: TaskEcho):
-        if task_echo.task_id not in self._task_id_to_task:
-            return
-
         if task_echo.status == TaskEchoStatus.Duplicated:
             return
 
-        if task_echo.status == TaskEchoStatus.FunctionNotExists:
-            with self._lock:
+        with self._lock:
+            if task_echo.task_id not in self._task_id_to_task:
+                return
+
+            if task_echo.status == TaskEchoStatus.FunctionNotExists:
                 task = self._task_id_to_task[task_echo.task_id]
                 self.__on_buffer_task_send(task)
-            return
-
-        if task_echo.status == TaskEchoStatus.NoWorker:
-            raise NotImplementedError("please implement that handles no worker error")
+                return
 
-        assert task_echo.status == TaskEchoStatus.SubmitOK, f"Unknown task status: " f"{task_echo=}"
+            self._task_id_to_task.pop(task_echo.task_id)
+            self._task_id_to_function.pop(task_echo.task_id)
+            if task_echo.status == TaskEchoStatus.SubmitOK:
+                future = self._task_id_to_future[task_echo.task_id]
+            else:
+                future = self._task_id_to_future.pop(task_echo.task_id)
 
-        self._task_id_to_task.pop(task_echo.task_id)
-        self._task_id_to_function.pop(task_echo.task_id)
-        self._task_id_to_future[task_echo.task_id].set_running_or_notify_cancel()
+        if task_echo.status == TaskEchoStatus.SubmitOK:
+            future.set_running_or_notify_cancel()
+        elif task_echo.status == TaskEchoStatus.NoWorker:
+            self.__set_exception(future, ScaledNoWorker(f"no worker available for task {task_echo.task_id.hex()}"))
+        else:
+            self.__set_exception(future, ValueError(f"unknown task status: {task_echo}"))
 
     def __on_buffer_task_send(self, task):
         if task.function_id not in self._function_id_to_not_ready_tasks:
@@ -222,34 +230,58 @@ class Client:
                 self._connector.send(task)
 
     def __on_task_result(self, result: TaskResult):
-        if result.task_id not in self._task_id_to_future:
-            return
+        with self._lock:
+            if result.task_id not in self._task_id_to_future:
+                return
 
-        future = self._task_id_to_future.pop(result.task_id)
-        if result.status == TaskStatus.Success:
-            future.set_result(self._serializer.deserialize_result(result.result))
-            return
+            future = self._task_id_to_future.pop(result.task_id)
+            self._task_id_to_task.pop(result.task_id, None)
+            self._task_id_to_function.pop(result.task_id, None)
 
-        if result.status == TaskStatus.Failed:
-            future.set_exception(pickle.loads(result.result))
-            return
+        self.__set_outcome(future, result.status, result.result)
 
     def __on_graph_task_result(self, graph_result: GraphTaskResult):
-        if graph_result.task_id not in self._graph_task_id_to_futures:
-            return
+        with self._lock:
+            if graph_result.task_id not in self._graph_task_id_to_futures:
+                return
 
-        futures = self._graph_task_id_to_futures.pop(graph_result.task_id)
-        if graph_result.status == TaskStatus.Success:
-            for i, result in enumerate(graph_result.results):
-                futures[i].set_result(self._serializer.deserialize_result(result))
-            return
+            futures = self._graph_task_id_to_futures.pop(graph_result.task_id)
+
+        # there is one result for each future, or one for all of them if the graph didn't succeed
+        results = graph_result.results
+        if graph_result.status != TaskStatus.Success:
+            results = results[:1] * len(futures)
 
-        if graph_result.status == TaskStatus.Failed:
-            exception = pickle.loads(graph_result.results[0])
-            for future in futures:
-                future.set_exception(exception)
+        for future, result in zip(futures, results):
+            self.__set_outcome(future, graph_result.status, result)
+
+    def __set_outcome(self, future: Future, status: TaskStatus, result: bytes):
+        try:
+            if status == TaskStatus.Success:
+                value = self._serializer.deserialize_result(result)
+            elif status == TaskStatus.Failed:
+                self.__set_exception(future, pickle.loads(result))
+                return
+            else:
+                self.__set_exception(future, CancelledError(f"task ended: {status.name}"))
+                return
+        except Exception as e:
+            # the result cannot be decoded here, or is not an exception
+            self.__set_exception(future, e)
             return
 
+        try:
+            future.set_result(value)
+        except InvalidStateError:
+            pass  # canceled by user
+
+    @staticmethod
+    def __set_exception(future: Future, exception: BaseException):
+        try:
+            future.set_exception(exception)
+        except InvalidStateError:
+            pass  # canceled by user
+
     def __on_exit(self):
         with self._lock:
             # from here on nothing is added, as the client is not connected anymore
@@ -266,14 +298,14 @@ class Client:
             logging.info(f"canceling {len(task_id_to_future)} task(s)")
             for task_id, future in task_id_to_future.items():
                 self._connector.send_immediately(TaskCancel(task_id))
-                future.set_exception(ScaledDisconnect(f"disconnected from {self._address}"))
+                self.__set_exception(future, ScaledDisconnect(f"disconnected from {self._address}"))
 
         if graph_task_id_to_futures:
             logging.info(f"canceling {len(graph_task_id_to_futures)} graph task(s)")
             for task_id, futures in graph_task_id_to_futures.items():
                 self._connector.send_immediately(GraphTaskCancel(task_id))
                 for future in futures:
-                    future.set_exception(ScaledDisconnect(f"disconnected from {self._address}"))
+                    self.__set_exception(future, ScaledDisconnect(f"disconnected from {self._address}"))
 
     def __get_function_id(self, fn: Callable) -> Tuple[bytes, Tuple[bytes, bytes]]:
         if fn in self._function_to_function_id_cache:
diff --git a/scaled/utility/exceptions.py b/scaled/utility/exceptions.py
index df22509..26d1476 100644
--- a/scaled/utility/exceptions.py
+++ b/scaled/utility/exceptions.py
@@ -1,2 +1,6 @@
 class ScaledDisconnect(Exception):
     pass
+
+
+class ScaledNoWorker(Exception):
+    pass
-- 
2.43.0


From 17a7ad0ada79e9bcf9d48c96dd8c7b35b29e174c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:16 +0000
Subject: [PATCH 25/41] fix: IndexedQueue mixed up items with equal hashes and
 left putters waiting after remove

---
 scaled/utility/queues/async_indexed_queue.py | 25 +++++++++++---------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/scaled/utility/queues/async_indexed_queue.py b/scaled/utility/queues/async_indexed_queue.py
index 18c7d98..167c0e4 100644
--- a/scaled/utility/queues/async_indexed_queue.py
+++ b/scaled/utility/queues/async_indexed_queue.py
@@ -29,7 +29,12 @@ class IndexedQueue(Queue, Generic[T]):
         self._queue = _IndexedDoubleLinkedQueue()
 
     def _put(self, item: T):
-        self._queue.put(item)
+        try:
+            self._queue.put(item)
+        except Exception:
+            # the room that was meant for this item is still there for the next one that is waiting
+            self._wakeup_next(self._putters)
+            raise
 
     def _get(self) -> T:
         return self._queue.get()
@@ -37,6 +42,7 @@ class IndexedQueue(Queue, Generic[T]):
     def remove(self, item: T):
         """remove the item in the queue in O(1) time complexity"""
         self._queue.remove(item)
+        self._wakeup_next(self._putters)
 
 
 @dataclasses.dataclass
@@ -111,33 +117,30 @@ class _DoubleLinkedList:
 class _IndexedDoubleLinkedQueue:
     def __init__(self):
         self._double_linked_list = _DoubleLinkedList()
-        self._hash_map: Dict[int, _Node] = {}
+        self._item_to_node: Dict[Hashable, _Node] = {}
 
     def __contains__(self, item: Hashable):
-        key = hash(item)
-        return key in self._hash_map
+        return item in self._item_to_node
 
     def __len__(self):
         return self._double_linked_list.__len__()
 
     def put(self, item: Hashable):
-        key = hash(item)
-        if key in self._hash_map:
+        if item in self._item_to_node:
             raise KeyError(f"{self.__class__.__name__} already have item: {item}")
 
         node = _Node(item)
         self._double_linked_list.add_to_head(node)
-        self._hash_map[key] = node
+        self._item_to_node[item] = node
 
     def get(self):
         node = self._double_linked_list.remove_tail()
-        del self._hash_map[hash(node.value)]
+        del self._item_to_node[node.value]
         return node.value
 
     def remove(self, item: Hashable):
-        key = hash(item)
-        if key not in self._hash_map:
+        if item not in self._item_to_node:
             raise KeyError(f"{self.__class__.__name__} doesn't have item: {item}")
 
-        node = self._hash_map.pop(key)
+        node = self._item_to_node.pop(item)
         self._double_linked_list.remove(node)
-- 
2.43.0


From 36b51c2a76b39cf24d5c54e81882ca79dd638be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:34 +0000
Subject: [PATCH 26/41] fix: heartbeat of a worker with many queued tasks, many
 busy cores or a stepped clock could not be encoded

---
 scaled/protocol/python/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaled/protocol/python/message.py b/scaled/protocol/python/message.py
index 29dfb45..955e146 100644
--- a/scaled/protocol/python/message.py
+++ b/scaled/protocol/python/message.py
@@ -307,7 +307,7 @@ class Heartbeat(_Message):
     has_task: bool
     task_lock: bool
 
-    FORMAT = "HQHQHI???"
+    FORMAT = "QQQQQq???"
 
     def serialize(self) -> Tuple[bytes, ...]:
         return (
-- 
2.43.0


From f0086d00d3cd5cdbadc84aba20a38b668ddc76f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:34 +0000
Subject: [PATCH 27/41] fix: worker agent died on a cancel or function response
 while no task was running

---
 scaled/worker/agent/processor_manager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scaled/worker/agent/processor_manager.py b/scaled/worker/agent/processor_manager.py
index f378c55..63a5006 100644
--- a/scaled/worker/agent/processor_manager.py
+++ b/scaled/worker/agent/processor_manager.py
@@ -102,6 +102,9 @@ class VanillaProcessorManager(Looper, ProcessorManager):
         if not self._processor_holder.initialized.is_set():
             return
 
+        if self._processor_holder.task is None:
+            return
+
         if self._processor_holder.task.function_id != response.function_id:
             return
 
@@ -115,6 +118,9 @@ class VanillaProcessorManager(Looper, ProcessorManager):
         if not self._processor_holder.initialized.is_set():
             return False
 
+        if self._processor_holder.task is None:
+            return False
+
         if self._processor_holder.task.task_id != task_id:
             return False
 
-- 
2.43.0


From 8317d7834f865a1b3e2611b6a26f4e1a352f6f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:34 +0000
Subject: [PATCH 28/41] fix: the next task of a worker could neither be
 canceled nor given back while waiting for the processor

---
 scaled/worker/agent/mixins.py            | 4 ++++
 scaled/worker/agent/processor_manager.py | 6 ++++++
 scaled/worker/agent/task_manager.py      | 2 ++
 3 files changed, 12 insertions(+)

diff --git a/scaled/worker/agent/mixins.py b/scaled/worker/agent/mixins.py
index 9229fa2..06c6b63 100644
--- a/scaled/worker/agent/mixins.py
+++ b/scaled/worker/agent/mixins.py
@@ -62,6 +62,10 @@ class ProcessorManager(metaclass=abc.ABCMeta):
     def on_function_response(self, response: FunctionResponse):
         raise NotImplementedError()
 
+    @abc.abstractmethod
+    async def wait_until_idle(self):
+        raise NotImplementedError()
+
     @abc.abstractmethod
     async def on_task(self, task: Task) -> bool:
         raise NotImplementedError()
diff --git a/scaled/worker/agent/processor_manager.py b/scaled/worker/agent/processor_manager.py
index 63a5006..70580ac 100644
--- a/scaled/worker/agent/processor_manager.py
+++ b/scaled/worker/agent/processor_manager.py
@@ -89,6 +89,12 @@ class VanillaProcessorManager(Looper, ProcessorManager):
 
         raise TypeError(f"unknown function request type: {request.type}")
 
+    async def wait_until_idle(self):
+        async with self._processor_holder.task_wait_lock:
+            pass
+
+        await self._processor_holder.initialized.wait()
+
     async def on_task(self, task: Task) -> bool:
         await self._processor_holder.task_wait_lock.acquire()
 
diff --git a/scaled/worker/agent/task_manager.py b/scaled/worker/agent/task_manager.py
index ac23f29..327e788 100644
--- a/scaled/worker/agent/task_manager.py
+++ b/scaled/worker/agent/task_manager.py
@@ -64,6 +64,8 @@ class VanillaTaskManager(Looper, TaskManager):
         return self._queued_task_ids.qsize()
 
     async def __processing_task(self):
+        # a task stays in the queue, where it can be canceled or given back, until the processor can take it
+        await self._processor_manager.wait_until_idle()
         task_id = await self._queued_task_ids.get()
         task = self._queued_task_id_to_task.pop(task_id)
         if await self._processor_manager.on_task(task):
-- 
2.43.0


From 06536c73a89c50c15f8dee33094a182353d59bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:34 +0000
Subject: [PATCH 29/41] fix: worker agent died or ran a task twice when it was
 sent a task it already holds

---
 scaled/worker/agent/task_manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scaled/worker/agent/task_manager.py b/scaled/worker/agent/task_manager.py
index 327e788..eb15287 100644
--- a/scaled/worker/agent/task_manager.py
+++ b/scaled/worker/agent/task_manager.py
@@ -27,6 +27,9 @@ class VanillaTaskManager(Looper, TaskManager):
         self._processor_manager = processor_manager
 
     async def on_task_new(self, task: Task):
+        if task.task_id in self._queued_task_id_to_task or task.task_id == self._processor_manager.current_task():
+            return
+
         self._queued_task_id_to_task[task.task_id] = task
         await self._queued_task_ids.put(task.task_id)
 
-- 
2.43.0


From 41791161c153ca5ecabf334a6d9f2c608fe02b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:34 +0000
Subject: [PATCH 30/41] fix: a worker was stuck for good when the scheduler
 does not have the function of its task

---
 scaled/worker/agent/processor_manager.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/scaled/worker/agent/processor_manager.py b/scaled/worker/agent/processor_manager.py
index 70580ac..66809e5 100644
--- a/scaled/worker/agent/processor_manager.py
+++ b/scaled/worker/agent/processor_manager.py
@@ -2,6 +2,7 @@ import asyncio
 import dataclasses
 import logging
 import os
+import pickle
 import signal
 import tempfile
 import uuid
@@ -17,6 +18,7 @@ from scaled.protocol.python.message import FunctionResponseType
 from scaled.protocol.python.message import MessageVariant
 from scaled.protocol.python.message import Task
 from scaled.protocol.python.message import TaskResult
+from scaled.protocol.python.message import TaskStatus
 from scaled.protocol.python.serializer.mixins import Serializer
 from scaled.utility.logging.utility import setup_logger
 from scaled.utility.zmq_config import ZMQConfig
@@ -115,11 +117,20 @@ class VanillaProcessorManager(Looper, ProcessorManager):
             return
 
         if response.status == FunctionResponseType.NotExists:
-            logging.info(f"cannot get function for task={self._processor_holder.task.task_id.hex()}, must be canceled")
+            await self.__on_function_not_exists(self._processor_holder.task)
             return
 
         await self._connector_internal.send(response)
 
+    async def __on_function_not_exists(self, task: Task):
+        logging.info(f"cannot get function for task={task.task_id.hex()}, must be canceled")
+        reason = RuntimeError(f"function of task {task.task_id.hex()} does not exist in scheduler")
+        self._processor_holder.task = None
+        self._processor_holder.task_wait_lock.release()
+        await self._task_manager.on_task_result(
+            TaskResult(task.task_id, TaskStatus.Failed, 0, pickle.dumps(reason, protocol=pickle.HIGHEST_PROTOCOL))
+        )
+
     async def on_cancel_task(self, task_id: bytes) -> bool:
         if not self._processor_holder.initialized.is_set():
             return False
-- 
2.43.0


From 40c6282a2af86512a88f17db09bce143941a4579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:34 +0000
Subject: [PATCH 31/41] fix: the function cache clean-up thread died, or
 dropped functions just used, when a task came in meanwhile

---
 .../worker/agent/processor/cache_cleaner.py   | 42 +++++++++++--------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/scaled/worker/agent/processor/cache_cleaner.py b/scaled/worker/agent/processor/cache_cleaner.py
index 31aa835..57ed5ea 100644
--- a/scaled/worker/agent/processor/cache_cleaner.py
+++ b/scaled/worker/agent/processor/cache_cleaner.py
@@ -24,6 +24,7 @@ class CacheCleaner(threading.Thread):
         self._trim_memory_threshold_bytes = trim_memory_threshold_bytes
         self._function_retention_seconds = function_retention_seconds
 
+        self._mutex = threading.Lock()
         self._cached_functions: Dict[bytes, Callable] = {}
         self._cached_functions_alive_since: Dict[bytes, float] = dict()
         self._process = psutil.Process(multiprocessing.current_process().pid)
@@ -36,30 +37,37 @@ class CacheCleaner(threading.Thread):
             time.sleep(CLEANUP_INTERVAL_SECONDS)
 
     def add_function(self, function_id: bytes, function: Callable):
-        self._cached_functions[function_id] = function
-        self._cached_functions_alive_since[function_id] = time.time()
+        with self._mutex:
+            self._cached_functions[function_id] = function
+            self._cached_functions_alive_since[function_id] = time.time()
 
     def del_function(self, function_id: bytes):
-        self._cached_functions_alive_since.pop(function_id, None)
-        self._cached_functions.pop(function_id, None)
+        with self._mutex:
+            self.__drop_function(function_id)
 
     def get_function(self, function_id: bytes) -> Optional[Callable]:
-        function = self._cached_functions.get(function_id)
-        if function is None:
-            return None
+        with self._mutex:
+            function = self._cached_functions.get(function_id)
+            if function is None:
+                return None
+
+            self._cached_functions_alive_since[function_id] = time.time()
+            return function
 
-        self._cached_functions_alive_since[function_id] = time.time()
-        return function
+    def __drop_function(self, function_id: bytes):
+        self._cached_functions_alive_since.pop(function_id, None)
+        self._cached_functions.pop(function_id, None)
 
     def __clean_function(self):
-        now = time.time()
-        idle_functions = [
-            function_id
-            for function_id, alive_since in self._cached_functions_alive_since.items()
-            if now - alive_since > self._function_retention_seconds
-        ]
-        for function_id in idle_functions:
-            self.del_function(function_id)
+        with self._mutex:
+            now = time.time()
+            idle_functions = [
+                function_id
+                for function_id, alive_since in self._cached_functions_alive_since.items()
+                if now - alive_since > self._function_retention_seconds
+            ]
+            for function_id in idle_functions:
+                self.__drop_function(function_id)
 
     def __clean_memory(self):
         if time.time() - self._previous_garbage_collect_time < self._garbage_collect_interval_seconds:
-- 
2.43.0


From e8b592909598395702eefddd9ab0b3eed2b32831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:34 +0000
Subject: [PATCH 32/41] fix: a task failed when its function was cleaned up
 between being looked up and being called

---
 scaled/worker/agent/processor/processor.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/scaled/worker/agent/processor/processor.py b/scaled/worker/agent/processor/processor.py
index 47d23ab..39d6d85 100644
--- a/scaled/worker/agent/processor/processor.py
+++ b/scaled/worker/agent/processor/processor.py
@@ -3,6 +3,7 @@ import multiprocessing
 import pickle
 import threading
 import time
+from typing import Callable
 from typing import Optional
 
 import tblib.pickling_support
@@ -102,23 +103,24 @@ class Processor(multiprocessing.get_context("spawn").Process):  # type: ignore
         logging.error(f"worker received unknown request function request type {request=}")
 
     def __on_receive_function_response(self, response: FunctionResponse):
-        self._cache_cleaner.add_function(response.function_id, self._serializer.deserialize_function(response.content))
+        function = self._serializer.deserialize_function(response.content)
+        self._cache_cleaner.add_function(response.function_id, function)
         task = self._current_task
         self._current_task = None
-        self.__process_task(task)
+        self.__process_task(task, function)
 
     def __on_received_task(self, task: Task):
-        if self._cache_cleaner.get_function(task.function_id) is not None:
-            self.__process_task(task)
+        function = self._cache_cleaner.get_function(task.function_id)
+        if function is not None:
+            self.__process_task(task, function)
             return
 
         self._connector.send_immediately(FunctionRequest(FunctionRequestType.Request, task.function_id, b"", b""))
         self._current_task = task
 
-    def __process_task(self, task: Task):
+    def __process_task(self, task: Task, function: Callable):
         begin = time.monotonic()
         try:
-            function = self._cache_cleaner.get_function(task.function_id)
             args = tuple(self._serializer.deserialize_argument(arg.data) for arg in task.function_args)
             result = function(*args)
             result_bytes = self._serializer.serialize_result(result)
-- 
2.43.0


From d67a8672efc615e30a0166b8c748cf0578485816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:53 +0000
Subject: [PATCH 33/41] fix: processor died on a function response that was
 requested by its predecessor

---
 scaled/worker/agent/processor/processor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scaled/worker/agent/processor/processor.py b/scaled/worker/agent/processor/processor.py
index 39d6d85..128da84 100644
--- a/scaled/worker/agent/processor/processor.py
+++ b/scaled/worker/agent/processor/processor.py
@@ -103,9 +103,13 @@ class Processor(multiprocessing.get_context("spawn").Process):  # type: ignore
         logging.error(f"worker received unknown request function request type {request=}")
 
     def __on_receive_function_response(self, response: FunctionResponse):
+        task = self._current_task
+        if task is None or task.function_id != response.function_id:
+            # was requested by previous processor for a task that is canceled since
+            return
+
         function = self._serializer.deserialize_function(response.content)
         self._cache_cleaner.add_function(response.function_id, function)
-        task = self._current_task
         self._current_task = None
         self.__process_task(task, function)
 
-- 
2.43.0


From a6aa73c115e5cd6c5c5e88213782c3955dd4be66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:53 +0000
Subject: [PATCH 34/41] fix: a task was never answered when its function,
 result or exception could not be handled by the processor

---
 scaled/worker/agent/processor/processor.py | 53 +++++++++++++++-------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/scaled/worker/agent/processor/processor.py b/scaled/worker/agent/processor/processor.py
index 128da84..0256cd1 100644
--- a/scaled/worker/agent/processor/processor.py
+++ b/scaled/worker/agent/processor/processor.py
@@ -3,6 +3,7 @@ import multiprocessing
 import pickle
 import threading
 import time
+import traceback
 from typing import Callable
 from typing import Optional
 
@@ -108,9 +109,17 @@ class Processor(multiprocessing.get_context("spawn").Process):  # type: ignore
             # was requested by previous processor for a task that is canceled since
             return
 
-        function = self._serializer.deserialize_function(response.content)
-        self._cache_cleaner.add_function(response.function_id, function)
         self._current_task = None
+        begin = time.monotonic()
+        try:
+            function = self._serializer.deserialize_function(response.content)
+        except KeyboardInterrupt:
+            raise
+        except BaseException as e:
+            self.__send_failed(task, begin, e)
+            return
+
+        self._cache_cleaner.add_function(response.function_id, function)
         self.__process_task(task, function)
 
     def __on_received_task(self, task: Task):
@@ -128,17 +137,29 @@ class Processor(multiprocessing.get_context("spawn").Process):  # type: ignore
             args = tuple(self._serializer.deserialize_argument(arg.data) for arg in task.function_args)
             result = function(*args)
             result_bytes = self._serializer.serialize_result(result)
-            self._connector.send_immediately(
-                TaskResult(task.task_id, TaskStatus.Success, time.monotonic() - begin, result_bytes)
-            )
-
-        except Exception as e:
-            logging.exception(f"exception when processing task_id={task.task_id.hex()}:")
-            self._connector.send_immediately(
-                TaskResult(
-                    task.task_id,
-                    TaskStatus.Failed,
-                    time.monotonic() - begin,
-                    pickle.dumps(e, protocol=pickle.HIGHEST_PROTOCOL),
-                )
-            )
+        except KeyboardInterrupt:
+            raise
+        except BaseException as e:  # functions can raise SystemExit and the like as well
+            self.__send_failed(task, begin, e)
+            return
+
+        self._connector.send_immediately(
+            TaskResult(task.task_id, TaskStatus.Success, time.monotonic() - begin, result_bytes)
+        )
+
+    def __send_failed(self, task: Task, begin: float, e: BaseException):
+        logging.exception(f"exception when processing task_id={task.task_id.hex()}:")
+        self._connector.send_immediately(
+            TaskResult(task.task_id, TaskStatus.Failed, time.monotonic() - begin, self.__serialize_exception(e))
+        )
+
+    @staticmethod
+    def __serialize_exception(e: BaseException) -> bytes:
+        try:
+            content = pickle.dumps(e, protocol=pickle.HIGHEST_PROTOCOL)
+            pickle.loads(content)
+            return content
+        except Exception:
+            # exception cannot be rebuilt in client, send what is known about it instead
+            text = "".join(traceback.format_exception(type(e), e, e.__traceback__))
+            return pickle.dumps(RuntimeError(text), protocol=pickle.HIGHEST_PROTOCOL)
-- 
2.43.0


From d58aea998283881c8cc771abf36766f1fd1cdf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:23 +0000
Subject: [PATCH 35/41] fix: cluster with one worker couldn't be stopped by
 SIGTERM

The only worker ran in the process of the cluster, so it had no process id to send SIGINT to: the signal handler raised
TypeError, the agent ended without telling the scheduler and its processor stayed. Start it like any other worker.
---
 scaled/cluster/cluster.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/scaled/cluster/cluster.py b/scaled/cluster/cluster.py
index 4f1beaa..462113d 100644
--- a/scaled/cluster/cluster.py
+++ b/scaled/cluster/cluster.py
@@ -73,10 +73,6 @@ class Cluster(multiprocessing.get_context("spawn").Process):  # type: ignore
             for _ in range(self._n_workers)
         ]
 
-        if self._n_workers == 1:
-            self._workers[0].run()
-            return
-
         for worker in self._workers:
             worker.start()
 
-- 
2.43.0


From e618cd55a8665d744c505ac75604b5334a9355b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:23 +0000
Subject: [PATCH 36/41] fix: cluster couldn't be stopped after one of its
 workers died

The process id of a worker that was joined is not valid any more: os.kill raised ProcessLookupError in the signal handler
and the workers after it were never told to stop.
---
 scaled/cluster/cluster.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scaled/cluster/cluster.py b/scaled/cluster/cluster.py
index 462113d..10afb02 100644
--- a/scaled/cluster/cluster.py
+++ b/scaled/cluster/cluster.py
@@ -46,6 +46,9 @@ class Cluster(multiprocessing.get_context("spawn").Process):  # type: ignore
         assert args is not None
         logging.info(f"{self.__get_prefix()} received signal, shutting down")
         for worker in self._workers:
+            if not worker.is_alive():
+                continue
+
             logging.info(f"{self.__get_prefix()}: shutting down worker[{worker.pid}]")
             os.kill(worker.pid, signal.SIGINT)
 
-- 
2.43.0


From 25d0757588cd323dc173e484b812c03502d56a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:23 +0000
Subject: [PATCH 37/41] fix: cluster ignored being told to stop while starting

Workers that were not started yet when the signal came were started afterwards and never stopped.
---
 scaled/cluster/cluster.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/scaled/cluster/cluster.py b/scaled/cluster/cluster.py
index 10afb02..4039272 100644
--- a/scaled/cluster/cluster.py
+++ b/scaled/cluster/cluster.py
@@ -36,6 +36,8 @@ class Cluster(multiprocessing.get_context("spawn").Process):  # type: ignore
         self._serializer = serializer
 
         self._workers: List[Worker] = []
+        self._started = False
+        self._stopping = False
 
     def run(self):
         setup_logger()
@@ -45,6 +47,11 @@ class Cluster(multiprocessing.get_context("spawn").Process):  # type: ignore
     def __destroy(self, *args):
         assert args is not None
         logging.info(f"{self.__get_prefix()} received signal, shutting down")
+        self._stopping = True
+        if self._started:
+            self.__stop_workers()
+
+    def __stop_workers(self):
         for worker in self._workers:
             if not worker.is_alive():
                 continue
@@ -79,6 +86,11 @@ class Cluster(multiprocessing.get_context("spawn").Process):  # type: ignore
         for worker in self._workers:
             worker.start()
 
+        self._started = True
+        if self._stopping:
+            # was told to shut down while some workers were not there yet
+            self.__stop_workers()
+
         for i, worker in enumerate(self._workers):
             logging.info(f"Worker[{worker.ident}] started")
 
-- 
2.43.0


From 657ef55af7d541a1468dac29f0aa7459eff54b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:58 +0000
Subject: [PATCH 38/41] fix: worker stopped while starting left its processor
 behind

SIGINT that arrived between the start of the first processor and the registration of the signal handler
ended the agent with KeyboardInterrupt, nobody destroyed the processor.
---
 scaled/worker/worker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scaled/worker/worker.py b/scaled/worker/worker.py
index 7a72651..9bac363 100644
--- a/scaled/worker/worker.py
+++ b/scaled/worker/worker.py
@@ -99,10 +99,12 @@ class Worker(multiprocessing.get_context("spawn").Process):  # type: ignore
         self._processor_manager.register(
             heartbeat=self._heartbeat, task_manager=self._task_manager, connector_external=self._connector_external
         )
-        self._processor_manager.initialize()
 
+        # from here on SIGINT only cancels the task, so that a processor that has been started always gets destroyed
         self._loop = asyncio.get_event_loop()
         self.__register_signal()
+
+        self._processor_manager.initialize()
         self._task = self._loop.create_task(self.__get_loops())
 
     async def __on_receive_external(self, message: MessageVariant):
-- 
2.43.0


From 506649a1489e9c6813be7990f26a771a12b21f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:47 +0000
Subject: [PATCH 39/41] fix: combo ignored event_loop for its scheduler

---
 scaled/cluster/combo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scaled/cluster/combo.py b/scaled/cluster/combo.py
index 0d100b2..b7773e4 100644
--- a/scaled/cluster/combo.py
+++ b/scaled/cluster/combo.py
@@ -57,6 +57,7 @@ class SchedulerClusterCombo:
             function_retention_seconds=function_retention_seconds,
             load_balance_seconds=load_balance_seconds,
             load_balance_trigger_times=load_balance_trigger_times,
+            event_loop=event_loop,
         )
 
         self._cluster.start()
-- 
2.43.0


From e300e3cdab03cad870744827a85990ff8d1f5987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:47 +0000
Subject: [PATCH 40/41] fix: monitor died of a worker lag of 1000 seconds or
 more

---
 scaled/utility/formatter.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/scaled/utility/formatter.py b/scaled/utility/formatter.py
index 182868d..f505843 100644
--- a/scaled/utility/formatter.py
+++ b/scaled/utility/formatter.py
@@ -28,7 +28,7 @@ def format_percentage(number: float) -> str:
 
 def format_microseconds(number: Union[int, float]) -> str:
     for unit in ["us", "ms", "s"]:
-        if number >= TIME_MODULUS:
+        if number >= TIME_MODULUS and unit != "s":
             number /= TIME_MODULUS
             continue
 
@@ -38,8 +38,6 @@ def format_microseconds(number: Union[int, float]) -> str:
         too_big_sign = "+" if unit == "s" and number > TIME_MODULUS else ""
         return f"{int(number)}{too_big_sign}{unit}"
 
-    raise ValueError("Too big to show the seconds that >1000s")
-
 
 def format_seconds(number: int) -> str:
     if number > 60:
-- 
2.43.0


From 07bc4a1a805f15c2bee3fb6c603989a6f0f6c08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:47 +0000
Subject: [PATCH 41/41] fix: monitor died in a terminal too small for its
 message

---
 scaled/entry_points/top.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scaled/entry_points/top.py b/scaled/entry_points/top.py
index 0009166..5b8264b 100644
--- a/scaled/entry_points/top.py
+++ b/scaled/entry_points/top.py
@@ -242,5 +242,9 @@ def __truncate(string: str, number: int, how: Literal["left", "right"] = "left")
 
 def __print_too_small(screen):
     screen.clear()
-    screen.addstr(0, 0, "Your terminal is too small to show")
+    try:
+        screen.addstr(0, 0, "Your terminal is too small to show")
+    except curses.error:
+        pass
+
     screen.refresh()
-- 
2.43.0

