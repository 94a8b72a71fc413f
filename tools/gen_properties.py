"""Writes /verif/properties.jsonl (kept as code so that the wording is reviewable in one place)."""
import json, os

P = []


def prop(id, title, statement, over, quant, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


S = "scaled/scheduler/"
W = "scaled/worker/agent/"
C = "scaled/client.py"
M = "scaled/protocol/python/message.py"

prop("C01", "Every submitted call gets its own result, exactly once",
     "Every call a client submits (singly or through map) resolves its future exactly once, with the value the function "
     "returns, or the exception it raises, for exactly that call's arguments, and map returns the values in input order. "
     "This holds for every order in which messages between client, scheduler, worker agents and processors are delivered, "
     "for any number of clients and workers, and while tasks are queued or rebalanced.",
     ["schedules", "histories", "inputs"],
     "all message-delivery orders of the client/scheduler/agent/processor system, any number of clients, workers and calls",
     "The tests run one client against three idle workers on one machine: a handful of near-FIFO delivery orders, never a "
     "chosen one; a misrouted, lost or doubled result on a rarer order is invisible to them.",
     [C, S + "main.py", S + "task_manager.py", S + "worker_manager.py", W + "task_manager.py", W + "processor_manager.py",
      W + "processor/processor.py", "scaled/io/sync_connector.py", "scaled/io/async_binder.py"],
     [("future table keyed by task id", C), ("task forwarding and result routing", S + "task_manager.py"),
      ("current-task check on processor results", W + "processor_manager.py")],
     [("pending futures", "calls not answered yet", C), ("unassigned/running", "where a task is", S + "task_manager.py")],
     ["Future results on the client", "tasks received by processors"])

prop("C02", "Losing workers never loses a task",
     "When workers crash, disconnect, time out, or are wrongly suspected and come back, every accepted task that nobody "
     "cancelled still gets a result delivered to its client, provided some worker is alive or joins later. Tasks of a lost "
     "worker are handed to the remaining ones.",
     ["crash_points", "fault_sequences", "schedules"],
     "every point of every bounded history at which a worker can die, leave, stall past its timeout or re-appear",
     "No test kills, stalls or disconnects a worker; none observes a reroute.",
     [S + "worker_manager.py", S + "task_manager.py", S + "allocators/queued.py", W + "task_manager.py"],
     [("reroute on disconnect/timeout", S + "worker_manager.py"), ("release of a removed worker's tasks", S + "allocators/queued.py")],
     [("worker liveness table", "last heartbeat per worker", S + "worker_manager.py")],
     ["TaskResult messages to the client", "Task messages to workers"])

prop("C03", "One verdict and one final outcome per task, only to its owner",
     "The scheduler answers every task submission with exactly one accept-or-reject reply, and every accepted task with "
     "exactly one final outcome, both sent only to the client that submitted it and never for a rejected task. Late, "
     "duplicate or conflicting replies from workers, and several workers having run the same task, never produce a second outcome.",
     ["histories", "schedules", "fault_sequences"],
     "all interleavings of submissions of several clients with results, cancels, balancing replies and worker loss",
     "Tests have one client, no duplicate execution and never count the scheduler's replies.",
     [S + "task_manager.py", S + "worker_manager.py", S + "client_manager.py", "scaled/utility/one_to_many_dict.py"],
     [("assigned-worker check on results", S + "worker_manager.py"), ("task-to-client map", S + "client_manager.py")],
     [("task-to-client map", "who submitted which task", S + "client_manager.py")],
     ["TaskEcho and TaskResult messages leaving the scheduler"])

prop("C04", "No message history stops the scheduler",
     "No sequence of messages from clients and workers, however late, repeated, interleaved or referring to unknown, finished or "
     "cancelled tasks, graphs, functions or workers, and no malformed frame, terminates the scheduler or one of its service "
     "loops. After any such history a new client's task on a live worker still completes.",
     ["histories", "inputs", "fault_sequences"],
     "all bounded sequences over every message type and state of the referenced task/graph/function/worker; all frame corruptions of a message",
     "Tests send only the messages of successful runs; cancels, disconnects, deletes and stale replies in other states are never produced, and a dead scheduler would only show up as a later hang.",
     [S + "main.py", S + "task_manager.py", S + "graph_manager.py", S + "function_manager.py", S + "worker_manager.py",
      S + "client_manager.py", "scaled/io/async_binder.py", "scaled/utility/event_loop.py"],
     [("message dispatch", S + "main.py"), ("guards for unknown ids", S + "task_manager.py"), ("frame validation", "scaled/io/async_binder.py")],
     [], ["scheduler service loops still running; outcome of a fresh task"])

prop("C05", "A graph evaluates like its direct sequential evaluation",
     "For every acyclic graph, every requested key gets exactly the value that evaluating the graph directly would give it: each "
     "node runs once (absent worker loss), only after everything it depends on has finished, with its arguments in declared "
     "order, including repeated, shared and constant arguments. This holds for every shape, choice of keys and completion order.",
     ["inputs", "schedules"],
     "all DAGs up to the bounded size including repeated arguments and constants, all key subsets and orders, all node completion orders",
     "One five-node graph with one key is tested; shapes with shared or repeated dependencies, several keys, or unlucky completion orders are not.",
     [S + "graph_manager.py", C, "scaled/utility/key_value_set.py", M],
     [("topological sorter and result substitution", S + "graph_manager.py"), ("target order", C)],
     [("per-graph node table", "state and result of every node", S + "graph_manager.py")],
     ["Task messages for nodes", "graph result", "futures returned by get"])

prop("C06", "A failing or cancelled graph ends completely and alone",
     "When a node of a graph fails, every future requested from that graph raises that exception, exactly one graph outcome is sent, and no "
     "node depending on the failed one is ever started. Failure or cancellation of a graph in any state ends its remaining "
     "nodes and changes nothing about other graphs or tasks.",
     ["schedules", "histories", "inputs"],
     "all failing nodes of all bounded DAGs, all points at which the graph is cancelled, all completion orders and worker capacities",
     "One graph with one key and one failing node on idle workers is tested; failures while other nodes are queued, several keys, and cancels in each state are not.",
     [S + "graph_manager.py", S + "task_manager.py", C],
     [("graph clean-up", S + "graph_manager.py"), ("graph result fan-out", C)],
     [("graph table", "live graphs", S + "graph_manager.py")],
     ["GraphTaskResult messages", "client futures", "Task/TaskCancel messages to workers"])

prop("C07", "Cancelling a task ends it wherever it is",
     "A cancel for an accepted task takes effect wherever the task is: a task still waiting in the scheduler or queued at a worker is never "
     "started afterwards, and one already running is stopped or its outcome reported. In every case the task reaches exactly one final state, its bookkeeping is released, and no other task is affected.",
     ["schedules", "histories"],
     "a cancel delivered in every state of the task (waiting, with and without workers, assigned, queued, next in line, running, finished, moved) and every message order around it",
     "The one cancel test only disconnects and asserts nothing about what the scheduler or workers did with the cancelled tasks.",
     [S + "task_manager.py", S + "worker_manager.py", W + "task_manager.py", W + "processor_manager.py"],
     [("cancel dispatch by state", S + "task_manager.py"), ("cancel at the agent", W + "task_manager.py")],
     [], ["Task/TaskCancel/TaskResult traffic", "calls the processor runs"])

prop("C08", "Disconnecting releases every waiter and cancels its work",
     "After a client disconnects, at whatever moment, every future it ever handed out is done: it keeps its real outcome if that had arrived and "
     "raises the disconnect error otherwise, and a later submit or get never leaves a caller waiting for ever. Everything outstanding is cancelled at the scheduler.",
     ["schedules", "histories"],
     "every interleaving of disconnect with submit, get, user-side future cancellation and arriving results; every mix of finished and pending futures",
     "One test disconnects with pending tasks but never looks at the futures; races of disconnect with submit or results cannot be scheduled by a test.",
     [C, "scaled/io/sync_connector.py"],
     [("exit callback resolving pending futures", C), ("receive loop exit", "scaled/io/sync_connector.py")],
     [("pending futures and graphs", "what must be released", C)],
     ["Future states", "TaskCancel/GraphTaskCancel messages"])

prop("C09", "Submitting from threads while replies arrive loses nothing",
     "Submitting tasks and graphs from one or more user threads while the client's receive thread handles replies never loses, duplicates or "
     "mismatches a task: every submitted task reaches the scheduler with its function available and its future gets its own outcome, and the receive thread stays alive.",
     ["schedules"],
     "all thread interleavings at bytecode granularity within a preemption bound, of bounded submit/get sequences with the receive loop",
     "The race windows are a few bytecodes wide; ordinary runs practically never hit them and a hit would look like an unrelated hang.",
     [C, "scaled/io/sync_connector.py"],
     [("function-pending table and send queue", C)],
     [("tasks awaiting their function", "buffered tasks per function", C)],
     ["messages leaving the client", "Future states", "receive thread alive"])

prop("C10", "One bad outcome never breaks the client for the others",
     "Whatever happens to one task (rejected by the scheduler, cancelled by the user through its future, failing with an exception or value that cannot be decoded, unknown, "
     "or answered late or twice), its own future reflects that if it is still pending and the client keeps resolving all its other futures.",
     ["histories", "inputs"],
     "all bounded sequences of replies over every message type and status, mixed with user-side cancels, over several pending tasks and graphs",
     "Tests only see success, one plain ValueError and normal replies; a receive thread killed by any other outcome hangs every other future.",
     [C, "scaled/io/sync_connector.py"],
     [("reply handlers", C)],
     [], ["Future states", "receive thread alive"])

prop("C11", "Tasks go to a least-loaded live worker within its capacity",
     "The scheduler sends a task only to a worker that is connected at that moment, picks one with the fewest outstanding tasks, and never has more than the configured number of tasks "
     "outstanding at a worker. A task is outstanding at no more than one connected worker at a time, and while a task waits and some live worker has room it gets sent.",
     ["histories", "configurations"],
     "all bounded sequences of worker join/leave, submissions, results, cancels and balancing replies; worker counts and queue sizes in the bound",
     "Default capacity is 1000 per worker so tests never fill a worker; no test looks at where tasks are placed.",
     [S + "allocators/queued.py", "scaled/utility/queues/async_priority_queue.py", S + "worker_manager.py", S + "task_manager.py"],
     [("priority queue of workers by load", "scaled/utility/queues/async_priority_queue.py"), ("capacity check", S + "allocators/queued.py")],
     [("load per worker", "number of outstanding tasks", S + "allocators/queued.py")],
     ["Task messages from the scheduler", "worker statistics"])

prop("C12", "Load balancing moves work from busy to idle, losing nothing",
     "Once the same imbalance (an idle worker while another has more than the average load) has been seen the configured number of consecutive times, the scheduler asks exactly the workers above the average to give "
     "back exactly their excess over it, and otherwise asks nobody; with balancing disabled it never asks. Tasks given back run once elsewhere; a worker gives back only tasks it has not started, at most the number asked.",
     ["histories", "configurations", "schedules"],
     "all load vectors in the bound, all trigger thresholds, all histories of load change between checks, all races of the request with results and cancels",
     "Balancing is exercised by one timing-dependent test with one configuration that only compares final results.",
     [S + "allocators/queued.py", S + "worker_manager.py", W + "task_manager.py"],
     [("advice", S + "allocators/queued.py"), ("repeat counter", S + "worker_manager.py"), ("give-back", W + "task_manager.py")],
     [("repeat counter", "consecutive identical advice", S + "worker_manager.py")],
     ["BalanceRequest/BalanceResponse messages"])

prop("C13", "A function stays available while any of its tasks needs it",
     "From the moment a task or graph is accepted until its last task ends, its function's content is kept by the scheduler and any worker asking for it gets exactly the registered content. An unused function is dropped, and workers told, only after the "
     "retention time since its last use, and add, check, request and delete answer according to exactly that state.",
     ["histories", "schedules"],
     "all bounded sequences of function add/check/request/delete, task begin/end, graph begin/end and clock advance",
     "Retention (20 s) never elapses in a test, delete is never sent, and no test requests a function in any other state.",
     [S + "function_manager.py", S + "graph_manager.py", S + "task_manager.py", "scaled/utility/one_to_many_dict.py"],
     [("use tracking and retention sweep", S + "function_manager.py")],
     [("function table and users", "content, last use, tasks using it", S + "function_manager.py")],
     ["FunctionResponse and function delete messages"])

prop("C14", "Waiting-task limit is enforced exactly",
     "With a limit on waiting tasks, a submission is rejected for lack of workers exactly when no worker has a free slot and the waiting tasks have reached the limit; without a limit none is. A submission whose function "
     "the scheduler does not have is answered so, and a rejected one leaves no trace and can be submitted again.",
     ["histories", "configurations"],
     "all limits, worker counts and capacities in the bound, all histories of submissions, completions, cancels and worker changes",
     "All tests use the default, unlimited configuration.",
     [S + "task_manager.py", S + "allocators/queued.py", "scaled/utility/queues/async_priority_queue.py"],
     [("admission test", S + "task_manager.py"), ("free-slot test", S + "allocators/queued.py")],
     [], ["TaskEcho replies"])

prop("C15", "A worker runs one task at a time and answers each task once",
     "A worker runs at most one task at a time, in the order received, and every task it receives is answered exactly once: with its result, as cancelled or unknown in reply to a cancel, or by giving it back for balancing; a task it gave back is never also run there. "
     "It keeps serving after every such history, including repeated delivery of a task it already holds.",
     ["schedules", "histories"],
     "all interleavings of task, cancel, balance and function messages with processor start-up, results and function fetches at one worker",
     "Tests observe only client results; a double run, a dropped reply or a stuck worker is masked by the other workers or shows up as a hang.",
     [W + "task_manager.py", W + "processor_manager.py", "scaled/worker/worker.py"],
     [("task lock around the processor", W + "processor_manager.py"), ("queue and give-back", W + "task_manager.py")],
     [("queued tasks and current task", "what the worker owes an answer for", W + "task_manager.py")],
     ["messages between agent, scheduler and processor"])

prop("C16", "A cancel at a worker never disturbs its other tasks",
     "A cancel reaching a worker in any state (task queued, next in line, running, fetching its function, finished, unknown, or the processor starting up or restarting) is answered exactly once and the worker survives it. "
     "Cancelling the running task replaces the processor, nothing of the old processor is taken for a later task, and all other tasks of the worker still run to their own results.",
     ["schedules", "fault_sequences"],
     "a cancel at every point of every bounded agent history, with old-processor messages lost or delivered late",
     "The cancel test never checks the worker afterwards, and the timing between kill, restart and late replies cannot be controlled by it.",
     [W + "task_manager.py", W + "processor_manager.py", W + "processor/processor.py"],
     [("processor restart", W + "processor_manager.py"), ("initialised flag and stale-reply checks", W + "processor_manager.py")],
     [("processor holder", "current processor, task and lock", W + "processor_manager.py")],
     ["messages between agent, scheduler and processor", "processes started and killed"])

prop("C17", "Whatever a function does, its task is answered and the worker lives",
     "For every function and arguments (returning any value, raising any exception, including values and exceptions that cannot be serialised or rebuilt, leaving through sys.exit, or failing to load on the worker; anything short of ending the whole process, as os._exit or a KeyboardInterrupt does) the task is answered with its result or with an "
     "exception describing what happened, and the worker then runs its next task correctly.",
     ["inputs", "programs", "histories"],
     "all combinations of load/argument/run/serialise outcome for sequences of tasks, with and without the function already cached",
     "One function raising one picklable built-in exception is tested.",
     [W + "processor/processor.py", "scaled/protocol/python/serializer/default.py", C],
     [("exception capture", W + "processor/processor.py")],
     [], ["TaskResult messages from the processor", "futures"])

prop("C18", "Function cache clean-up never breaks a running worker",
     "The worker's background clean-up of unused functions, interleaved in any way with receiving, fetching and running tasks, never makes a task fail, never lets an old or wrong function be called, and never stops cleaning up; "
     "functions unused longer than the retention time do get dropped.",
     ["schedules"],
     "all thread interleavings at bytecode granularity within a preemption bound of the cleaner with task processing",
     "The clean-up thread first acts after 20 s of idling in default settings and the windows are a few bytecodes wide.",
     [W + "processor/cache_cleaner.py", W + "processor/processor.py"],
     [("function cache and last-use table", W + "processor/cache_cleaner.py")],
     [("cached functions", "loaded functions by id", W + "processor/cache_cleaner.py")],
     ["TaskResult messages", "cleaner thread alive"])

prop("C19", "Every message survives the wire unchanged",
     "Every message any component can send arrives as an equal message of the same type (durations and cpu shares up to their wire precision), whatever its fields: empty or long byte strings, no or many arguments, functions, targets, nodes or "
     "results. Encoding a valid message never fails, and distinct messages never share an encoding.",
     ["inputs"],
     "all messages of all types over a bounded field alphabet (empty, separator-like and long strings, all enum values, 0..3 repetitions)",
     "Tests only send the messages of their own runs, never empty graphs, empty strings or extreme counters.",
     [M, "scaled/io/async_binder.py", "scaled/io/async_connector.py", "scaled/io/sync_connector.py"],
     [("serialize/deserialize pairs and type table", M)],
     [], ["bytes on the wire and the decoded message"])

prop("C20", "Arguments bind as in a direct call, or submit refuses",
     "For every function signature and every mix of positional and keyword arguments, submit either runs the function with exactly the parameter bindings a direct call would make, or raises TypeError (at submit or from the future). "
     "It never silently drops, reorders or defaults an argument the caller gave.",
     ["inputs", "programs"],
     "all signatures over positional-only, positional, defaulted, *args, keyword-only, **kwargs parameters and partials, up to the bound, times all call shapes",
     "Seven hand-picked call shapes of two functions and one partial are tested.",
     [C], [("keyword-to-positional conversion", C)], [], ["arguments received by the function"])

prop("C21", "The task queue is a FIFO queue with removal",
     "The scheduler's and workers' task queue behaves as an asynchronous FIFO queue of distinct items: put, get, remove, membership and size agree with a plain list for every operation sequence and every hashable item, waiting getters and putters are "
     "served when an item or room appears (also through removal), and a refused operation changes nothing.",
     ["histories", "inputs", "schedules"],
     "all operation sequences up to the bound over a small item alphabet (including unequal items with equal hashes), bounded and unbounded queues, blocked and cancelled getters/putters",
     "Two fixed sequences on small integers are tested.",
     ["scaled/utility/queues/async_indexed_queue.py"],
     [("linked list plus index", "scaled/utility/queues/async_indexed_queue.py")],
     [], ["return values, order and blocking of queue operations"])

prop("C22", "Reported status matches what really happened",
     "In every state the scheduler's status report counts each accepted, unfinished task exactly once as waiting or running, its success, failed, cancelled and not-found totals equal the outcomes so far, and per-worker, per-client and per-function numbers match the tasks they hold. "
     "The published state stream takes every task from inactive through running (and back when rerouted) to one final state.",
     ["histories", "schedules"],
     "all reachable states of bounded scheduler histories",
     "No test reads the status report or the monitor stream.",
     [S + "task_manager.py", S + "worker_manager.py", S + "status_reporter.py", S + "function_manager.py", S + "client_manager.py"],
     [("counters", S + "task_manager.py"), ("monitor messages", S + "task_manager.py")],
     [], ["SchedulerState and TaskState messages on the monitor socket"])

prop("C23", "Finished work leaves nothing behind",
     "Once all tasks and graphs of a history have ended (result, failure, cancel, rejection, worker loss or client disconnect), the scheduler, the workers that are left and the client hold no more per-task, per-graph or per-worker state than before it, however often the history is "
     "repeated.",
     ["histories", "schedules"],
     "all bounded histories, each run twice from the state it left, comparing everything reachable in the components",
     "Tests are too short for leaks to matter and never inspect what remains.",
     [S + "task_manager.py", S + "graph_manager.py", S + "client_manager.py", S + "function_manager.py", S + "allocators/queued.py",
      W + "task_manager.py", C],
     [("clean-up on completion", S + "task_manager.py"), ("graph clean-up", S + "graph_manager.py")],
     [], ["sizes of all tables reachable from the components"])

prop("C24", "Peers are declared dead exactly after their timeout",
     "The scheduler drops a worker at the first check after it has been silent for longer than the worker timeout and never earlier, and any heartbeat makes a dropped worker usable again. A worker agent keeps exactly one heartbeat in flight, answers for its processor once that exists, and "
     "quits, telling the scheduler, at the first check after not hearing from it for the death timeout and never earlier.",
     ["schedules", "histories", "configurations"],
     "all bounded sequences of heartbeats, echoes, losses and clock advances around the timeout boundaries, for several timeout settings",
     "No test lets a timeout elapse.",
     [S + "worker_manager.py", W + "heartbeat_manager.py", W + "timeout_manager.py", "scaled/worker/worker.py"],
     [("liveness sweep", S + "worker_manager.py"), ("death timer", W + "timeout_manager.py"), ("heartbeat/echo pairing", W + "heartbeat_manager.py")],
     [("last seen times", "when the peer was last heard", S + "worker_manager.py")],
     ["workers receiving tasks", "Heartbeat and DisconnectRequest messages"])

prop("C25", "get accepts exactly the well-formed graphs",
     "get raises, before anything is sent, exactly for graphs that are cyclic (CycleError), refer to undefined names or request unknown keys, and accepts every other graph without modifying what the caller passed in. The result maps every requested key to its own value, for blocking and non-blocking calls, duplicate keys and graphs of constants included.",
     ["inputs"],
     "all small graphs over a bounded set of names, argument lists (including undefined and self references) and key lists",
     "One good and one cyclic graph are tested.",
     [C], [("graph validation and key mapping", C)], [], ["exceptions, messages sent, returned mapping"])

prop("C26", "Shutting down a cluster ends every process it started",
     "After the cluster is told to stop, by signal or shutdown call, at any moment from start-up on and for any number of workers, every worker agent and processor it started ends, each worker announces its departure to the scheduler, and its tasks are handed over.",
     ["schedules", "crash_points", "configurations"],
     "a stop request at every step of bounded cluster histories, one to three workers, idle or busy, with processors starting or restarting",
     "Tests stop the cluster in tearDown and never check what stays running.",
     ["scaled/cluster/cluster.py", "scaled/cluster/combo.py", "scaled/worker/worker.py", W + "processor_manager.py"],
     [("signal handlers", "scaled/cluster/cluster.py"), ("agent tear-down", "scaled/worker/worker.py")],
     [], ["processes alive", "DisconnectRequest messages"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
