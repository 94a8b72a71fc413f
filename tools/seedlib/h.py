"""Helpers of the demonstrations: the real scheduler, worker agent or client in a process of its own, and raw peers."""
import atexit
import os
import pickle
import signal
import socket
import subprocess
import sys
import textwrap
import threading
import time
import uuid

sys.path.insert(0, os.getcwd())

import cloudpickle
import zmq

from scaled.protocol.python.message import *  # noqa

CTX = zmq.Context.instance()
PROCESSES = []


def free_port():
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]


def fail(text):
    print("FAIL:", text, flush=True)
    cleanup()
    os._exit(1)


def ok(text="ok"):
    print("OK:", text, flush=True)
    cleanup()
    os._exit(0)


def check(condition, text):
    if not condition:
        fail(text)


def cleanup():
    for p in PROCESSES:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass


atexit.register(cleanup)


def _guard():
    time.sleep(120)
    fail("demo took too long")


threading.Thread(target=_guard, daemon=True).start()


def spawn(code, quiet=True):
    code = f"import sys; sys.path.insert(0, {os.getcwd()!r})\n" + textwrap.dedent(code)
    err = subprocess.DEVNULL if quiet and not os.environ.get("DEMO_VERBOSE") else None
    p = subprocess.Popen([sys.executable, "-c", code], start_new_session=True, stdout=err, stderr=err)
    PROCESSES.append(p)
    return p


class Scheduler:
    def __init__(self, **options):
        self.port = free_port()
        self.address = f"tcp://127.0.0.1:{self.port}"
        o = dict(io_threads=1, max_number_of_tasks_waiting=-1, per_worker_queue_size=1000, worker_timeout_seconds=60,
                 function_retention_seconds=3600, load_balance_seconds=0, load_balance_trigger_times=2)
        o.update(options)
        self.process = spawn(f"""
            from scaled.cluster.scheduler import SchedulerProcess
            from scaled.utility.zmq_config import ZMQConfig
            if __name__ == "__main__":
                SchedulerProcess(address=ZMQConfig.from_string({self.address!r}), **{o!r}).run()
            """)

    def peer(self, name):
        return Peer(self.address, name)

    def monitor(self):
        s = CTX.socket(zmq.SUB)
        s.setsockopt(zmq.SUBSCRIBE, b"")
        s.connect(f"ipc:///tmp/127.0.0.1_{self.port}_monitor")
        return Stream(s)


class Stream:
    def __init__(self, s):
        self.socket = s

    def recv(self, timeout=5.0):
        """next message, or None"""
        if not self.socket.poll(int(timeout * 1000)):
            return None
        frames = self.socket.recv_multipart()
        return PROTOCOL[MessageType(frames[0])].deserialize(frames[1:])

    def expect(self, cls, timeout=5.0, **fields):
        """next message of this class with these field values, skipping others; None if there is none in time"""
        end = time.time() + timeout
        while time.time() < end:
            m = self.recv(max(0.0, end - time.time()))
            if isinstance(m, cls) and all(getattr(m, k) == v for k, v in fields.items()):
                return m
        return None

    def drain(self, seconds):
        end = time.time() + seconds
        r = []
        while time.time() < end:
            m = self.recv(max(0.0, end - time.time()))
            if m is not None:
                r.append(m)
        return r


class Peer(Stream):
    """raw client or worker connected to a scheduler"""

    def __init__(self, address, name):
        s = CTX.socket(zmq.DEALER)
        s.setsockopt(zmq.IDENTITY, name)
        s.setsockopt(zmq.LINGER, 0)
        s.connect(address)
        super().__init__(s)
        self.name = name

    def send(self, m):
        self.socket.send_multipart([PROTOCOL.inverse[type(m)].value, *m.serialize()])

    # as client
    def add_function(self, fid, name=b"f", content=b"content"):
        self.send(FunctionRequest(FunctionRequestType.Add, fid, name, content))
        check(self.expect(FunctionResponse, 15), "scheduler doesn't answer function add")

    def submit(self, tid, fid, args=()):
        self.send(Task(tid, fid, [Argument(ArgumentType.Data, a) for a in args]))

    # as worker
    def beat(self, latency=1):
        self.send(Heartbeat(0.0, 1, 0.0, 1, 0, latency, True, False, False))
        return self.expect(HeartbeatEcho, 15)

    def done(self, tid, result=b"r", status=TaskStatus.Success):
        self.send(TaskResult(tid, status, 0.0, result))


class Router:
    """what a real worker agent or client connects to"""

    def __init__(self):
        self.socket = CTX.socket(zmq.ROUTER)
        self.socket.setsockopt(zmq.LINGER, 0)
        self.port = self.socket.bind_to_random_port("tcp://127.0.0.1")
        self.address = f"tcp://127.0.0.1:{self.port}"
        self.echo = True  # answer heartbeats
        self.functions = {}  # answer function requests of workers / adds of clients
        self.peer = None

    def recv(self, timeout=5.0):
        end = time.time() + timeout
        while True:
            if not self.socket.poll(int(max(0.0, end - time.time()) * 1000)):
                return None
            frames = self.socket.recv_multipart()
            m = PROTOCOL[MessageType(frames[1])].deserialize(frames[2:])
            self.peer = frames[0]
            if isinstance(m, Heartbeat) and self.echo:
                self.send(HeartbeatEcho())
                continue
            if isinstance(m, FunctionRequest) and m.type == FunctionRequestType.Request and m.function_id in self.functions:
                self.send(FunctionResponse(FunctionResponseType.OK, m.function_id, b"f", self.functions[m.function_id]))
                continue
            return m

    expect = Stream.expect
    drain = Stream.drain

    def send(self, m):
        self.socket.send_multipart([self.peer, PROTOCOL.inverse[type(m)].value, *m.serialize()])

    def wait_worker(self, initialized=True):
        """wait for a heartbeat of a worker whose processor is up"""
        end = time.time() + 40
        while time.time() < end:
            if not self.socket.poll(1000):
                continue
            frames = self.socket.recv_multipart()
            m = PROTOCOL[MessageType(frames[1])].deserialize(frames[2:])
            self.peer = frames[0]
            if isinstance(m, Heartbeat):
                self.send(HeartbeatEcho())
                if m.initialized or not initialized:
                    return
        fail("worker doesn't come up")

    def task(self, tid, fid, *args):
        self.send(Task(tid, fid, [Argument(ArgumentType.Data, cloudpickle.dumps(a)) for a in args]))

    def function(self, fid, fn):
        self.functions[fid] = cloudpickle.dumps(fn)


def worker(address, **options):
    o = dict(event_loop="builtin", heartbeat_interval_seconds=1, garbage_collect_interval_seconds=30,
             trim_memory_threshold_bytes=1 << 40, function_retention_seconds=3600, death_timeout_seconds=300)
    o.update(options)
    return spawn(f"""
        from scaled.worker.worker import Worker
        from scaled.utility.zmq_config import ZMQConfig
        from scaled.protocol.python.serializer.default import DefaultSerializer
        if __name__ == "__main__":
            Worker(address=ZMQConfig.from_string({address!r}), serializer=DefaultSerializer(), **{o!r}).run()
        """)


def group_pids(p):
    """living processes of the group of p"""
    r = []
    for pid in os.listdir("/proc"):
        if pid.isdigit():
            try:
                with open(f"/proc/{pid}/stat") as f:
                    rest = f.read().rpartition(")")[2].split()
            except OSError:
                continue
            if int(rest[2]) == p.pid and rest[0] != "Z":
                with open(f"/proc/{pid}/cmdline") as f:
                    if "resource_tracker" not in f.read():
                        r.append(int(pid))
    return r
