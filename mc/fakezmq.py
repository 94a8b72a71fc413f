"""In-memory stand-in for the ZeroMQ sockets the package uses (ROUTER, DEALER, PAIR, PUB; sync and asyncio).

A connection is a pair of FIFO queues. Nothing arrives by itself: the explorer moves the head of one queue into the
receiving socket's inbox (`Conn.deliver_*`). Semantics kept from libzmq: per-connection FIFO, no order across
connections, ROUTER drops messages to unknown identities, PAIR has one peer and blocks sending without one, unlimited
high-water marks, messages sent before the peer binds or connects are queued.
"""
import asyncio
from collections import deque

import zmq

from . import coop

WORLD = None  # set by world.py


def to_bytes(x):
    if isinstance(x, bytes):
        return x
    return bytes(x)


class Conn:
    """client end connects, server end binds; c2s / s2c are in flight"""

    def __init__(self, net, address, client, identity):
        self.net = net
        self.address = address
        self.client = client  # FakeSocket or None for a raw peer
        self.identity = identity
        self.c2s = deque()
        self.s2c = deque()
        self.c_open = True
        self.s_open = True

    def server(self):
        return self.net.binds.get(self.address)


class Net:
    def __init__(self, world):
        self.world = world
        self.binds = {}
        self.conns = []
        self.sent = []  # (kind, identity/address, frames): everything sent, in order
        self.pub = []  # frames published
        self.sockets = []

    def connect(self, address, client, identity):
        c = Conn(self, address, client, identity)
        self.conns.append(c)
        srv = c.server()
        if srv is not None and srv.socket_type == zmq.PAIR:
            srv.flush_pending()
        return c

    def conns_of(self, address):
        return [c for c in self.conns if c.address == address]

    def pair_peer(self, address):
        """a PAIR has one peer: who connects later has to wait until it is gone"""
        for c in self.conns:
            if c.c_open and c.address == address:
                return c
        return None

    # deliverable: list of (label, conn, direction)
    def deliverable(self):
        out = []
        blocked_pairs = set()
        for i, c in enumerate(self.conns):
            if c.c2s:
                srv = c.server()
                if srv is not None and not srv.closed and c.address not in blocked_pairs and not (
                        c.c_open and srv.socket_type == zmq.PAIR and self.pair_peer(c.address) is not c):
                    out.append((i, "c2s"))
                if srv is not None and srv.socket_type == zmq.PAIR:
                    blocked_pairs.add(c.address)
            if c.s2c and c.client is not None and c.c_open:
                out.append((i, "s2c"))
        return out

    def deliver(self, i, direction):
        c = self.conns[i]
        if direction == "c2s":
            frames = c.c2s.popleft()
            srv = c.server()
            srv.put([c.identity, *frames] if srv.socket_type == zmq.ROUTER else list(frames))
        else:
            frames = c.s2c.popleft()
            c.client.put(list(frames))
        return frames


def _dying():
    """code of a killed process that swallowed its end must not go on"""
    t = coop.current()
    if t is not None and t.killed:
        raise coop.CoopKill()


class FakeSocket:
    def __init__(self, net, ctx, socket_type, is_async):
        self.net = net
        self.ctx = ctx
        self.socket_type = socket_type
        self.is_async = is_async
        self.opts = {}
        self.inbox = deque()
        self.getters = deque()
        self.pending = deque()  # (frames, future) of a PAIR without peer
        self.closed = False
        self.conn = None
        self.address = None
        self.proc = net.world.cur_proc
        net.sockets.append(self)
        if self.proc is not None:
            self.proc.sockets.append(self)

    # options
    def setsockopt(self, opt, value):
        self.opts[int(opt)] = value

    set = setsockopt

    def setsockopt_string(self, opt, value, encoding="utf-8"):
        self.opts[int(opt)] = value.encode(encoding)

    set_string = setsockopt_string

    def getsockopt(self, opt):
        return self.opts.get(int(opt), 0)

    get = getsockopt

    def __setattr__(self, k, v):
        if k in ("linger", "identity", "sndhwm", "rcvhwm", "sndtimeo", "rcvtimeo", "routing_id", "immediate", "LINGER", "IDENTITY",
                 "SNDHWM", "RCVHWM", "SNDTIMEO", "RCVTIMEO", "IMMEDIATE"):
            self.opts[int(getattr(zmq, k.upper()))] = v
            return
        object.__setattr__(self, k, v)

    @property
    def ident(self):
        v = self.opts.get(int(zmq.IDENTITY), b"")
        return v.encode() if isinstance(v, str) else v

    def bind(self, address):
        self.address = address
        if address in self.net.binds and not self.net.binds[address].closed:
            raise zmq.ZMQError(zmq.EADDRINUSE)
        self.net.binds[address] = self
        if self.socket_type == zmq.PAIR:
            self.flush_pending()

    def connect(self, address):
        self.address = address
        self.conn = self.net.connect(address, self, self.ident)

    def subscribe(self, topic):
        pass

    def close(self, linger=None):
        if self.closed:
            return
        self.closed = True
        if self.conn is not None:
            self.conn.c_open = False
            self.conn.s2c.clear()
        for g in self.getters:
            if not g.done():
                g.cancel()
        self.getters.clear()

    # receive side
    def taken(self, frames):
        self.net.sent.append(("recv", self, frames))

    def put(self, frames):
        if self.closed:
            return
        while self.getters:
            g = self.getters.popleft()
            if not g.done():
                self.taken(frames)
                g.set_result(frames)
                return
        self.inbox.append(frames)

    def waiting(self):
        """a receiver is parked here"""
        return bool(self.getters)

    def poll(self, timeout=None, flags=zmq.POLLIN):
        _dying()
        if self.closed:
            raise zmq.ZMQError(zmq.ENOTSOCK)
        t = None if timeout is None or timeout < 0 else timeout / 1000.0
        if self.is_async:
            f = asyncio.get_running_loop().create_future()
            f.set_result(zmq.POLLIN if self.inbox else 0)
            return f
        ok = coop.block(lambda: bool(self.inbox) or self.closed, t, "poll")
        if self.closed:
            raise zmq.ZMQError(zmq.ENOTSOCK)
        return zmq.POLLIN if ok else 0

    def recv_multipart(self, flags=0, copy=True, track=False):
        _dying()
        if self.is_async:
            f = asyncio.get_running_loop().create_future()
            if self.closed:
                f.set_exception(zmq.ZMQError(zmq.ENOTSOCK))
            elif self.inbox:
                m = self.inbox.popleft()
                self.taken(m)
                f.set_result(m)
            else:
                self.getters.append(f)
            return f
        if self.closed:
            raise zmq.ZMQError(zmq.ENOTSOCK)
        if not self.inbox:
            if flags & zmq.NOBLOCK:
                raise zmq.Again()
            to = self.opts.get(int(zmq.RCVTIMEO), -1)
            if not coop.block(lambda: bool(self.inbox), None if to < 0 else to / 1000.0, "recv"):
                raise zmq.Again()
        m = self.inbox.popleft()
        self.taken(m)
        return m

    # send side
    def flush_pending(self):
        while self.pending and self.net.pair_peer(self.address) is not None:
            frames, fut = self.pending.popleft()
            if fut.done():
                continue
            self.net.pair_peer(self.address).s2c.append(frames)
            fut.set_result(None)

    def _send(self, frames):
        """True when sent, False when it would block"""
        _dying()
        if self.closed:
            raise zmq.ZMQError(zmq.ENOTSOCK)
        t = self.socket_type
        if t == zmq.ROUTER:
            ident, rest = frames[0], frames[1:]
            self.net.sent.append(("router", ident, rest))
            for c in reversed(self.net.conns_of(self.address)):
                if c.identity == ident and c.c_open:
                    c.s2c.append(rest)
                    break
            return True
        if t == zmq.PUB:
            self.net.pub.append(frames)
            self.net.sent.append(("pub", self.address, frames))
            return True
        if self.conn is not None:  # DEALER / connecting PAIR
            self.net.sent.append(("conn", self.conn.identity, frames))
            self.conn.c2s.append(frames)
            return True
        if t == zmq.PAIR:
            if self.pending:
                return False
            peer = self.net.pair_peer(self.address)
            if peer is None:
                return False
            self.net.sent.append(("pair", self.address, frames))
            peer.s2c.append(frames)
            return True
        raise zmq.ZMQError(zmq.ENOTSUP)

    def send_multipart(self, msg_parts, flags=0, copy=True, track=False, **kw):
        frames = [to_bytes(m) for m in msg_parts]
        if self.is_async:
            f = asyncio.get_running_loop().create_future()
            try:
                if self._send(frames):
                    f.set_result(None)
                else:
                    self.pending.append((frames, f))
            except zmq.ZMQError as e:
                f.set_exception(e)
            return f
        if not self._send(frames):
            coop.block(lambda: self.net.pair_peer(self.address) is not None, None, "send")
            self._send(frames)
        return None

    def send(self, data, flags=0, copy=True, track=False, **kw):
        return self.send_multipart([data])


class FakeContext:
    is_async = False

    def __init__(self, io_threads=1, **kw):
        self.world = WORLD
        self.io_threads = io_threads
        self.sockets = []
        self.closed = False

    @classmethod
    def instance(cls, io_threads=1):
        return cls()

    def socket(self, socket_type, **kw):
        s = FakeSocket(self.world.net, self, socket_type, self.is_async)
        self.sockets.append(s)
        return s

    def setsockopt(self, *a):
        pass

    def destroy(self, linger=None):
        for s in self.sockets:
            s.close()
        self.closed = True

    def term(self):
        self.closed = True


class FakeAsyncContext(FakeContext):
    is_async = True
