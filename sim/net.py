"""Simulated asyncio loop and TCP network: ordered byte pipes with seeded fragmentation, delay and faults."""
import asyncio
import collections
import errno
import socket as _socket
from asyncio import base_events, transports

from . import kernel as K


class _FakeSelector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout=None):
        loop = self.loop
        k = K.KERNEL
        if timeout is not None and timeout <= 0:
            if loop._io or timeout == 0:
                k.yield_("loop.poll")
        else:
            k.wait_until(lambda: loop._io or loop._ready or loop._stopping, timeout, "loop.select")
        ev = list(loop._io)
        loop._io.clear()
        return ev

    def close(self):
        pass

    def get_map(self):
        return {}


class SimLoop(base_events.BaseEventLoop):
    def __init__(self):
        super().__init__()
        self._io = collections.deque()
        self._selector = _FakeSelector(self)
        self._clock_resolution = 1e-9
        self._simproc = K.current().proc

    def time(self):
        return K.KERNEL.now

    def _process_events(self, events):
        for cb, args, ctx in events:
            self._ready.append(asyncio.Handle(cb, args, self, ctx))

    def _write_to_self(self):
        pass  # wake-ups are predicates on _ready

    def io(self, cb, *args):
        self._io.append((cb, args, None))

    def call_soon_threadsafe(self, callback, *args, context=None):
        h = super().call_soon_threadsafe(callback, *args, context=context)
        K.KERNEL.yield_("loop.call_soon_threadsafe")
        return h

    def run_in_executor(self, executor, func, *args):
        if executor is not None and hasattr(executor, "_sim_submit"):
            return asyncio.wrap_future(executor.submit(func, *args), loop=self)
        fut = self.create_future()
        k = K.KERNEL
        k.count("executor-job")

        def body():
            try:
                r = func(*args)
            except (SystemExit, KeyboardInterrupt) as e:
                exc, r = e, None
            except BaseException as e:  # noqa: BLE001
                exc, r = e, None
                if isinstance(e, StopIteration):
                    exc = RuntimeError("StopIteration in executor")
            else:
                exc = None

            def done():
                if fut.cancelled():
                    return
                if exc is not None:
                    fut.set_exception(exc)
                else:
                    fut.set_result(r)

            if not self.is_closed():
                self.call_soon_threadsafe(done)

        th = k.spawn_thread(body, "executor", True)
        self.__dict__.setdefault("_jobs", []).append(th)
        th.start()
        k.yield_("executor.submit")
        return fut

    async def shutdown_default_executor(self, timeout=None):
        for th in self.__dict__.get("_jobs", []):
            K.KERNEL.wait_until(lambda: th.state in ("done", "dead"), timeout, "executor.join")

    async def getaddrinfo(self, host, port, *, family=0, type=0, proto=0, flags=0):
        return [(_socket.AF_INET, _socket.SOCK_STREAM, 6, "", (host, port))]

    async def create_connection(self, protocol_factory, host=None, port=None, **kw):
        k = K.KERNEL
        net = k.net
        await net.connect_delay(self)
        srv = net.lookup(host, port)
        if srv is None:
            k.count("fault:connect-refused-nolistener")
            raise ConnectionRefusedError(errno.ECONNREFUSED, f"Connect call failed ({host!r}, {port})")
        proto = protocol_factory()
        conn = Conn(net, self, srv.loop)
        ct = SimTransport(self, conn, 0, proto)
        st_proto = srv.factory()
        st = SimTransport(srv.loop, conn, 1, st_proto)
        conn.ends = (ct, st)
        net.conns.append(conn)
        net.on_connect(conn)
        srv.loop.io(st_proto.connection_made, st)
        srv.loop.io(st._start)
        proto.connection_made(ct)
        ct._start()
        return ct, proto

    async def create_server(self, protocol_factory, host=None, port=None, **kw):
        net = K.KERNEL.net
        if net.lookup(host, port) is not None:
            raise OSError(errno.EADDRINUSE, "address already in use")
        srv = SimServer(self, protocol_factory, host, port)
        net.servers.append(srv)
        K.current().proc.on_kill.append(lambda p: net.proc_died(p))
        return srv

    def close(self):
        if self.is_running():
            raise RuntimeError("Cannot close a running event loop")
        # transports still open at loop close behave like sockets closed at garbage collection
        for c in list(K.KERNEL.net.conns) if K.KERNEL and K.KERNEL.net else []:
            for e in c.ends:
                if e.loop is self and not e.closed:
                    e.abort()
        self._ready.clear()
        self._scheduled.clear()
        super().close()

    def add_signal_handler(self, *a, **k):
        pass

    def remove_signal_handler(self, *a, **k):
        return False

    def call_exception_handler(self, context):
        K.KERNEL.count("loop-exception-handler")


class SimServer(asyncio.AbstractServer):
    def __init__(self, loop, factory, host, port):
        self.loop, self.factory, self.host, self.port = loop, factory, host, port
        self.proc = K.current().proc
        self.closed = False
        self._fut = None

    @property
    def sockets(self):
        return (_FakeSock(self.host, self.port),)

    def is_serving(self):
        return not self.closed

    async def start_serving(self):
        pass

    async def serve_forever(self):
        self._fut = self.loop.create_future()
        try:
            await self._fut
        finally:
            self.close()

    def get_loop(self):
        return self.loop

    def close(self):
        self.closed = True
        net = K.KERNEL.net
        if self in net.servers:
            net.servers.remove(self)
        if self._fut is not None and not self._fut.done():
            self._fut.cancel()

    async def wait_closed(self):
        pass

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        self.close()


class _FakeSock:
    def __init__(self, host, port):
        self.addr = (host, port)

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def getsockname(self):
        return self.addr

    def getpeername(self):
        return self.addr

    def fileno(self):
        return -1


class Conn:
    n = 0

    def __init__(self, net, l0, l1):
        k = K.KERNEL
        net.nconn += 1
        self.id = net.nconn
        self.net = net
        self.ends = ()
        self.cproc = K.current().proc
        self.sproc = None
        self.cut = None
        self.bytes = [0, 0]  # delivered towards end 1 (client->server) / end 0
        self.got = [0, 0]    # of these, handed to the receiving protocol
        self.plan = None  # (direction, byte position, kind, duration)


class SimTransport(transports.Transport):
    HIGH = 64 * 1024
    LOW = 16 * 1024

    def __init__(self, loop, conn, side, proto):
        super().__init__({"socket": _FakeSock("sim", conn.id), "peername": ("sim", conn.id), "sockname": ("sim", 0)})
        self.loop = self._loop = loop
        self.conn = conn
        self.side = side
        self.proto = proto
        self.closed = False      # no more callbacks
        self.closing = False
        self.eof_sent = False
        self.out = bytearray()   # written by us, not yet delivered to the peer
        self.paused_reading = False
        self.paused_writing = False
        self.timer = False
        self.eof_received = False
        self.pending_eof = False
        self.stalled_until = 0.0
        self.started = False

    # -- protocol side
    def _start(self):
        self.started = True
        self._peer()._kick()

    def get_protocol(self):
        return self.proto

    def set_protocol(self, p):
        self.proto = p

    def is_closing(self):
        return self.closing or self.closed

    def is_reading(self):
        return not self.paused_reading

    def pause_reading(self):
        self.paused_reading = True

    def resume_reading(self):
        self.paused_reading = False
        self._peer()._kick()

    def set_write_buffer_limits(self, high=None, low=None):
        if high is not None:
            self.HIGH = high
            self.LOW = low if low is not None else high // 4

    def get_write_buffer_size(self):
        return len(self.out)

    def _peer(self):
        return self.conn.ends[1 - self.side]

    def write(self, data):
        if self.closed or self.closing or not data:
            if self.closed:
                K.KERNEL.count("write-after-close")
            return
        self.out += bytes(data)
        self._kick()
        if len(self.out) > self.HIGH + self.conn.net.sockbuf and not self.paused_writing:
            self.paused_writing = True
            self.proto.pause_writing()

    def writelines(self, lst):
        self.write(b"".join(lst))

    def can_write_eof(self):
        return True

    def write_eof(self):
        self.eof_sent = True
        self._kick()

    def close(self):
        if self.closing or self.closed:
            return
        self.closing = True
        self._kick()

    def abort(self):
        if self.closed:
            return
        self.out.clear()
        self._lost(None)
        p = self._peer()
        if not p.closed:
            p._reset()

    # -- network side
    def _kick(self):
        """Make sure a delivery attempt is scheduled."""
        if self.timer or self.closed:
            return
        if not self.out and not ((self.closing or self.eof_sent) and not self.pending_eof):
            return
        self.timer = True
        k = K.KERNEL
        d = self.conn.net.delay()
        when = max(k.now + d, self.stalled_until)
        k.call_at(when, self._deliver)

    def _deliver(self):
        self.timer = False
        k = K.KERNEL
        if k is None or k.finished or self.closed:
            return
        net = self.conn.net
        peer = self._peer()
        if net.partitioned(self.conn) or self.stalled_until > k.now:
            self.timer = True
            k.call_at(max(net.heal_time(self.conn), self.stalled_until, k.now + 1e-3), self._deliver)
            return
        if peer.closed:
            # peer is gone: data is answered by RST
            if self.out:
                self.out.clear()
                self._reset()
            elif self.closing:
                self._lost(None)
            return
        if not peer.started:
            return
        if self.out:
            if peer.paused_reading:
                return
            plan = self.conn.plan
            n = len(self.out)
            n = net.segment(n)
            if plan is not None and plan[0] == self.side:
                left = plan[1] - self.conn.bytes[self.side]
                if n >= left:
                    n = left
            data = bytes(self.out[:n])
            del self.out[:n]
            self.conn.bytes[self.side] += n
            if data:
                peer.loop.io(peer._data, data)
            if self.paused_writing and len(self.out) <= self.LOW:
                self.paused_writing = False
                self.loop.io(self._resume)
            if plan is not None and plan[0] == self.side and self.conn.bytes[self.side] >= plan[1]:
                self.conn.plan = None
                net.apply_plan(self.conn, plan)
                if self.closed:
                    return
        if self.out:
            self._kick()
        elif (self.closing or self.eof_sent) and not self.pending_eof:
            self.pending_eof = True
            peer.loop.io(peer._eof)
            if self.closing:
                self._lost(None)

    def _resume(self):
        if not self.closed:
            self.proto.resume_writing()

    def _data(self, data):
        if not self.closed and not self.closing:
            self.conn.got[1 - self.side] += len(data)
            self.proto.data_received(data)

    def _eof(self):
        if self.closed:
            return
        self.eof_received = True
        if self.closing:
            return
        keep = self.proto.eof_received()
        if not keep:
            self.close()

    def _reset(self):
        """Connection reset by peer."""
        if self.closed:
            return
        self.out.clear()
        self.closed = True
        self.loop.io(self._call_lost, ConnectionResetError(errno.ECONNRESET, "Connection reset by peer"))

    def _lost(self, exc):
        if self.closed:
            return
        self.closed = True
        if not self.loop.is_closed():
            self.loop.io(self._call_lost, exc)

    def _call_lost(self, exc):
        self.closed = True
        self.proto.connection_lost(exc)


class Network:
    def __init__(self, k, cfg=None):
        cfg = cfg or {}
        self.k = k
        self.servers = []
        self.conns = []
        self.nconn = 0
        self.parts = {}  # proc -> heal time
        self.seg_mode = cfg.get("seg", 0)  # 0 whole, 1 small, 2 mixed
        self.max_delay = cfg.get("delay", 0.002)
        self.sockbuf = cfg.get("sockbuf", 200_000)
        self.fault_plan = cfg.get("plan")  # callable(conn) -> plan or None
        self.refuse = cfg.get("refuse")  # callable() -> bool

    def lookup(self, host, port):
        if self.refuse and self.refuse():
            self.k.count("fault:connect-refused")
            return None
        for s in self.servers:
            if s.port == port and s.proc.alive and not s.closed:
                return s
        return None

    async def connect_delay(self, loop):
        k = self.k
        ev = loop.create_future()
        loop.call_later(self.delay(), ev.set_result, None)
        await ev
        p = K.current().proc
        t = self.parts.get(p)
        if t and t > k.now:
            k.count("fault:connect-partitioned")
            ev = loop.create_future()
            loop.call_later(t - k.now, ev.set_result, None)
            await ev

    def on_connect(self, conn):
        k = self.k
        conn.sproc = conn.ends[1].loop._simproc
        k.event(f"connect {conn.id}")
        if self.fault_plan:
            conn.plan = self.fault_plan(conn)

    def delay(self):
        v = self.k.choose("n", 4)
        return (1e-5, self.max_delay / 10, self.max_delay / 2, self.max_delay)[v]

    def segment(self, n):
        if self.seg_mode == 0 or n <= 1:
            return n
        v = self.k.choose("n", 6)
        if v == 0:
            return n
        if self.seg_mode == 1:
            return min(n, (1, 2, 3, 7, 64)[v - 1])
        return min(n, (1, 4, 8, 1000, max(1, n // 2))[v - 1])

    def partitioned(self, conn):
        for p in (conn.cproc, conn.sproc):
            if self.parts.get(p, 0) > self.k.now:
                return True
        return False

    def heal_time(self, conn):
        return max([self.parts.get(p, 0) for p in (conn.cproc, conn.sproc)])

    def partition(self, proc, dur):
        self.k.count("fault:partition")
        self.parts[proc] = self.k.now + dur

    def apply_plan(self, conn, plan):
        side, _pos, kind, dur = plan
        k = self.k
        k.count("fault:" + kind)
        k.event(f"net {kind} conn{conn.id} side{side}")
        a, b = conn.ends[side], conn.ends[1 - side]
        if kind == "reset":
            a._reset()
            b._reset()
        elif kind == "fin":  # sender's side closes cleanly mid-message
            a.out.clear()
            a.closing = True
        elif kind == "stall":
            a.stalled_until = k.now + dur
        elif kind == "blackhole":
            a.stalled_until = b.stalled_until = k.now + dur
        elif callable(kind):
            kind(conn)

    def proc_died(self, proc):
        """The OS closes a dead process's sockets: peers see RST or EOF."""
        for s in list(self.servers):
            if s.proc is proc:
                self.servers.remove(s)
                s.closed = True
        for c in self.conns:
            for e in c.ends:
                if e.loop._simproc is proc and not e.closed:
                    e.closed = True
                    e.out.clear()
                    peer = c.ends[1 - e.side]
                    if not peer.closed:
                        if self.k.choose("n", 2):
                            peer._reset()
                        else:
                            peer.loop.io(peer._eof)


def run(main, *, debug=None):
    with asyncio.Runner(debug=False, loop_factory=SimLoop) as runner:
        return runner.run(main)
