"""Simulated threading / multiprocessing / queue primitives."""
import collections
import copy
import ctypes
import pickle
import queue as _real_queue
import threading as _real_threading

from . import kernel as K


def cur():
    return K.current()


def kern():
    return K.KERNEL


class _Shared:
    """Shared by forked processes: a fork copy is the same object."""

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class _LockBase:
    reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def _free(self):
        return self._owner is None

    def acquire(self, blocking=True, timeout=-1, block=None):
        if block is not None:
            blocking = block
        t = cur()
        if t is None:
            me = "outside"
            if self._owner not in (None, me):
                raise K.HarnessError("lock held at end of simulation")
            self._owner = me
            self._count += 1
            return True
        if self.reentrant and self._owner is t:
            self._count += 1
            return True
        if timeout is None:
            timeout = -1
        if not blocking:
            t.k.yield_("lock.try")
            if self._owner is not None:
                return False
        else:
            ok = t.k.wait_until(self._free, None if timeout < 0 else timeout, "lock")
            if not ok or self._owner is not None:
                return False
        self._owner = t
        self._count = 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        if self.reentrant and self._owner is not cur() and cur() is not None:
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count <= 0:
            self._owner = None
            self._count = 0
            t = cur()
            if t is not None:
                t.k.yield_("unlock")

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._owner is not None

    def _is_owned(self):
        return self._owner is (cur() or "outside")


class Lock(_LockBase):
    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")

    def __deepcopy__(self, memo):
        if memo.get("__fork__"):
            n = type(self)()
            return n
        raise TypeError("cannot pickle '_thread.lock' object")


class RLock(Lock):
    reentrant = True


class MpLock(_Shared, _LockBase):
    """multiprocessing.Lock: not released when its holder dies, and any process may release it."""


class MpRLock(MpLock):
    reentrant = True


class Condition:
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else RLock()
        self._waiters = []
        self.acquire = self._lock.acquire
        self.release = self._lock.release

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        t = cur()
        if not self._lock._is_owned():
            raise RuntimeError("cannot wait on un-acquired lock")
        tok = [False]
        self._waiters.append(tok)
        n = self._lock._count
        self._lock._owner = None
        self._lock._count = 0
        ok = t.k.wait_until(lambda: tok[0], timeout, "cond.wait")
        if not tok[0] and tok in self._waiters:
            self._waiters.remove(tok)
        t.k.wait_until(self._lock._free, None, "cond.relock")
        self._lock._owner = t
        self._lock._count = n
        return ok or tok[0]

    def wait_for(self, predicate, timeout=None):
        t = cur()
        end = None if timeout is None else t.k.now + timeout
        r = predicate()
        while not r:
            left = None if end is None else end - t.k.now
            if left is not None and left <= 0:
                break
            self.wait(left)
            r = predicate()
        return r

    def notify(self, n=1):
        if not self._lock._is_owned():
            raise RuntimeError("cannot notify on un-acquired lock")
        for tok in self._waiters[:n]:
            tok[0] = True
        del self._waiters[:n]
        t = cur()
        if t is not None:
            t.k.yield_("notify")

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all


class Event:
    def __init__(self):
        self._flag = False

    def is_set(self):
        t = cur()
        if t is not None:
            t.k.yield_("event.is_set")
        return self._flag

    isSet = is_set

    def set(self):
        self._flag = True
        t = cur()
        if t is not None:
            t.k.yield_("event.set")

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        t = cur()
        t.k.wait_until(lambda: self._flag, timeout, "event.wait")
        return self._flag


class MpEvent(_Shared, Event):
    pass


class Semaphore:
    def __init__(self, value=1):
        self._v = value

    def acquire(self, blocking=True, timeout=None):
        t = cur()
        if not blocking:
            t.k.yield_("sem.try")
            if self._v <= 0:
                return False
        elif not t.k.wait_until(lambda: self._v > 0, timeout, "sem"):
            return False
        self._v -= 1
        return True

    def release(self, n=1):
        self._v += n
        t = cur()
        if t is not None:
            t.k.yield_("sem.release")

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class BoundedSemaphore(Semaphore):
    pass


class MpSemaphore(_Shared, Semaphore):
    pass


class Barrier:
    def __init__(self, parties, action=None, timeout=None):
        self.parties, self.n, self.gen, self.action = parties, 0, 0, action

    def wait(self, timeout=None):
        g = self.gen
        i = self.n
        self.n += 1
        if self.n == self.parties:
            if self.action:
                self.action()
            self.n = 0
            self.gen += 1
        elif not cur().k.wait_until(lambda: self.gen != g, timeout, "barrier"):
            raise _real_threading.BrokenBarrierError
        return i


class Thread:
    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        Thread._n += 1
        self.name = name or f"Thread-{Thread._n}"
        t = cur()
        self.daemon = daemon if daemon is not None else (t.daemon if t else False)
        self._st = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self._st is not None:
            raise RuntimeError("threads can only be started once")
        t = cur()
        k = t.k
        self._st = k.spawn_thread(self._boot, self.name, self.daemon)
        k.count("thread-start")
        self._st.pyobj = self
        self._st.start()
        k.yield_("thread.start")

    def _boot(self):
        self.run()

    def join(self, timeout=None):
        if self._st is None:
            raise RuntimeError("cannot join thread before it is started")
        cur().k.wait_until(lambda: self._st.state in ("done", "dead"), timeout, "thread.join")

    def is_alive(self):
        t = cur()
        if t is not None:
            t.k.yield_("thread.is_alive")
        return self._st is not None and self._st.state in ("ready", "blocked")

    @property
    def ident(self):
        return self._st.id if self._st else None

    native_id = ident


class _CurThread:
    def __init__(self, t):
        self.name = "MainThread" if t.proc.main is t else t.name
        self.daemon = t.daemon
        self.ident = self.native_id = t.id

    def is_alive(self):
        return True


def current_thread():
    t = cur()
    return getattr(t, "pyobj", None) or _CurThread(t)


# -- multiprocessing -------------------------------------------------------------------------------------------------
_CT = {"i": ctypes.c_int, "I": ctypes.c_uint, "d": ctypes.c_double, "f": ctypes.c_float, "l": ctypes.c_long,
       "b": ctypes.c_byte, "B": ctypes.c_ubyte, "q": ctypes.c_longlong, "Q": ctypes.c_ulonglong, "h": ctypes.c_short,
       "L": ctypes.c_ulong}


class MpValue(_Shared):
    def __init__(self, typecode, *args, lock=True):
        ct = _CT.get(typecode, typecode) if isinstance(typecode, str) else typecode
        self._obj = ct(*args)
        self._lk = MpRLock() if lock in (True, None) else lock

    @property
    def value(self):
        if cur() is not None:
            kern().yield_("val.get")
        return self._obj.value

    @value.setter
    def value(self, v):
        if cur() is not None:
            kern().yield_("val.set")
        self._obj.value = v

    def get_lock(self):
        return self._lk

    def get_obj(self):
        return self if False else _RawValue(self)

    def acquire(self, *a, **k):
        return self._lk.acquire(*a, **k)

    def release(self):
        self._lk.release()

    def __enter__(self):
        return self._lk.__enter__()

    def __exit__(self, *a):
        return self._lk.__exit__(*a)


class _RawValue(_Shared):
    def __init__(self, v):
        self.__dict__["_v"] = v

    @property
    def value(self):
        if cur() is not None:
            kern().yield_("val.get")
        return self._v._obj.value

    @value.setter
    def value(self, x):
        if cur() is not None:
            kern().yield_("val.set")
        self._v._obj.value = x


class MpArray(_Shared):
    def __init__(self, typecode, size_or_init, lock=True):
        ct = _CT.get(typecode, typecode) if isinstance(typecode, str) else typecode
        self._a = (ct * size_or_init)() if isinstance(size_or_init, int) else (ct * len(size_or_init))(*size_or_init)
        self._lk = MpRLock()

    def get_lock(self):
        return self._lk

    def get_obj(self):
        return self._a

    def __getitem__(self, i):
        kern().yield_("arr.get")
        return self._a[i]

    def __setitem__(self, i, v):
        kern().yield_("arr.set")
        self._a[i] = v

    def __len__(self):
        return len(self._a)


class _End(_Shared):
    """One end of the pipe of a queue (Queue._reader, Queue._writer)."""

    def __init__(self, q, side):
        self._q, self._side = q, side

    def _open(self, proc):
        return (id(self._q), self._side) in proc.fds

    def close(self):
        t = cur()
        if t is not None:
            kern().yield_("mpq.close." + self._side)
            t.proc.fds.discard((id(self._q), self._side))
            self._q._shut.add((t.proc.pid, self._side))

    @property
    def closed(self):
        return not self._open(cur().proc)

    def fileno(self):
        return -1

    def poll(self, timeout=0.0):
        return bool(kern().wait_until(self._q._ready, timeout, "mpq.poll"))


class MpQueue(_Shared):
    """
    multiprocessing.Queue: pickled items go through the producer's buffer and its feeder thread into a pipe of limited
    capacity. A killed producer loses its buffer; if its feeder was in the middle of a big message, only a part of that
    is in the pipe. A process that ends in an orderly way waits until its buffer is through. The pipe ends when no process
    has the writing end open, and breaks when no process has the reading end open.
    """

    TORN = b"torn"

    def __init__(self, maxsize=0, plain=False):
        k = kern()
        self._max = maxsize
        self._plain = plain  # of a check: unlimited capacity, no torn messages
        self._pipe = collections.deque()
        self._buf = collections.deque()  # [bytes, proc, time at which the feeder is done]
        self._cap = (0 if plain else k.cfg.get("mp_cap", 0)) or 10**9
        self._shut = set()
        self._unjoined = set()
        self._broken = False
        self._reader, self._writer = _End(self, "r"), _End(self, "w")
        t = cur()
        if t is not None:
            t.proc.fds |= {(id(self), "r"), (id(self), "w")}
        k.__dict__.setdefault("_mpqs", []).append(self)

    def _holders(self, side):
        return [p for p in kern().procs if p.alive and (id(self), side) in p.fds]

    def _touch(self, side):
        """Using an end without having inherited it (harness code): it is open then."""
        p = cur().proc
        if (p.pid, side) not in self._shut:
            p.fds.add((id(self), side))

    def _pump(self):
        now = kern().now
        while self._buf and self._buf[0][2] <= now:
            if not self._holders("r"):
                self._broken = True
                self._buf.popleft()
                continue
            if len(self._pipe) >= self._cap:
                return
            self._pipe.append(self._buf.popleft()[0])

    def _eof(self):
        return not self._holders("w")

    def _avail(self):
        self._pump()
        return bool(self._pipe)

    def _ready(self):
        self._pump()
        return bool(self._pipe) or self._eof()

    def put(self, obj, block=True, timeout=None):
        k = kern()
        data = pickle.dumps(obj)
        self._touch("w")
        if self._max > 0:
            if not k.wait_until(lambda: len(self._pipe) + len(self._buf) < self._max, timeout if block else 0, "mpq.put"):
                raise _real_queue.Full
        lag = k.rare("s", k.cfg.get("p_feeder_lag", 0.05), 4) * 0.01
        at = k.now + lag
        if self._buf:
            at = max(at, self._buf[-1][2])
        self._buf.append([data, cur().proc, at])
        if lag:
            k.call_at(at, lambda: None)
        p = cur().proc
        if self not in p.mpqs:
            p.mpqs.append(self)
            p.on_kill.append(self._producer_dead)
        self._pump()
        k.yield_("mpq.put")

    def _flushed(self, proc):
        self._pump()
        return proc.pid in self._unjoined or not any(e[1] is proc for e in self._buf)

    def _producer_dead(self, proc):
        self._pump()
        lost = [e for e in self._buf if e[1] is proc]
        if not lost:
            return
        k = kern()
        k.count("mpqueue-lost-items", len(lost))
        first = self._buf[0][1] is proc and self._buf[0][2] <= k.now
        self._buf = collections.deque(e for e in self._buf if e[1] is not proc)
        if first and not self._plain and k.cfg.get("mp_big") and proc.exitcode is not None and proc.exitcode < 0:
            k.count("fault:mpq-torn-message")
            self._pipe.append(self.TORN)

    def get(self, block=True, timeout=None):
        k = kern()
        self._touch("r")
        if not block:
            k.yield_("mpq.get")
            if not self._ready():
                raise _real_queue.Empty
        elif not k.wait_until(self._ready, timeout, "mpq.get"):
            raise _real_queue.Empty
        if not self._pipe:
            raise EOFError
        if self._pipe[0] is self.TORN:
            k.wait_until(self._eof, None, "mpq.recv")  # the timeout has been for the first byte
            if k.choose("f", 2):
                raise OSError("got end of file during message")
            raise EOFError
        data = self._pipe.popleft()
        self._pump()
        return pickle.loads(data)

    def get_nowait(self):
        return self.get(False)

    def put_nowait(self, obj):
        return self.put(obj, False)

    def empty(self):
        kern().yield_("mpq.empty")
        return not self._ready()

    def full(self):
        return self._max > 0 and len(self._pipe) + len(self._buf) >= self._max

    def qsize(self):
        return len(self._pipe) + len(self._buf)

    def close(self):
        kern().yield_("mpq.close")

    def join_thread(self):
        p = cur().proc
        kern().wait_until(lambda: self._flushed(p), None, "mpq.join")

    def cancel_join_thread(self):
        self._unjoined.add(cur().proc.pid)


def fork_copy(obj):
    """What a forked child sees: a private copy of the object graph; OS-shared primitives stay shared."""
    import sys
    import types

    memo = {"__fork__": True}
    d = copy._deepcopy_dispatch
    added = []

    def by_dict(x, memo):
        y = object.__new__(type(x))
        memo[id(x)] = y
        for kk, vv in x.__dict__.items():
            y.__dict__[kk] = copy.deepcopy(vv, memo)
        return y

    def gen(x, memo):
        if x.gi_frame is None:
            return x
        raise K.HarnessError("fork with a live generator: " + repr(x))

    def func(x, memo):
        if not x.__closure__:
            return x
        cells = tuple(types.CellType() for _ in x.__closure__)
        y = types.FunctionType(x.__code__, x.__globals__, x.__name__, x.__defaults__, cells)
        y.__dict__.update(x.__dict__)
        y.__kwdefaults__ = x.__kwdefaults__
        y.__qualname__, y.__module__ = x.__qualname__, x.__module__
        memo[id(x)] = y
        for a, b in zip(cells, x.__closure__):
            try:
                v = b.cell_contents
            except ValueError:
                continue
            a.cell_contents = copy.deepcopy(v, memo)
        return y

    with K.no_preempt():
        for mn, mod in list(sys.modules.items()):
            if mn.startswith("mixtera") and mod is not None:
                for c in list(vars(mod).values()):
                    if isinstance(c, type) and c not in d and str(getattr(c, "__module__", "")).startswith("mixtera"):
                        own = [n for b in c.__mro__ if str(b.__module__).startswith("mixtera") for n in b.__dict__]
                        if ("__getstate__" in own or "__setstate__" in own or "__new__" in own) and "__slots__" not in own:
                            d[c] = by_dict
                            added.append(c)
        d[types.GeneratorType] = gen
        d[types.ModuleType] = lambda x, memo: x
        fn = d[types.FunctionType]
        d[types.FunctionType] = func
        try:
            return copy.deepcopy(obj, memo)
        finally:
            for c in added:
                del d[c]
            del d[types.GeneratorType]
            del d[types.ModuleType]
            d[types.FunctionType] = fn


class Process:
    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs or {})
        t = cur()
        self._parent = t.proc if t else None
        k = kern()
        k._mpn = getattr(k, "_mpn", 0) + 1
        self.name = name or f"Process-{k._mpn}"
        self._daemon = daemon if daemon is not None else (self._parent.daemon if self._parent else False)
        self._p = None

    @property
    def daemon(self):
        return self._daemon

    @daemon.setter
    def daemon(self, v):
        self._daemon = v

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        t = cur()
        k = t.k
        assert self._p is None, "cannot start a process twice"
        hook = k.cfg.get("on_mp_start")
        k.yield_("proc.fork")
        fault = k.cfg.get("fork_fault")
        if fault is not None and fault(self):
            k.count("fault:fork-eagain")
            raise BlockingIOError(11, "Resource temporarily unavailable")
        child = fork_copy((self._target, self._args, self._kwargs))
        target, args, kwargs = child

        def main():
            try:
                if type(self).run is Process.run:
                    if target:
                        target(*args, **kwargs)
                else:
                    self.run()
            except SystemExit:
                raise
            except Exception:
                if k.cfg.get("debug"):
                    import traceback

                    traceback.print_exc()
                raise

        self._p = k.spawn_process(f"{t.proc.name}/{self._kind()}#{self.name}", main, parent=t.proc, daemon=self._daemon,
                                  start=False)
        self._p.mp_name = self.name
        self._p.joins = True
        self._p.orphan = str(getattr(self._target, "__module__", "")).startswith("mixtera")
        self._p.fds = set(t.proc.fds)
        self._p.worker_info = t.proc.worker_info
        if hook:
            hook(self._p, self)
        self._p.main.start()
        k.count("mp-process")
        k.yield_("proc.start")

    def _kind(self):
        f = self._target
        return getattr(f, "__name__", "proc")

    def is_alive(self):
        k = kern()
        k.yield_("proc.is_alive")
        return self._p is not None and self._p.alive

    def join(self, timeout=None):
        kern().wait_until(lambda: not self._p.alive, timeout, "proc.join")

    @property
    def exitcode(self):
        return None if self._p is None or self._p.alive else self._p.exitcode

    @property
    def pid(self):
        return self._p.pid if self._p else None

    ident = pid

    def terminate(self):
        kern().kill(self._p, -15)

    def kill(self):
        kern().kill(self._p, -9)

    def close(self):
        pass


class _CurProc:
    def __init__(self, p):
        self.name = getattr(p, "mp_name", "MainProcess")
        self.daemon = p.daemon
        self.pid = p.pid
        self.exitcode = None

    def is_alive(self):
        return True


def current_process():
    return _CurProc(cur().proc)


class AsyncResult:
    def __init__(self, n):
        self.res = [None] * n
        self.left = n
        self.exc = None
        self.errs = {}

    def wait(self, timeout=None):
        return kern().wait_until(lambda: self.left == 0, timeout, "pool.wait")

    def ready(self):
        return self.left == 0

    def get(self, timeout=None):
        if not self.wait(timeout):
            raise TimeoutError
        if self.exc:
            raise self.exc
        return self.res


class Pool:
    """multiprocessing.Pool: tasks and results are pickled, every task runs in a worker process of its own state."""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        k = kern()
        self._n = max(1, min(processes or k.cpu_count, 4))
        self._tasks = collections.deque()
        self._closed = False
        self._procs = []
        self._init = (initializer, initargs)
        for i in range(self._n):
            p = Process(target=self._worker, args=(_SharedBox(self),), name=f"PoolWorker-{i + 1}", daemon=True)
            p.start()
            self._procs.append(p)

    @staticmethod
    def _worker(box):
        self = box.v
        k = kern()
        if self._init[0]:
            self._init[0](*self._init[1])
        while True:
            k.wait_until(lambda: self._tasks or self._closed, None, "pool.task")
            if not self._tasks:
                return
            fn, arg, idx, ar, star = self._tasks.popleft()
            k.event(f"pooltask {idx}")
            try:
                f, a = pickle.loads(fn), pickle.loads(arg)
                r = f(*a) if star else f(a)
                k.yield_("pool.result")
                ar.res[idx] = pickle.loads(pickle.dumps(r))
            except Exception as e:  # noqa: BLE001
                if ar.exc is None:
                    ar.exc = e
                ar.errs[idx] = e
            ar.left -= 1
            ar.done = getattr(ar, "done", [])
            ar.done.append(idx)

    def _submit(self, func, items, star=False):
        items = list(items)
        ar = AsyncResult(len(items))
        f = pickle.dumps(func)
        for i, it in enumerate(items):
            self._tasks.append((f, pickle.dumps(it), i, ar, star))
        kern().yield_("pool.submit")
        return ar

    def map(self, func, iterable, chunksize=None):
        return self._submit(func, iterable).get()

    def starmap(self, func, iterable, chunksize=None):
        return self._submit(func, iterable, True).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._submit(func, iterable)

    def apply(self, func, args=(), kwds=None):
        return self._submit(func, [args], True).get()[0]

    def apply_async(self, func, args=(), kwds=None):
        ar = self._submit(func, [args], True)
        g = ar.get
        ar.get = lambda timeout=None: g(timeout)[0]
        return ar

    def imap(self, func, iterable, chunksize=1):
        ar = self._submit(func, iterable)
        for i in range(len(ar.res)):
            kern().wait_until(lambda: i in getattr(ar, "done", ()), None, "pool.imap")
            if ar.exc:
                raise ar.exc
            yield ar.res[i]

    def imap_unordered(self, func, iterable, chunksize=1):
        ar = self._submit(func, iterable)
        n = len(ar.res)
        for j in range(n):
            kern().wait_until(lambda: len(getattr(ar, "done", ())) > j, None, "pool.imap_unordered")
            if ar.exc:
                raise ar.exc
            yield ar.res[ar.done[j]]

    def close(self):
        self._closed = True

    def terminate(self):
        self._tasks.clear()
        self._closed = True
        for p in self._procs:
            if p._p.alive:
                kern()._terminate(p._p, -15)

    def join(self):
        for p in self._procs:
            p.join()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class _PoolFuture:
    def __init__(self, pool, ar):
        self._pool, self._ar = pool, ar

    def done(self):
        return self._ar.left == 0

    def result(self, timeout=None):
        return self._pool._wait(self._ar, 0)

    def cancel(self):
        return False


class ProcessPoolExecutor(Pool):
    """concurrent.futures.ProcessPoolExecutor: like Pool, but a dead worker breaks it, and leaving it waits for the tasks."""

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *, max_tasks_per_child=None):
        super().__init__(max_workers, initializer, initargs)

    def _wait(self, ar, i):
        from concurrent.futures.process import BrokenProcessPool

        kern().wait_until(lambda: i in getattr(ar, "done", ()) or any(not p._p.alive for p in self._procs), None, "executor.result")
        if i not in getattr(ar, "done", ()):
            raise BrokenProcessPool("A process in the process pool was terminated abruptly while the future was running or pending.")
        if i in ar.errs:
            raise ar.errs[i]
        return ar.res[i]

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        ar = self._submit(fn, zip(*iterables), True)
        n = len(ar.res)

        def results():
            try:
                for i in range(n):
                    yield self._wait(ar, i)
            finally:
                self._tasks.clear()

        return results()

    def submit(self, fn, /, *args, **kwargs):
        import functools

        ar = self._submit(functools.partial(fn, **kwargs) if kwargs else fn, [args], True)
        return _PoolFuture(self, ar)

    def shutdown(self, wait=True, *, cancel_futures=False):
        if cancel_futures:
            self._tasks.clear()
        self._closed = True
        if wait:
            broken = any(not p._p.alive and p._p.exitcode for p in self._procs)
            for p in self._procs:
                if broken and p._p.alive:
                    kern()._terminate(p._p, -15)
                p.join()

    def __exit__(self, *a):
        self.shutdown()


class _SharedBox(_Shared):
    def __init__(self, v):
        self.v = v


class SharedMemory:
    """A named segment. A process that ends without unlinking leaves it to its resource tracker, which unlinks it."""

    def __init__(self, name=None, create=False, size=0, track=True):
        k = kern()
        reg = k.__dict__.setdefault("_shm", {})
        t = cur()
        if k and t:
            k.yield_("shm.open")
        for n, (_, owner) in list(reg.items()):
            if owner is not None and not owner.alive:
                del reg[n]
        if create:
            if name is None:
                k._shmn = getattr(k, "_shmn", 0) + 1
                name = f"psm_{k._shmn}"
            if name in reg:
                raise FileExistsError(17, "File exists", "/" + name)
            reg[name] = (bytearray(size), t.proc if t else None)
        elif name not in reg:
            raise FileNotFoundError(2, "No such file or directory", "/" + str(name))
        self._name = name
        self._mem = reg[name][0]
        self._open = True
        self.name = name
        self.size = len(self._mem)

    def __deepcopy__(self, memo):
        """A forked process has its own mapping of the same memory."""
        o = object.__new__(type(self))
        o.__dict__.update(self.__dict__)
        return o

    @property
    def buf(self):
        return memoryview(self._mem) if self._open else None

    def close(self):
        self._open = False

    def unlink(self):
        reg = kern().__dict__.setdefault("_shm", {})
        if self._name not in reg:
            raise FileNotFoundError(2, "No such file or directory", "/" + self._name)
        del reg[self._name]

    def __reduce__(self):
        return (SharedMemory, (self._name,))
