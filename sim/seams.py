"""Import-time substitution: modules of the code under test see simulated threading, time, processes, network, disk."""
import builtins
import importlib
import logging
import os
import queue as _queue
import sys
import types
import uuid as _uuid

from . import duck, fs, kernel as K, net, sync

_PREFIX = "mixtera"


class Proxy(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self.__dict__["_real"], n)

    def __deepcopy__(self, memo):
        return self


class _SwMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, tuple(c for c in (cls._sim, cls._realc) if isinstance(c, type)))


def _sw(sim, real):
    """Factory: simulated object inside a simulation, the real one outside. A class, so that annotations work."""

    def new(cls, *a, **kw):
        if K.current() is not None:
            return sim(*a, **kw)
        return real(*a, **kw)

    return _SwMeta(getattr(real, "__name__", "f"), (), {"__new__": new, "_sim": sim, "_realc": real})


def _build():
    import asyncio
    import concurrent.futures as cf
    import multiprocessing as mp
    import threading
    import time

    import duckdb

    P = {}
    k = lambda: K.KERNEL  # noqa: E731
    insim = lambda: K.current() is not None  # noqa: E731

    tproxy = Proxy(threading, dict(
        Thread=sync.Thread, Lock=_sw(sync.Lock, threading.Lock), RLock=_sw(sync.RLock, threading.RLock),
        Event=_sw(sync.Event, threading.Event), Condition=_sw(sync.Condition, threading.Condition),
        Semaphore=_sw(sync.Semaphore, threading.Semaphore),
        BoundedSemaphore=_sw(sync.BoundedSemaphore, threading.BoundedSemaphore),
        Barrier=_sw(sync.Barrier, threading.Barrier),
        current_thread=_sw(sync.current_thread, threading.current_thread),
        get_ident=lambda: K.current().id if insim() else threading.get_ident(),
        get_native_id=lambda: K.current().id if insim() else threading.get_native_id(),
    ))
    P["threading"] = tproxy

    # queue: the pure-Python module rebuilt on simulated threading
    q = types.ModuleType("queue")
    src = open(_queue.__file__, encoding="utf-8").read()
    tsim = Proxy(threading, dict(Lock=sync.Lock, Condition=sync.Condition, Semaphore=sync.Semaphore, RLock=sync.RLock))
    timesim = Proxy(time, dict(monotonic=lambda: k().now))
    ns = q.__dict__
    real_imp = builtins.__import__

    def imp(name, g=None, l=None, fromlist=(), level=0):
        if name == "threading":
            return tsim
        if name == "time":
            return timesim
        if name == "_queue":
            raise ImportError
        return real_imp(name, g, l, fromlist, level)

    ns["__builtins__"] = dict(vars(builtins), __import__=imp)
    exec(compile(src, "simqueue", "exec"), ns)
    over = {n: _sw(ns[n], getattr(_queue, n)) for n in ("Queue", "LifoQueue", "PriorityQueue", "SimpleQueue")}
    P["queue"] = Proxy(_queue, over | dict(Empty=_queue.Empty, Full=_queue.Full))
    ns["Empty"], ns["Full"] = _queue.Empty, _queue.Full

    class _Time:
        pass

    def vsleep(s):
        if insim():
            k().sleep(max(0.0, s), "time.sleep")
        else:
            time.sleep(s)

    now = lambda: k().now if insim() else time.time()  # noqa: E731
    mono = lambda: k().now if insim() else time.monotonic()  # noqa: E731
    P["time"] = Proxy(time, dict(sleep=vsleep, time=now, monotonic=mono,
                                 perf_counter=lambda: k().now if insim() else time.perf_counter(),
                                 time_ns=lambda: int(now() * 1e9), monotonic_ns=lambda: int(mono() * 1e9),
                                 perf_counter_ns=lambda: int(mono() * 1e9)))

    P["os"] = Proxy(os, dict(
        getpid=lambda: K.current().proc.pid if insim() else os.getpid(),
        getppid=lambda: _ppid() if insim() else os.getppid(),
        cpu_count=lambda: K.current().proc.cpu_count if insim() else os.cpu_count(),
    ))

    def _ppid():
        p = K.current().proc.parent
        k().yield_("getppid")
        return p.pid if p is not None and p.alive else 1

    over = dict(
        Lock=_sw(sync.MpLock, mp.Lock), RLock=_sw(sync.MpRLock, mp.RLock), Event=_sw(sync.MpEvent, mp.Event),
        Semaphore=_sw(sync.MpSemaphore, mp.Semaphore), Value=_sw(sync.MpValue, mp.Value),
        Array=_sw(sync.MpArray, mp.Array), Queue=_sw(sync.MpQueue, mp.Queue), SimpleQueue=_sw(sync.MpQueue, mp.SimpleQueue),
        Process=sync.Process, Pool=_sw(sync.Pool, mp.Pool),
        current_process=_sw(sync.current_process, mp.current_process),
        cpu_count=lambda: K.current().proc.cpu_count if insim() else mp.cpu_count(),
        get_context=lambda m=None: P["multiprocessing"] if insim() else mp.get_context(m),
    )
    P["multiprocessing"] = Proxy(mp, over)
    from multiprocessing import shared_memory

    P["multiprocessing.shared_memory"] = Proxy(
        shared_memory, dict(SharedMemory=_sw(sync.SharedMemory, shared_memory.SharedMemory)))
    P["multiprocessing"].__dict__["shared_memory"] = P["multiprocessing.shared_memory"]
    P["multiprocessing.pool"] = Proxy(importlib.import_module("multiprocessing.pool"),
                                      dict(Pool=_sw(sync.Pool, mp.Pool), ThreadPool=ThreadPool))

    P["uuid"] = Proxy(_uuid, dict(uuid4=_sw(_suuid, _uuid.uuid4), uuid1=_sw(_suuid, _uuid.uuid1)))
    P["asyncio"] = Proxy(asyncio, dict(
        run=lambda main, **kw: net.run(main) if insim() else asyncio.run(main, **kw),
        new_event_loop=lambda: net.SimLoop() if insim() else asyncio.new_event_loop(),
    ))
    P["duckdb"] = Proxy(duckdb, dict(connect=duck.connect))
    P["concurrent.futures"] = Proxy(cf, dict(ThreadPoolExecutor=_sw(ThreadPoolExecutor, cf.ThreadPoolExecutor),
                                             ProcessPoolExecutor=_sw(sync.ProcessPoolExecutor, cf.ProcessPoolExecutor)))
    for sub, n in (("thread", "ThreadPoolExecutor"), ("process", "ProcessPoolExecutor")):
        real = importlib.import_module("concurrent.futures." + sub)
        P["concurrent.futures." + sub] = Proxy(real, {n: P["concurrent.futures"].__dict__[n]})
    import tqdm

    P["tqdm"] = Proxy(tqdm, dict(tqdm=lambda it=None, *a, **kw: it if it is not None else _NoBar()))
    import xopen

    P["xopen"] = Proxy(xopen, dict(xopen=_xopen(xopen.xopen)))
    import random as _random  # noqa: F401
    import torch.utils.data as tud

    real_info = tud.get_worker_info
    # datasets asks torch itself
    tud.get_worker_info = lambda: K.current().proc.worker_info if insim() else real_info()
    P["torch.utils.data"] = Proxy(tud, dict(get_worker_info=tud.get_worker_info))
    import transformers

    P["transformers"] = Proxy(transformers, dict(AutoTokenizer=Tok))
    return P


class _NoBar:
    def update(self, *a):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def _suuid(*a):
    k = K.KERNEL
    k.uuid_n += 1
    return _uuid.UUID(int=(0x51A0000000000000 << 64) + k.uuid_n * 7919)


def _xopen(real):
    def f(filename, mode="r", **kw):
        if K.current() is not None:
            kw["threads"] = 0
        return real(filename, mode, **kw)

    return f


class _Future:
    def __init__(self):
        self._d = False
        self._r = self._e = None

    def done(self):
        return self._d

    def result(self, timeout=None):
        if not K.KERNEL.wait_until(lambda: self._d, timeout, "future"):
            raise TimeoutError
        if self._e:
            raise self._e
        return self._r

    def exception(self, timeout=None):
        K.KERNEL.wait_until(lambda: self._d, timeout, "future")
        return self._e

    def cancel(self):
        return False


class ThreadPoolExecutor:
    def __init__(self, max_workers=None, *a, **kw):
        self._ths = []

    def submit(self, fn, *a, **kw):
        fu = _Future()

        def body():
            try:
                fu._r = fn(*a, **kw)
            except Exception as e:  # noqa: BLE001
                fu._e = e
            fu._d = True

        th = sync.Thread(target=body, daemon=True)
        th.start()
        self._ths.append(th)
        return fu

    def map(self, fn, *its, timeout=None, chunksize=1):
        fs_ = [self.submit(fn, *a) for a in zip(*its)]
        return (f.result() for f in fs_)

    def shutdown(self, wait=True, **kw):
        if wait:
            for t in self._ths:
                t.join()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


class ThreadPool(ThreadPoolExecutor):
    def imap_unordered(self, fn, it):
        return list(super().map(fn, it))

    def map(self, fn, it, chunksize=None):
        return list(super().map(fn, it))

    def close(self):
        pass

    def join(self):
        self.shutdown()


class Tok:
    """Deterministic tokenizer stub: one token per character; ids are offset code points, so texts stay identifiable."""

    bos_token_id = 1
    eos_token_id = 2
    fail_on = None

    @classmethod
    def from_pretrained(cls, name, **kw):
        return cls()

    def _enc(self, t):
        k = K.KERNEL
        if k is not None and K.current() is not None:
            k.yield_("tokenize")
            bad = k.cfg.get("tok_fail")
            if bad is not None and bad(t):
                k.count("fault:tokenizer-error")
                raise ValueError("simulated tokenizer failure")
        return [3 + ord(c) for c in t]

    def __call__(self, texts, **kw):
        if isinstance(texts, str):
            return {"input_ids": self._enc(texts)}
        return {"input_ids": [self._enc(t) for t in texts]}

    def batch_encode_plus(self, texts, **kw):
        return {"input_ids": [self._enc(t) for t in texts]}

    def encode(self, t, **kw):
        return self._enc(t)

    def __deepcopy__(self, memo):
        return self


_P = None


def install(repo):
    """Hook imports of the code under test; call before importing it."""
    global _P
    if _P is not None:
        return
    logging.disable(logging.CRITICAL)
    from loguru import logger

    logger.remove()
    if os.environ.get("VERIF_LOG"):
        logger.add(sys.stderr, level=os.environ["VERIF_LOG"])
    fs.install()
    _P = _build()
    real = builtins.__import__

    def hook(name, globals=None, locals=None, fromlist=(), level=0):
        mod = real(name, globals, locals, fromlist, level)
        if level == 0 and globals is not None:
            who = globals.get("__name__") or ""
            if who == _PREFIX or who.startswith(_PREFIX + ".") or who.startswith("mixtera_udf"):
                if name in _P:
                    if fromlist:
                        return _P[name]
                    if "." not in name:
                        return _P[name]
                    top = _P.get(name.split(".")[0])
                    return top if top is not None else mod
                root = name.split(".")[0]
                if not fromlist and root in _P:
                    return _P[root]
                if fromlist:
                    subs = {f: _P[f"{name}.{f}"] for f in fromlist if f"{name}.{f}" in _P}
                    if subs:
                        return Proxy(mod, subs)
        return mod

    builtins.__import__ = hook
    import tenacity
    import tenacity.nap

    tenacity.nap.time = _P["time"]
    tenacity.time = _P["time"]
    K.install_monitor(os.path.join(repo, "mixtera"))
