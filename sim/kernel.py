"""Deterministic scheduler: parked OS threads, one baton, virtual clock, processes that can be killed at any point."""
import gc
import heapq
import os
import random
import sys
import threading as _th
import traceback
import zlib

import numpy as np

from .choices import Choices

_tls = _th.local()
KERNEL = None  # the kernel of the running simulation, None outside


class SimLimit(BaseException):
    """Raised in the driver when the run exceeded its step budget or deadlocked."""


class ThreadExit(BaseException):
    pass


class HarnessError(Exception):
    pass


def current():
    """The simulated thread executing, or None outside a simulation."""
    return getattr(_tls, "t", None)


class SimProcess:
    def __deepcopy__(self, memo):
        return self

    def __init__(self, k, name, parent=None):
        self.k = k
        self.name = name
        self.pid = k.next_pid()
        self.parent = parent
        self.alive = True
        self.exitcode = None
        self.threads = []
        self.main = None
        self.daemon = False
        self.stalled_until = 0.0
        self.on_kill = []  # callbacks at crash/exit (close handles)
        self.children = []
        self.worker_info = None
        self.fds = set()  # open ends of queues
        self.mpqs = []  # queues this process has written to
        self.orphan = False  # survives when its parent is killed (pool and loader workers of libraries notice it)
        self.joins = False  # the process ends as Python programs do: child processes and queues are joined
        self.drawn = 0
        self.cpu_count = k.cpu_count
        if parent is not None:
            if k.current_proc is parent:
                k.save_rng(parent)
            self.rng_state = parent.rng_state
            parent.children.append(self)
        else:
            seed = zlib.crc32(f"{k.choices.seed}/{name}/{self.pid}".encode())
            r = random.Random(seed)
            self.rng_state = (r.getstate(), np.random.RandomState(seed).get_state())


class SimThread:
    def __deepcopy__(self, memo):
        return self

    def __init__(self, k, proc, fn, name, daemon):
        self.k = k
        self.proc = proc
        self.fn = fn
        self.name = name
        self.daemon = daemon
        self.id = k.next_tid()
        self.sem = _th.Semaphore(0)
        self.state = "ready"  # ready | blocked | done | dead
        self.pred = None
        self.deadline = None
        self.timed_out = False
        self.exc = None
        self.result = None
        self.last_run = 0
        self.tag = "start"
        self.nopreempt = 0
        self.os_thread = None

    def start(self):
        self.k.threads.append(self)
        self.proc.threads.append(self)
        self.os_thread = _th.Thread(target=self._body, daemon=True, name=f"sim-{self.id}")
        self.os_thread.start()

    def _body(self):
        _tls.t = self
        self.sem.acquire()
        k = self.k
        try:
            self.result = self.fn()
        except ThreadExit:
            pass
        except BaseException as e:  # noqa: BLE001
            self.exc = e
            self.exc_tb = traceback.format_exc()
        self.fn = None
        try:
            if self is self.proc.main:
                k._process_main_finished(self)
        except BaseException as e:  # noqa: BLE001
            k.internal_error(e)
        self.state = "done"
        try:
            k._dispatch(None)
        except BaseException as e:  # noqa: BLE001
            k.internal_error(e)


class Kernel:
    TICK = 2e-5

    def __deepcopy__(self, memo):
        return self

    def __init__(self, seed, replay=None, cfg=None):
        cfg = cfg or {}
        self.choices = Choices(seed, replay)
        self.cfg = cfg
        self.now = 1_000_000.0
        self.start_time = self.now
        self.max_now = self.now + cfg.get("max_time", 100_000.0)
        self.max_steps = cfg.get("max_steps", 400_000)
        self.max_lines = cfg.get("max_lines", 2_000_000)
        self.steps = 0
        self.switches = 0
        self.threads = []
        self.procs = []
        self.timers = []
        self._seq = 0
        self._tid = 0
        self._pid = 100
        self.stats = {}
        self.probes = {}
        self.h = 0
        self.trace = []
        self.trace_cap = cfg.get("trace_cap", 20000)
        self.cpu_count = cfg.get("cpu_count", 8)
        self.p_switch = cfg.get("p_switch", 0.2)
        self.p_time = cfg.get("p_time", 0.01)
        self.line_gap = cfg.get("line_gap", 0)  # mean lines between forced preemptions, 0 = off
        self.lines = 0
        self._line0 = 0
        # total time that may pass "for free" while threads are runnable (a slow machine)
        self.early_budget = cfg.get("early_budget", 4.0)
        self._gap = self._new_gap() if self.line_gap else -1
        self.outcome = None
        self.outcome_info = ""
        self.main_sem = _th.Semaphore(0)
        self.current_proc = None
        self.cur = None
        self.finished = False
        self._internal = None
        self.fs = None
        self.net = None
        self.log_lines = []
        self.uuid_n = 0

    # -- small helpers ---------------------------------------------------------------------------------------------
    def next_tid(self):
        self._tid += 1
        return self._tid

    def next_pid(self):
        self._pid += 1
        return self._pid

    def count(self, kind, n=1):
        self.stats[kind] = self.stats.get(kind, 0) + n

    def probe(self, kind, n=1):
        self.probes[kind] = self.probes.get(kind, 0) + n

    def event(self, tag):
        s = f"{self.cur.id if self.cur else 0}:{tag}"
        self.h = zlib.crc32(s.encode(), self.h)
        if len(self.trace) < self.trace_cap:
            self.trace.append((self.steps, round(self.now - self.start_time, 6), s))

    def choose(self, stream, n):
        return self.choices.choose(stream, n)

    def rare(self, stream, prob, n=2):
        return self.choices.rare(stream, prob, n)

    def call_at(self, when, fn):
        self._seq += 1
        ent = [when, self._seq, fn]
        heapq.heappush(self.timers, ent)
        return ent

    def call_later(self, delay, fn):
        return self.call_at(self.now + delay, fn)

    def internal_error(self, e):
        if self._internal is None:
            self._internal = "".join(traceback.format_exception(e))
        self._finish("harness", self._internal)

    def save_rng(self, proc):
        proc.rng_state = (random.getstate(), np.random.get_state())

    def _load_rng(self, proc):
        random.setstate(proc.rng_state[0])
        np.random.set_state(proc.rng_state[1])

    # -- processes -------------------------------------------------------------------------------------------------
    def spawn_process(self, name, fn, parent=None, daemon=False, start=True):
        p = SimProcess(self, name, parent)
        p.daemon = daemon
        self.procs.append(p)
        t = SimThread(self, p, fn, name, False)
        p.main = t
        if start:
            t.start()
        self.event(f"spawn {name}")
        return p

    def spawn_thread(self, fn, name="thread", daemon=True, proc=None):
        t = SimThread(self, proc or self.cur.proc, fn, name, daemon)
        return t

    def _process_main_finished(self, t):
        p = t.proc
        others = [x for x in p.threads if x is not t and not x.daemon]
        if any(x.state in ("ready", "blocked") for x in others):
            self.wait_until(lambda: all(x.state in ("done", "dead") for x in others), None, "proc-exit-join")
        if p.alive and p.joins:
            for c in p.children:
                if c.alive and c.daemon:
                    self._terminate(c, -15)
            kids = [c for c in p.children if c.joins]
            if any(c.alive for c in kids):
                self.wait_until(lambda: not any(c.alive for c in kids), None, "exit-join-children")
        if p.alive and p.mpqs:
            self.wait_until(lambda: all(q._flushed(p) for q in p.mpqs), None, "exit-join-queue")
        if not p.alive:
            return
        code = 0
        if t.exc is not None:
            code = t.exc.code if isinstance(t.exc, SystemExit) and isinstance(t.exc.code, int) else 1
            if isinstance(t.exc, SystemExit) and t.exc.code is None:
                code = 0
        self._terminate(p, code, keep=t)

    def _terminate(self, p, code, keep=None):
        p.alive = False
        p.exitcode = code
        for th in p.threads:
            if th is not keep and th.state in ("ready", "blocked"):
                th.state = "dead"
        cbs, p.on_kill = p.on_kill, []
        for cb in cbs:
            cb(p)
        for c in p.children:
            if c.alive and c.daemon and not (c.orphan and code < 0):
                self._terminate(c, -15)

    def kill(self, p, code=-9):
        """SIGKILL: no thread of the process ever runs again; nothing is unwound or flushed."""
        if not p.alive:
            return
        self.event(f"kill {p.name}")
        self.count("crash:" + p.name.split("#")[0])
        self._terminate(p, code)
        if self.cur is not None and self.cur.state == "dead":
            self._dispatch(None)
            _park()

    # -- scheduling ------------------------------------------------------------------------------------------------
    def _runnable(self, t):
        if t.proc.stalled_until > self.now:
            return False
        if t.state == "ready":
            return True
        if t.state == "blocked":
            if t.pred is not None and t.pred():
                t.timed_out = False
                return True
            if t.deadline is not None and t.deadline <= self.now:
                t.timed_out = True
                return True
        return False

    def _fire_due(self):
        while self.timers and self.timers[0][0] <= self.now:
            ent = heapq.heappop(self.timers)
            if ent[2] is not None:
                ent[2]()

    def _next_time(self):
        best = None
        while self.timers and self.timers[0][2] is None:
            heapq.heappop(self.timers)
        if self.timers:
            best = self.timers[0][0]
        for t in self.threads:
            if t.state == "blocked" and t.deadline is not None:
                w = max(t.deadline, t.proc.stalled_until)
                if best is None or w < best:
                    best = w
            if t.state in ("ready", "blocked") and t.proc.stalled_until > self.now:
                if best is None or t.proc.stalled_until < best:
                    best = t.proc.stalled_until
        return best

    def _pick(self, me, want_switch):
        """Select the next thread to run. me = current thread if it could continue."""
        while True:
            self._fire_due()
            if self.finished:
                return None
            cand = [t for t in self.threads if (t.state == "ready" or t.state == "blocked") and self._runnable(t)]
            if cand:
                if me is not None and me in cand:
                    cand.remove(me)
                    cand.sort(key=lambda t: t.last_run)
                    cand.insert(0, me)
                    if want_switch and len(cand) > 1:
                        return cand[1 + self.choose("s", len(cand) - 1)]
                    return me
                cand.sort(key=lambda t: t.last_run)
                return cand[self.choose("s", len(cand))]
            nt = self._next_time()
            if nt is None or nt > self.max_now:
                return "deadlock" if nt is None else "timelimit"
            self.now = max(self.now, nt)

    def _finish(self, outcome, info=""):
        if not self.finished:
            self.finished = True
            self.outcome = outcome
            self.outcome_info = info
            self.main_sem.release()
        return None

    def stacks(self):
        frames = sys._current_frames()
        out = []
        for t in self.threads:
            if t.state in ("ready", "blocked") and t.os_thread is not None:
                f = frames.get(t.os_thread.ident)
                st = "".join(traceback.format_stack(f)[-6:]) if f else ""
                out.append(f"-- {t.proc.name}/{t.name} [{t.state} at {t.tag}]\n{st}")
        return "\n".join(out)

    def _dispatch(self, me, want_switch=False):
        """Give the baton to the next thread. Returns when (and if) `me` gets it back."""
        nxt = self._pick(me, want_switch) if not self.finished else None
        if nxt == "deadlock" or nxt == "timelimit":
            self._finish(nxt, self.stacks())
            nxt = None
        if nxt is None:
            if me is not None:
                _park()
            return
        nxt.state = "ready"
        nxt.pred = None
        nxt.last_run = self.steps
        if nxt is not me:
            self.switches += 1
            if nxt.proc is not self.current_proc:
                if self.current_proc is not None:
                    self.save_rng(self.current_proc)
                self._load_rng(nxt.proc)
                self.current_proc = nxt.proc
            self.cur = nxt
            self.event("run " + nxt.tag)
            nxt.sem.release()
            if me is not None:
                me.sem.acquire()
                if me.state == "dead":
                    _park()

    def _step(self, tag):
        self.steps += 1
        self._line0 = self.lines
        self.now += self.TICK
        if self.steps > self.max_steps or self.now > self.max_now:
            self._finish("steplimit", f"steps={self.steps} t={self.now - self.start_time:.1f}\n" + self.stacks())
            _park()
        if self.finished:
            _park()

    def yield_(self, tag=""):
        t = current()
        if t is None or t.nopreempt:
            return
        t.tag = tag
        self._step(tag)
        v = self.choices.rare("y", self.p_switch + self.p_time, 2)
        if v:
            w = self.choices.rare("y", self.p_time / (self.p_switch + self.p_time), 2)
            if w:
                nt = self._next_time()
                if nt is not None and nt <= self.max_now and nt - self.now <= self.early_budget:
                    self.early_budget -= max(0.0, nt - self.now)
                    self.now = max(self.now, nt)
                    self.count("timer-early")
            self._dispatch(t, True)
        elif self.timers and self.timers[0][0] <= self.now:
            self._dispatch(t, False)

    def wait_until(self, pred, timeout=None, tag="wait"):
        """Block the current simulated thread; False on timeout."""
        t = current()
        if t is None:
            raise HarnessError("wait_until outside simulation")
        if pred is not None:
            self.yield_(tag)
            if pred():
                return True
        t.tag = tag
        self._step(tag)
        t.state = "blocked"
        t.pred = pred
        t.timed_out = False
        t.deadline = None if timeout is None else self.now + max(0.0, timeout)
        self._dispatch(t, True)
        t.deadline = None
        return not t.timed_out

    def sleep(self, dt, tag="sleep"):
        self.wait_until(None, dt, tag)

    # -- line preemption -------------------------------------------------------------------------------------------
    def _new_gap(self):
        # geometric-ish; recorded, so replay is exact. 0 (the default in minimised replays) means "no more preemption"
        g = self.choices.choose("g", 2 * self.line_gap)
        return g if g else -1

    def on_line(self):
        self.lines += 1
        if self.lines - self._line0 > self.max_lines:  # no scheduling point for a very long stretch: an endless loop
            self._finish("steplimit", f"lines={self.lines}\n" + self.stacks())
            _park()
        if self._gap > 0:
            self._gap -= 1
            if self._gap == 0:
                t = current()
                if t is not None and not t.nopreempt:
                    self._gap = self._new_gap()
                    t.tag = "line"
                    self._step("line")
                    self.count("preempt-line")
                    self._dispatch(t, True)
                else:
                    self._gap = 1

    # -- run -------------------------------------------------------------------------------------------------------
    def run(self, main, wall=60.0):
        """Run `main` as the driver process until it returns. Returns (outcome, result)."""
        global KERNEL
        KERNEL = self
        saved = (random.getstate(), np.random.get_state())
        gc_was = gc.isenabled()
        gc.disable()
        box = {}

        def body():
            try:
                box["result"] = main()
            except ThreadExit:
                raise
            except BaseException as e:  # noqa: BLE001
                box["exc"] = e
                box["tb"] = traceback.format_exc()
            self._finish("done")
            _park()

        drv = self.spawn_process("driver", body)
        self.driver = drv
        self.cur = drv.main
        self.current_proc = drv
        self._load_rng(drv)
        drv.main.sem.release()
        ok = self.main_sem.acquire(timeout=wall)
        if not ok:
            self.outcome = "wall"
            self.outcome_info = self.stacks()
            self.finished = True
        KERNEL = None
        for p in self.procs:
            cbs, p.on_kill = p.on_kill, []
            for cb in cbs:
                try:
                    cb(p)
                except Exception:  # noqa: BLE001
                    pass
        random.setstate(saved[0])
        np.random.set_state(saved[1])
        if gc_was:
            gc.enable()
        return self.outcome, box


def _park():
    """Never return: the thread belongs to a dead process or a finished run."""
    t = current()
    if t is not None and t.state not in ("done",):
        t.state = "dead"
    s = _th.Semaphore(0)
    while True:
        s.acquire()


class no_preempt:
    def __enter__(self):
        self.t = current()
        if self.t:
            self.t.nopreempt += 1

    def __exit__(self, *a):
        if self.t:
            self.t.nopreempt -= 1


# -- sys.monitoring LINE preemption inside the code under test -------------------------------------------------------
_TOOL = 4
_mon_on = False
QUIET = ()  # parts of file names whose lines are no scheduling points (long sequential computations)


def install_monitor(prefix):
    global _mon_on
    if _mon_on:
        return
    m = sys.monitoring
    m.use_tool_id(_TOOL, "verif-sim")
    ev = m.events

    def line(code, ln):
        k = KERNEL
        if not code.co_filename.startswith(prefix) or code.co_name == "<module>" or any(q in code.co_filename for q in QUIET):
            return m.DISABLE
        if k is None:
            return None
        if getattr(_tls, "t", None) is not None:
            k.on_line()
        return None

    m.register_callback(_TOOL, ev.LINE, line)
    m.set_events(_TOOL, ev.LINE)
    _mon_on = True


def restart_events():
    if _mon_on:
        sys.monitoring.restart_events()


# -- planned faults ----------------------------------------------------------------------------------------------------
class Plan:
    """A fault that strikes at the n-th matching operation of a matching process."""

    def __deepcopy__(self, memo):
        return self

    def __init__(self, match, nth, action, name, times=1):
        self.match, self.left, self.action, self.name, self.times = match, nth, action, name, times
        self.fired = 0


def at_op(kind, detail=""):
    """Called by every seam right before an operation takes effect."""
    t = current()
    if t is None:
        return None
    k = t.k
    if not t.proc.alive:
        _park()
    hook = k.cfg.get("op_hook")
    if hook is not None:
        hook(t.proc, kind, detail)
    for p in k.__dict__.get("plans", ()):
        if p.times > 0 and p.match(t.proc, kind, detail):
            if p.left > 0:
                p.left -= 1
                continue
            p.times -= 1
            p.fired += 1
            k.count("fault:" + p.name)
            k.event(f"fault {p.name} at {kind}")
            r = p.action(k, t.proc, kind, detail)
            if r is not None:
                return r
    return None


def add_plan(k, *a, **kw):
    p = Plan(*a, **kw)
    k.__dict__.setdefault("plans", []).append(p)
    return p
