"""Batch runner: one forked child per simulated run, minimiser, replay files, evidence."""
import json
import os
import random
import select
import shutil
import signal
import struct
import sys
import time
import warnings
import traceback

warnings.filterwarnings("ignore")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
WALL = 90.0


class Scenario:
    def __init__(self, name, fn, weight=1, knobs=None, liveness=True, wall=WALL):
        self.name, self.fn, self.weight, self.extra, self.liveness, self.wall = name, fn, weight, knobs or {}, liveness, wall


def make_knobs(seed, sc):
    """Swarm configuration of one run."""
    r = random.Random(f"{seed}/{sc.name}/knobs")
    kn = dict(
        p_switch=r.choice([0.02, 0.1, 0.1, 0.3, 0.6]),
        p_time=r.choice([0.0, 0.002, 0.01, 0.05]),
        line_gap=r.choice([0, 0, 0, 20, 100, 500]),
        seg=r.choice([0, 0, 1, 2]),
        delay=r.choice([0.0005, 0.0005, 0.02, 0.3]),
        cpu_count=r.choice([1, 2, 4, 8, 16]),
        p_feeder_lag=r.choice([0.0, 0.05, 0.3]),
        max_time=100_000.0,
        max_steps=400_000,
        max_lines=2_000_000,
    )
    kn["small"] = random.Random(f"{seed}/{sc.name}/small").choice([0, 0, 1, 2, 3])
    r2 = random.Random(f"{seed}/{sc.name}/pipe")
    kn["mp_cap"], kn["mp_big"] = r2.choice([0, 0, 1, 2, 5]), r2.choice([0, 1])
    r3 = random.Random(f"{seed}/{sc.name}/seq")
    kn["seq"] = {"dataset": r3.choice([1, 1, 1, 9, 98, 1999]), "file": r3.choice([1, 1, 8, 97, 250, 9998])}
    for k, v in sc.extra.items():
        kn[k] = r.choice(v) if isinstance(v, list) else v
    return kn


def _child(mod, sc, seed, knobs, replay, trace_cap, wfd, slot):
    """Body of the forked child: one simulation."""
    res = {}
    root = os.path.join(SCRATCH, f"vs{os.getpid():07d}") + "/"
    try:
        from . import boot, fs, kernel as K, net, world

        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        fs.ROOT = root
        os.chdir(root)
        cfg = dict(knobs)
        cfg["trace_cap"] = trace_cap
        boot.shrink(cfg.get("small"))
        k = K.Kernel(seed, replay, cfg)
        k.net = net.Network(k, dict(seg=cfg["seg"], delay=cfg["delay"]))
        w = world.World(k, root)
        t0 = time.time()
        outcome, box = k.run(lambda: sc.fn(w), wall=sc.wall)
        res.update(outcome=outcome, info=(k.outcome_info or "")[-6000:], steps=k.steps, switches=k.switches, h=k.h,
                   sim=k.now - k.start_time, stats=k.stats, probes=k.probes, lines=k.lines, wall=time.time() - t0)
        if outcome == "done":
            e = box.get("exc")
            if e is None:
                r = box.get("result") or {}
                res["result"] = r
            elif isinstance(e, world.Violation):
                res["cls"], res["msg"] = e.cls, e.msg
                res["tb"] = box["tb"][-3000:]
            elif isinstance(e, K.HarnessError):
                res["outcome"] = "harness"
                res["info"] = box["tb"]
            else:
                res["cls"] = f"exception:{type(e).__name__}"
                res["msg"] = f"{e}"[:1500]
                res["tb"] = box["tb"][-5000:]
        elif outcome in ("deadlock", "timelimit", "steplimit"):
            if sc.liveness:
                res["cls"] = "no-progress"
                res["msg"] = f"{outcome}: {res['info']}"
        dbg = [f"{h.proc.name}: {type(h.exc).__name__}: {h.exc}" for h in w.handles if h.exc is not None]
        res["died"] = dbg[:5]
        if "cls" in res or replay is not None:
            res["rec"] = {s: {str(i): v for i, v in d.items()} for s, d in k.choices.rec.items()}
            res["trace"] = k.trace[-trace_cap:] if trace_cap else []
        res["notes"] = w.notes[:60]
    except BaseException:  # noqa: BLE001
        res["outcome"] = "harness"
        res["info"] = traceback.format_exc()
    try:
        data = json.dumps(res, default=str).encode()
        os.chdir("/")
        shutil.rmtree(root, ignore_errors=True)
        mv = memoryview(struct.pack("!I", len(data)) + data)
        while mv:
            mv = mv[os.write(wfd, mv):]
    finally:
        os._exit(0)


class Pool:
    def __init__(self, mod, slots=8):
        self.mod = mod
        self.slots = slots
        self.live = {}

    def start(self, tag, sc, seed, knobs, replay=None, trace_cap=0):
        r, wfd = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 0)
            if not os.environ.get("VERIF_DEBUG"):
                os.dup2(dn, 1)
                os.dup2(dn, 2)
            _child(self.mod, sc, seed, knobs, replay, trace_cap, wfd, 0)
        os.close(wfd)
        self.live[r] = [pid, tag, time.time(), b"", sc]

    def poll(self, timeout=1.0):
        """Results that arrived: list of (tag, result)."""
        out = []
        if not self.live:
            return out
        rd, _, _ = select.select(list(self.live), [], [], timeout)
        for fd in rd:
            ent = self.live[fd]
            b = os.read(fd, 1 << 20)
            if b:
                ent[3] += b
                continue
            out.append((ent[1], self._finish(fd)))
        now = time.time()
        for fd, ent in list(self.live.items()):
            if now - ent[2] > ent[4].wall + 20:
                os.kill(ent[0], signal.SIGKILL)
                out.append((ent[1], self._finish(fd)))
        return out

    def _finish(self, fd):
        pid, tag, t0, buf, sc = self.live.pop(fd)
        os.close(fd)
        _, st = os.waitpid(pid, 0)
        shutil.rmtree(os.path.join(SCRATCH, f"vs{pid:07d}"), ignore_errors=True)
        if len(buf) >= 4 and len(buf) - 4 == struct.unpack("!I", buf[:4])[0]:
            return json.loads(buf[4:])
        return {"outcome": "harness", "info": f"child died with status {st}, {len(buf)} bytes", "crash": True}

    def kill_all(self):
        for fd in list(self.live):
            try:
                os.kill(self.live[fd][0], signal.SIGKILL)
            except OSError:
                pass
            self._finish(fd)

    def run_many(self, jobs, on_result, stop=lambda: False):
        """jobs: iterator of (tag, sc, seed, knobs, replay, trace_cap)."""
        jobs = iter(jobs)
        more = True
        while more or self.live:
            while more and len(self.live) < self.slots and not stop():
                try:
                    self.start(*next(jobs))
                except StopIteration:
                    more = False
            if stop():
                more = False
            for tag, res in self.poll():
                on_result(tag, res)


def plan_seed(mod, base, i):
    """Scenario and seed number of the i-th run."""
    scs = mod.SCENARIOS
    tot = sum(s.weight for s in scs)
    # fixed rotation, so that every scenario gets its share even of a small batch
    order = getattr(mod, "_order", None)
    if order is None:
        order = []
        acc = [0.0] * len(scs)
        for _ in range(tot):
            for j, s in enumerate(scs):
                acc[j] += s.weight / tot
            j = max(range(len(scs)), key=lambda x: acc[x])
            acc[j] -= 1
            order.append(j)
        mod._order = order
    return scs[order[i % tot]], base * 1_000_000 + i


def signature(res):
    return res.get("cls")


class Minimiser:
    def __init__(self, pool, sc, seed, knobs, rec, cls, budget=60.0):
        self.pool, self.sc, self.seed, self.knobs, self.rec, self.cls = pool, sc, seed, dict(knobs), rec, cls
        self.deadline = time.time() + budget
        self.runs = 0

    def test_many(self, cands):
        """Index of the first candidate (in order) that still fails the same way, or None."""
        for base in range(0, len(cands), self.pool.slots):
            grp = cands[base:base + self.pool.slots]
            res = {}
            self.pool.run_many([(i, self.sc, self.seed, kn, rec, 0) for i, (kn, rec) in enumerate(grp)],
                               lambda tag, r: res.__setitem__(tag, r))
            self.runs += len(grp)
            for i in range(len(grp)):
                if signature(res[i]) == self.cls:
                    return base + i
            if time.time() > self.deadline:
                return None
        return None

    @staticmethod
    def items(rec):
        return [(s, p) for s in sorted(rec) for p in sorted(rec[s], key=int)]

    @staticmethod
    def without(rec, drop):
        drop = set(drop)
        out = {}
        for s, d in rec.items():
            n = {p: v for p, v in d.items() if (s, p) not in drop}
            if n:
                out[s] = n
        return out

    def over(self):
        return time.time() > self.deadline

    def run(self):
        t = time.time()
        if self.test_many([(self.knobs, self.rec)]) is None:
            return None
        if time.time() - t > 20:  # e.g. a run that makes no progress: every attempt takes that long
            return self.knobs, self.rec
        # simpler knobs first
        for key, val in (("line_gap", 0), ("p_time", 0.0), ("seg", 0), ("p_feeder_lag", 0.0), ("delay", 0.0005), ("cpu_count", 8)):
            if self.knobs.get(key) != val and not self.over():
                kn = dict(self.knobs)
                kn[key] = val
                if self.test_many([(kn, self.rec)]) is not None:
                    self.knobs = kn
        for s in sorted(self.rec):
            if self.over():
                break
            r = {k: v for k, v in self.rec.items() if k != s}
            if self.test_many([(self.knobs, r)]) is not None:
                self.rec = r
        # truncate each stream
        for s in sorted(self.rec):
            while not self.over():
                ps = sorted(self.rec.get(s, {}), key=int)
                if len(ps) < 2:
                    break
                cuts = sorted({int(len(ps) * f / 8) for f in range(0, 8)})
                cands = []
                for c in cuts:
                    r = {k: dict(v) for k, v in self.rec.items()}
                    r[s] = {p: r[s][p] for p in ps[:c]}
                    if not r[s]:
                        del r[s]
                    cands.append((self.knobs, r))
                i = self.test_many(cands)
                if i is None:
                    break
                self.rec = cands[i][1]
        # ddmin over all decisions
        n = 8
        while not self.over():
            its = self.items(self.rec)
            if not its:
                break
            size = max(1, len(its) // n)
            cands = []
            for a in range(0, len(its), size):
                cands.append((self.knobs, self.without(self.rec, its[a:a + size])))
            i = self.test_many(cands)
            if i is not None:
                self.rec = cands[i][1]
                n = max(8, n - 1)
                continue
            if size == 1:
                break
            n = min(len(its), n * 2)
        # smaller values
        for s, p in self.items(self.rec):
            if self.over():
                break
            v = self.rec[s][p]
            for nv in (1, v // 2):
                if 0 < nv < v:
                    r = {k: dict(x) for k, x in self.rec.items()}
                    r[s][p] = nv
                    if self.test_many([(self.knobs, r)]) is not None:
                        self.rec = r
                        break
        return self.knobs, self.rec
