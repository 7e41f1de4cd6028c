"""P19: training runs through the torch and Hugging Face datasets resume exactly where their last checkpoint was taken."""
import collections
import copy
import os
from pathlib import Path

from checks import common as c
from checks import p15
from sim import fs
from sim import kernel as K
from sim import sync
from sim.runner import Scenario
from sim.world import check

PROP = "P19"


class Info:
    """What torch tells the dataset inside of a loader worker."""

    def __init__(self, i, n, dataset):
        self.id, self.num_workers, self.seed, self.dataset = i, n, 0, dataset


class Loader:
    """torch's DataLoader with worker processes: index requests round robin, `prefetch` requests ahead per worker, results in order."""

    def __init__(self, w, dataset, workers, batch, prefetch, note):
        self.w, self.dataset, self.n, self.batch, self.prefetch, self.note = w, dataset, workers, batch, prefetch, note

    def __iter__(self):
        k = self.w.k
        self.res = sync.MpQueue(plain=True)
        self.idx = [sync.MpQueue(plain=True) for _ in range(self.n)]
        self.procs = []
        for i in range(self.n):
            p = sync.Process(target=_worker, args=(self.dataset, i, self.n, self.batch, self.idx[i], self.res, self.note), daemon=True)
            p.start()
            self.procs.append(p)
        self.live = [True] * self.n
        self.sent = self.got = self.seen = 0
        self.where = {}
        self.cache = {}
        self.turn = 0
        for _ in range(self.prefetch * self.n):
            self.request()
        while self.got < self.sent:
            if self.got not in self.cache:
                if self.where[self.got] is None:
                    self.got += 1
                    continue
                k.wait_until(lambda: self.got in self.cache or self.res._avail() or self.lost(), None, "loader")
                if not self.res._avail() and self.got not in self.cache:
                    raise RuntimeError("DataLoader worker exited unexpectedly")
                self.take()
                continue
            kind, data = self.cache.pop(self.got)
            self.got += 1
            if kind == "end":
                continue
            if kind == "error":
                raise data
            self.request()
            yield data
        for q in self.idx:
            q.put(None)
        for p in self.procs:
            p.join()

    def take(self):
        t, i, kind, data = self.res.get()
        self.seen += 1
        self.cache[t] = (kind, data)
        if kind == "end":
            self.live[i] = False
            self.request()

    def request(self):
        for _ in range(self.n):
            i = self.turn
            self.turn = (self.turn + 1) % self.n
            if self.live[i]:
                break
        else:
            return
        self.where[self.sent] = i
        self.idx[i].put(self.sent)
        self.sent += 1

    def settle(self):
        """Wait until the workers answered every request."""
        self.w.k.wait_until(lambda: self.res._avail() or self.seen == self.sent or self.lost(), None, "settle")
        while self.seen < self.sent and not self.lost():
            self.take()

    def lost(self):
        return any(not p._p.alive for p in self.procs)


def _worker(dataset, i, n, batch, requests, results, note):
    from torch.utils.data._utils.fetch import _IterableDatasetFetcher

    K.current().proc.worker_info = Info(i, n, dataset)
    fetcher = None
    over = False
    while True:
        t = requests.get()
        if t is None:
            return
        if over:
            results.put((t, i, "end", None))
            continue
        try:
            if fetcher is None:
                fetcher = _IterableDatasetFetcher(dataset, True, Same(note, i), False)
            data = fetcher.fetch(range(batch))
        except StopIteration:
            over = True
            results.put((t, i, "end", None))
        except Exception as e:  # noqa: BLE001
            over = True
            results.put((t, i, "error", e))
        else:
            results.put((t, i, "data", data))


class Same:
    """Collate function of the loaders: the samples themselves. Records what each worker yielded."""

    def __init__(self, note, i):
        self.note, self.i = note, i

    def __call__(self, batch):
        self.note(self.i, batch)
        return batch


class Note:
    """Lives outside of the simulated processes."""

    def __init__(self, sinks, d, n):
        self.sinks, self.d, self.n = sinks, d, n

    def __deepcopy__(self, memo):
        return self

    def __call__(self, i, batch):
        self.sinks[(self.d, self.n, i)].extend(item(x) for x in batch)


def item(x):
    """A comparable form of what the dataset yields."""
    if isinstance(x, dict):
        return tuple(sorted((kk, item(v)) for kk, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(item(v) for v in x)
    if hasattr(x, "tolist"):
        return item(x.tolist())
    return x


class Run:
    """The training job: several attempts, each of them all nodes; the last one is not interrupted."""

    def __init__(self, w, flavour, D, N, W, batch, kw, every, disk, same_dir, connect, mixture, conds, key_id):
        self.w, self.k = w, w.k
        self.flavour, self.D, self.N, self.W, self.batch, self.kw, self.every, self.disk = flavour, D, N, W, batch, kw, every, disk
        self.same_dir, self.connect, self.mixture, self.conds, self.key_id = same_dir, connect, mixture, conds, key_id
        self.sinks = {(d, n, x): [] for d in range(D) for n in range(N) for x in range(max(W, 1))}
        self.snaps = {}
        self.latest = None  # (directory, step) of the last checkpoint all nodes know to be complete
        self.ckdir = w.mkdir("ckpt")
        self.log = []
        self.step = 0
        self.unfinished = None
        self.ids = {}

    def current_id(self, where=None):
        """What the checkpoint directory names as its checkpoint."""
        try:
            with K.no_preempt(), fs._real["open"](os.path.join(where or self.ckdir, "mixtera.id")) as f:
                return f.read()
        except FileNotFoundError:
            return None

    def dataset(self, d, n, path):
        q = self.w.query("job", self.conds)
        ea = c.exec_args(self.mixture(), self.D, self.N, self.W)
        sa = c.stream_args("job", d, n, 0, **self.kw)
        cl = self.connect()
        if self.flavour == "hf":
            from mixtera.hf import MixteraHFDataset

            ds = MixteraHFDataset(cl, q, ea, sa, checkpoint_path=path)
            from datasets.distributed import split_dataset_by_node

            return split_dataset_by_node(ds, rank=d, world_size=self.D)
        from mixtera.torch import MixteraTorchDataset

        return MixteraTorchDataset(cl, q, ea, sa, checkpoint_path=path, return_key_id=self.key_id)

    def loader(self, ds, d, n, prefetch):
        note = Note(self.sinks, d, n)
        if self.W > 0:
            return Loader(self.w, ds, self.W, self.batch, prefetch, note)
        if self.flavour == "bare":
            return ds
        import torch

        return torch.utils.data.DataLoader(ds, batch_size=self.batch, num_workers=0, collate_fn=Same(note, 0))

    def adopt(self):
        """The directory may already name the checkpoint during which the training crashed."""
        if self.same_dir and self.unfinished is not None and self.current_id() != self.ids.get(self.latest and self.latest[1]):
            self.log.append(f"continues from {self.current_id()!r}")
            self.latest = self.unfinished
            self.ids[self.latest[1]] = self.current_id()
            self.fresh.add(self.latest[1])

    def attempt(self, crash, final):
        """One start of the training on all nodes. Returns whether it reached its end."""
        from mixtera.utils.checkpoint import handle_mixtera_checkpoint

        w, k = self.w, self.k
        self.unfinished = None
        start = self.latest
        self.fresh = set()
        path = Path(start[0]) if start else None
        if start:
            for key, s in self.sinks.items():
                s[:] = self.snaps[start[1]][key]
        else:
            for s in self.sinks.values():
                s.clear()
        step0 = start[1] if start else 0
        prefetch = 1 + w.ch(2)
        ready = set()
        at = collections.Counter()  # barrier -> nodes which arrived
        over = set()
        dead = []

        def barrier(name, me):
            at[name] += 1
            k.wait_until(lambda: at[name] == self.D * self.N or dead, None, "barrier")

        def body(d, n):
            if (d, n) != (0, 0) and start and self.restores_first:
                k.wait_until(lambda: (0, 0) in ready or dead, None, "restored")
            ds = self.dataset(d, n, path)
            ready.add((d, n))
            ld = self.loader(ds, d, n, prefetch)
            it = iter(ld)
            note = Note(self.sinks, d, n)
            step = step0
            mine = True
            while True:
                if mine:
                    try:
                        b = next(it)
                        if self.flavour == "bare":
                            note(0, [b])
                        del b
                    except StopIteration:
                        mine = False
                        over.add((d, n))
                step += 1
                barrier(("step", step), (d, n))
                stop = len(over) == self.D * self.N
                barrier(("decided", step), (d, n))
                if step % self.every == 0 or (stop and final == "save"):
                    if self.W > 0 and isinstance(ld, Loader):
                        if mine and self.settles:
                            ld.settle()
                        barrier(("settled", step), (d, n))
                    where = self.ckdir if self.same_dir else os.path.join(self.ckdir, f"step{step}")
                    if (d, n) == (0, 0):
                        with K.no_preempt():
                            os.makedirs(where, exist_ok=True)
                        self.snaps[step] = {key: list(s) for key, s in self.sinks.items()}
                        self.unfinished = (where, step)
                    barrier(("begin", step), (d, n))
                    source = {0: ds, 1: ld}[self.source] if not isinstance(ld, Loader) else ds
                    handle_mixtera_checkpoint(source, where if w.flip() else Path(where), d, n, self.disk)
                    barrier(("saved", step), (d, n))
                    if (d, n) == (0, 0):
                        self.latest = (where, step)
                        self.unfinished = None
                        self.ids[step] = self.current_id(where)
                        self.fresh.add(step)
                if k.rare("s", 0.03, 4):
                    k.sleep((0.01, 1.0, 20.0)[k.choose("s", 3)], "think")
                if stop:
                    return

        fs_ids = [(d, n) for d in range(self.D) for n in range(self.N)]
        hs = []
        for d, n in fs_ids:
            hs.append(w.proc(f"t{d}.{n}", lambda d=d, n=n: body(d, n)))
        plan = None
        if w.flip(1, 4):  # the disk on which checkpoints are stored is slow
            dur = (2.0, 12.0, 40.0)[w.ch(3)]
            K.add_plan(k, lambda p, kd, det: kd.startswith("fs.") and "chkpnt_" in str(det) and "/" in p.name, w.ch(6), lambda *a: k.sleep(dur, "slow disk"), "slow-disk", 1 + w.ch(2))
        if crash is not None:
            kind, nth, victim = crash
            ps = [h.proc for h in hs]

            def match(p, kd, det):
                return (any(p is q for q in ps) or any(p.name.startswith(q.name + "/") for q in ps) or p.name.startswith("server")) and kd.startswith(kind) and any(q.alive for q in ps)

            def act(kk, p, kd, det):
                dead.append(1)
                self.log.append(f"crash at {kd} {det if kd.startswith('fs') else ''} of {p.name}")
                doomed = ps + [q for q in kk.procs if any(q.name.startswith(t.name + "/") for t in ps)]
                if victim == "all" and self.server is not None:
                    doomed.append(self.server())
                for q in sorted(doomed, key=lambda q: q is p or p.name.startswith(q.name + "/")):  # its own end is the last thing a process sees
                    if q.alive:
                        kk.kill(q)

            plan = K.add_plan(k, match, nth, act, f"crash-{victim}", 1)
        k.wait_until(lambda: dead or all(not h.alive for h in hs) or any(h.exc is not None for h in hs), None, "training")
        k.plans = []
        if dead:
            k.wait_until(lambda: all(not h.alive for h in hs), 1000, "dying")
            return False
        for h in hs:
            if h.exc is not None:
                raise h.exc
        for h in hs:
            w.join(h)
        return True


def knobs(w, flavour, W):
    kw = {}
    m = w.ch(4)
    if m == 1:
        kw = dict(chunk_reading_mixture_type="window", chunk_reading_window_size=(2, 4, 7)[w.ch(3)], chunk_reading_window_best_effort=True)
    elif m == 2:
        kw = p15.token_args(w)
        kw["chunk_reading_token_separate_thread"] = w.flip()
    kw["chunk_reading_prefetch_first_sample"] = w.flip()
    return kw


def training(w, flavours, workers, remote=True, layouts=((1, 1), (1, 1), (1, 2), (2, 1), (2, 2), (1, 3)), barrier=True, settles=True):
    k = w.k
    flavour = w.pick(flavours)
    W = w.pick(workers)
    D, N = w.pick(layouts) if remote else (1, 1)
    batch = 1 if flavour == "bare" else 1 + w.ch(4)
    kw = knobs(w, flavour, W)
    specs = c.corpus(w, n=1 + w.ch(2), lines=((3, 8), (8, 20))[w.ch(2)])
    conds = w.pick(((), ([("lang", "==", ["en", "de"])],)))
    mix, desc = c.gen_mixture(w)
    disk = w.flip(5, 6)
    if remote:
        sv = c.Served(w)
        c.register_all(w, sv.client, specs)
        connect = w.remote
    else:
        sv = None
        loc = w.mkdir("loc")
        w.join(w.proc("reg", lambda: c.register_all(w, w.local(loc), specs)))
        connect = lambda: w.local(loc)  # noqa: E731
    run = Run(w, flavour, D, N, W, batch, kw, 1 + w.ch(5), disk, w.flip(), connect, lambda: copy.deepcopy(mix), conds, w.flip())
    run.restores_first, run.settles = barrier, settles
    run.server = (lambda: sv.h.proc) if sv else None
    run.source = w.ch(2)
    final = w.pick(("save", "no"))
    crashes = w.ch(4) if sv or disk else 0
    what = f"{flavour} {desc} D{D} N{N} W{W} batch {batch} every {run.every} {kw} disk {disk} same dir {run.same_dir}"
    for i in range(crashes):
        kind = w.pick(("", "", "fs.", "net", "fs.rename", "fs.open.w", "db."))
        victim = w.pick(("training", "all")) if sv and disk and barrier else "training"
        done = run.attempt((kind, (w.ch(20), w.ch(200), w.ch(1000))[w.ch(3)] if kind in ("", "net") else w.ch(30), victim), final)
        if done and not (final == "save" and run.latest):
            break
        if not done:
            run.adopt()
        run.log.append(f"attempt {i} {'finished' if done else 'crashed'}, latest {run.latest and run.latest[1]}, in flight {run.unfinished and run.unfinished[1]}")
        if sv and (not sv.h.proc.alive or run.latest is None or w.flip(1, 3) and disk and barrier):
            sv.restart()
        elif run.latest and not disk and run.latest[1] in run.fresh:  # the training continues once the checkpoint is on disk
            t = k.now
            cl = w.remote()
            while not cl.checkpoint_completed("job", run.ids[run.latest[1]], True):
                k.sleep(0.5, "poll")
                check(k.now - t < 600, "never-complete", lambda: f"{run.latest}; {what}; {run.log}")
    else:
        if run.attempt(None, final) is not True:
            raise K.HarnessError("interrupted without a crash")
    return run, what, specs, mix, conds, sv, connect, kw, desc


def verify(w, run, what, mix, conds, connect, kw):
    st = {}

    def ref():
        cl = connect()
        c.run_query(w, cl, "ref", copy.deepcopy(mix), conds)
        st["ref"] = c.chunks_of(c.consume(cl, c.stream_args("ref", **kw)))

    w.join(w.proc("ref", ref))
    what = f"{what}; {run.log}"

    def norm(t):
        _, kid, s = t
        if run.flavour == "hf":
            if isinstance(s, str):
                return (("key_id", kid), ("text", s))
            return (("input_ids", tuple(s)), ("key_id", tuple(kid for _ in s)))
        s = s if isinstance(s, str) else tuple(s)
        return (kid, s) if run.key_id else s

    chunks = [tuple(norm(t) for t in ch) for ch in st["ref"]]
    Wn = max(run.W, 1)
    for d in range(run.D):
        for x in range(Wn):
            for n in range(1, run.N):
                a, b = run.sinks[(d, 0, x)], run.sinks[(d, n, x)]
                check(a == b, "nodes-differ", lambda: f"group {d} worker {x}: node 0 ({len(a)}) and node {n} ({len(b)}) differ: {next(((i, p, q) for i, (p, q) in enumerate(zip(a, b)) if p != q), None)}; {what}")
    streams = [run.sinks[(d, 0, x)] for d in range(run.D) for x in range(Wn)]
    if len(streams) == 1:
        exp = [s for ch in chunks for s in ch]
        got = streams[0]
        i = next((i for i, (p, q) in enumerate(zip(got, exp)) if p != q), min(len(got), len(exp)))
        check(got == exp, "resumed-stream-differs", lambda: f"sample {i}: trained on {got[i:i + 3]}, uninterrupted {exp[i:i + 3]} ({len(got)} vs {len(exp)} samples); {what}")
    else:
        got = collections.Counter(s for st_ in streams for s in st_)
        exp = collections.Counter(s for ch in chunks for s in ch)
        check(got == exp, "resumed-samples-differ", lambda: f"only in training {list((got - exp).elements())[:4]}, missing {list((exp - got).elements())[:4]}; {what}")
        if all(v == 1 for v in exp.values()):
            home = {s: (ci, pi) for ci, ch in enumerate(chunks) for pi, s in enumerate(ch)}
            for j, s in enumerate(streams):
                pos = [home[x] for x in s]
                for p, q in zip(pos, pos[1:]):
                    nxt = (p[0], p[1] + 1)
                    check(q == nxt or (p[1] + 1 == len(chunks[p[0]]) and q[1] == 0), "chunk-torn", lambda: f"stream {j}: {q} follows {p}; {what}")
    return sum(map(len, chunks))


def served(w):
    r = training(w, ("torch", "torch", "bare"), (0,))
    n = verify(w, r[0], r[1], r[3], r[4], r[6], r[7])
    return dict(what=f"{r[1]} {r[0].log} samples {n}", nontrivial=bool(r[0].log) and n > 1)


def local(w):
    r = training(w, ("torch", "bare"), (0,), remote=False)
    n = verify(w, r[0], r[1], r[3], r[4], r[6], r[7])
    return dict(what=f"{r[1]} {r[0].log} samples {n}", nontrivial=bool(r[0].log) and n > 1)


def workers(w):
    r = training(w, ("torch",), (1, 2, 2, 3), layouts=((1, 1), (1, 1), (1, 2), (2, 1), (2, 2)))
    n = verify(w, r[0], r[1], r[3], r[4], r[6], r[7])
    return dict(what=f"{r[1]} {r[0].log} samples {n}", nontrivial=bool(r[0].log) and n > 1)


def hf(w):
    r = training(w, ("hf",), (0, 0, 1, 2), layouts=((1, 1), (1, 1), (1, 2), (2, 1), (2, 2)))
    n = verify(w, r[0], r[1], r[3], r[4], r[6], r[7])
    return dict(what=f"{r[1]} {r[0].log} samples {n}", nontrivial=bool(r[0].log) and n > 1)


def stale(w):
    """The server survives the crash and the nodes do not wait for node 0 before they read (known finding)."""
    r = training(w, ("torch",), (0,), layouts=((1, 2), (2, 1), (2, 2)), barrier=False)
    n = verify(w, r[0], r[1], r[3], r[4], r[6], r[7])
    return dict(what=f"{r[1]} {r[0].log} samples {n}", nontrivial=bool(r[0].log) and n > 1)


def busy(w):
    """Checkpoints are taken while loader workers read ahead (known finding)."""
    r = training(w, ("torch",), (1, 2), layouts=((1, 1),), settles=False)
    n = verify(w, r[0], r[1], r[3], r[4], r[6], r[7])
    return dict(what=f"{r[1]} {r[0].log} samples {n}", nontrivial=bool(r[0].log) and n > 1)


SCENARIOS = [Scenario("served", served, 3), Scenario("local", local, 1), Scenario("workers", workers, 2), Scenario("hf", hf, 2)]
EXTRA = [Scenario("stale", stale, 0), Scenario("busy", busy, 0)]
QUICK = dict(runs=900, secs=34.0)
