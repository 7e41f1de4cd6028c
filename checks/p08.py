"""P08: a restored job continues exactly where the checkpoint was taken."""
import collections
import copy

from checks import common as c
from sim.runner import Scenario
from sim.world import check

PROP = "P08"


class Job:
    """A training run whose sessions are interrupted, checkpointed and restored; delivered samples are recorded per stream."""

    def __init__(self, w, job, D, N, W, kw, connect):
        self.w, self.k, self.job = w, w.k, job
        self.D, self.N, self.W, self.kw, self.connect = D, N, W, kw, connect
        self.keys = [(d, n, x) for d in range(D) for n in range(N) for x in range(W)]
        self.sinks = {key: [] for key in self.keys}
        self.drifting = N > 1 and w.flip()
        self.snaps = {}  # checkpoint id -> delivered samples at that time
        self.order = []

    def status(self, d, n):
        """Position of every worker of a node inside its current chunk."""
        out = []
        for x in range(self.W):
            s = self.sinks[(d, n, x)]
            ch = c.chunks_of(s)
            out.append(ch[-1][-1][0] + 1 if ch and len(s) > self.base[(d, n, x)] else self.fresh[(d, n, x)])
        return out

    def session(self, segs, final, after=None, save=None):
        """segs: list of {(d, x): samples to read}; a checkpoint is taken after each of them. Afterwards `final` samples (None: all)."""
        w, k = self.w, self.k
        self.base = {key: len(s) for key, s in self.sinks.items()}
        self.fresh = {key: 0 for key in self.keys}
        arrived = collections.Counter()
        go = set()
        done = [set() for _ in segs]
        ahead = w.ch(self.N) if self.drifting else 0  # the node that is never behind
        drift = [{key: 1 + w.ch(4) for key in self.keys if self.drifting and w.flip()} for _ in segs]

        def body(key):
            cl = self.connect()
            it = cl.stream_results(c.stream_args(self.job, *key, **self.kw))
            sink = self.sinks[key]
            for i, seg in enumerate(segs):
                todo = seg[(key[0], key[2])]
                if self.drifting and key[1] != ahead:  # this node may be a few samples behind, but reads the same chunk
                    lead = key[0], ahead, key[2]
                    k.wait_until(lambda: lead in done[i], None, "leader")
                    front = self.sinks[lead]
                    new = len(front) - len(sink)
                    if new > 0:  # otherwise: the leader may have tried to read and reached the end
                        back = min(new - 1, front[-1][0] - c.chunks_of(front)[-1][0][0])
                        todo = new - min(drift[i].get(key, 0), back)
                for _ in range(todo):
                    try:
                        sink.append(next(it))
                    except StopIteration:
                        break
                done[i].add(key)
                arrived[i] += 1
                if k.rare("s", 0.02, 4):
                    k.sleep((0.01, 1.0, 20.0)[w.ch(3)], "think")
                k.wait_until(lambda: i in go, None, "barrier")
            n = 0
            while final is None or n < final[(key[0], key[2])]:
                try:
                    sink.append(next(it))
                except StopIteration:
                    break
                n += 1

        hs = [w.proc(f"w{'.'.join(map(str, key))}", lambda key=key: body(key)) for key in self.keys]
        for i in range(len(segs)):
            k.wait_until(lambda: arrived[i] == len(hs) or any(not h.alive and h.exc is not None for h in hs), None, "segment")
            for h in hs:
                if h.exc is not None:
                    raise h.exc
            # The furthest node of a group counts.
            snap = {key: list(max((self.sinks[(key[0], n, key[2])] for n in range(self.N)), key=len)) for key in self.keys}
            ids = self.checkpoint()
            check(len(set(ids.values())) == 1, "different-ids", lambda: f"nodes were told different checkpoint ids: {ids}")
            cid = next(iter(ids.values()))
            check(cid not in self.snaps, "id-reused", lambda: f"{cid} was used before; {self.order}")
            self.snaps[cid] = snap
            self.order.append(cid)
            early = w.flip()
            if early:
                go.add(i)
            self.await_disk(cid)
            go.add(i)
        if after is not None:
            after(hs)
        for h in hs:
            w.join(h)

    def checkpoint(self):
        """All nodes report at the same time."""
        ids = {}

        def node(d, n):
            ids[(d, n)] = self.connect().checkpoint(self.job, d, n, self.status(d, n))

        hs = [self.w.proc(f"ck{d}.{n}", lambda d=d, n=n: node(d, n)) for d in range(self.D) for n in range(self.N)]
        for h in hs:
            self.w.join(h)
        return ids

    def await_disk(self, cid):
        cl = self.connect()
        t = self.k.now
        while not cl.checkpoint_completed(self.job, cid, True):
            self.k.sleep(0.2, "poll")
            check(self.k.now - t < 600, "never-complete", lambda: f"{cid} is not complete after {self.k.now - t} s")
        check(cl.checkpoint_completed(self.job, cid, False), "never-complete", lambda: f"{cid} is on disk, but not in memory")

    def rewind(self, cid):
        for key, s in self.sinks.items():
            s[:] = self.snaps[cid][key]

    def verify(self, ref, exact):
        """ref: chunks of the uninterrupted single consumer."""
        what = f"D{self.D} N{self.N} W{self.W} {self.kw} checkpoints {self.order}"
        for d in range(self.D):
            for x in range(self.W):
                a = self.sinks[(d, 0, x)]
                for n in range(1, self.N):
                    b = self.sinks[(d, n, x)]
                    check(a == b, "nodes-differ", lambda: f"group {d} worker {x}: node 0 and node {n} differ from item {next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))}: {a[:0]} {len(a)} vs {len(b)} items; {what}")
        got = [tuple(map(tuple, ch)) for d in range(self.D) for x in range(self.W) for ch in c.chunks_of(self.sinks[(d, 0, x)])]
        ref = [tuple(map(tuple, ch)) for ch in ref]
        if exact:
            i = next((i for i, (p, q) in enumerate(zip(got, ref)) if p != q), min(len(got), len(ref)))
            check(got == ref, "resumed-stream-differs", lambda: f"chunk {i} differs: resumed {got[i:i + 1]} uninterrupted {ref[i:i + 1]} ({len(got)} vs {len(ref)} chunks); {what}")
        g, r = collections.Counter(got), collections.Counter(ref)
        check(g == r, "resumed-chunks-differ", lambda: f"chunks only with interruptions: {list((g - r).elements())[:3]}; only without: {list((r - g).elements())[:3]}; {what}")


def streamkw(w):
    if w.flip(1, 3):
        return dict(chunk_reading_mixture_type="window", chunk_reading_window_size=(2, 4, 7)[w.ch(3)], chunk_reading_window_best_effort=w.flip())
    return {}


def cached_setup(w, client, conds, how, stub):
    """What the query cache contains when the job is executed: nothing, a result of another job, or it is off."""
    if how == "other":
        c.run_query(w, client, "earlier", c.gen_mixture(w)[0], conds)
    elif how == "off":
        stub()._query_cache.enabled = False


def plan(w, D, W, per):
    return {(d, x): w.ch(per) for d in range(D) for x in range(W)}


def served(w):
    sv = c.Served(w)
    specs = c.corpus(w, lines=((4, 12), (10, 30))[w.ch(2)])
    c.register_all(w, sv.client, specs)
    conds = w.pick(((), ([("lang", "==", ["en", "de"])],)))
    mix, desc = c.gen_mixture(w)
    mix2 = copy.deepcopy(mix)
    kw = streamkw(w)
    D, N, W = 1 + w.ch(2), 1 + w.ch(2), 1 + w.ch(3)
    how = w.pick(("fresh", "other", "off", "evicted"))
    cached_setup(w, sv.client, conds, how, lambda: sv.h.proc.server_obj._local_stub)
    c.run_query(w, sv.client, "job", mix, conds, dp=D, nodes=N, workers=W)
    if how == "evicted":  # the catalogue changes, the same query runs again and replaces the entry the job refers to
        sp = w.dataset("later", nfiles=1, lines=(1, 3))
        check(w.register(sv.client, sp), "setup:register", "later")
        c.run_query(w, sv.client, "later", c.arbitrary(4), conds)
    job = Job(w, "job", D, N, W, kw, w.remote)
    cycles = 1 + w.ch(3)
    per = max(2, (sum(len(s.samples) for s in specs) * 2) // (D * W * cycles))
    hist = [desc["kind"], how]
    for i in range(cycles):
        segs = [plan(w, D, W, per if not w.flip(1, 4) else 1) for _ in range(1 + w.ch(2))]
        extra = plan(w, D, W, 6)
        kill = w.flip(2, 3)
        job.session(segs, extra)
        cid = w.pick(job.order[-1:] * 2 + job.order)
        job.rewind(cid)
        if kill:
            sv.restart()
        hist.append((cid, kill))
        sv.client.restore_checkpoint("job", cid)
        check(sv.client.wait_for_execution("job") is True, "restore-failed", lambda: f"restoring {cid} failed; {hist}")
    job.session([], None)
    if how == "evicted":
        check(sv.client.remove_dataset("later"), "setup:remove", "later")
    c.run_query(w, sv.client, "ref", mix2, conds)
    ref = c.chunks_of(c.consume(sv.client, c.stream_args("ref", **kw)))
    job.verify(ref, D * W == 1)
    return dict(what=f"{hist} {desc} D{D} N{N} W{W} {kw} chunks {len(ref)}", nontrivial=len(ref) > 1)


def local(w):
    """In-process job without loader workers; every session is a new process (the crash of a process is its end)."""
    k = w.k
    d = w.mkdir("loc")
    st = {}
    specs = c.corpus(w, lines=((4, 12), (10, 30))[w.ch(2)])
    mix, desc = c.gen_mixture(w)
    mix2 = copy.deepcopy(mix)
    conds = w.pick(((), ([("lang", "==", ["en", "de"])],)))
    kw = streamkw(w)
    how = w.pick(("fresh", "other", "off"))
    cycles = 1 + w.ch(3)
    sink = []
    snaps = {}
    order = []
    hist = [desc["kind"], how]
    per = max(2, (sum(len(s.samples) for s in specs) * 2) // cycles)

    def ref():
        cl = w.local(w.mkdir("locref"))
        c.register_all(w, cl, specs)
        c.run_query(w, cl, "ref", copy.deepcopy(mix2), conds)
        st["ref"] = c.chunks_of(c.consume(cl, c.stream_args("ref", **kw)))

    def run(cid, segs, final, fresh):
        cl = w.local(d)
        if cid is None:
            cached_setup(w, cl, conds, how, lambda: cl)
            c.run_query(w, cl, "job", mix, conds)
        else:
            if not fresh:  # the process already executes the job
                c.run_query(w, cl, "job", copy.deepcopy(mix2), conds)
                c.consume(cl, c.stream_args("job", **kw), limit=1 + w.ch(5))
            cl.restore_checkpoint("job", cid)
            check(cl.wait_for_execution("job") is True, "restore-failed", lambda: f"restoring {cid} failed; {hist}")
        it = cl.stream_results(c.stream_args("job", **kw))
        pos = 0
        for n in segs:
            for _ in range(n):
                try:
                    sink.append(next(it))
                except StopIteration:
                    break
                pos = sink[-1][0] + 1
            c1 = cl.checkpoint("job", 0, 0, [pos])
            check(c1 not in snaps, "id-reused", lambda: f"{c1} was used before; {order}")
            snaps[c1] = list(sink)
            order.append(c1)
            t = k.now
            while not cl.checkpoint_completed("job", c1, True):
                k.sleep(0.1, "poll")
                check(k.now - t < 600, "never-complete", lambda: f"{c1}")
        for i, item in enumerate(it):
            if final is not None and i >= final:
                break
            sink.append(item)

    w.join(w.proc("ref", ref))
    w.join(w.proc("reg", lambda: c.register_all(w, w.local(d), specs)))
    cid = None
    for i in range(cycles):
        segs = [w.ch(per if not w.flip(1, 4) else 1) for _ in range(1 + w.ch(2))]
        extra = w.ch(6)
        fresh = w.flip(2, 3)
        w.join(w.proc(f"run{i}", lambda: run(cid, segs, extra, fresh)))
        cid = w.pick(order[-1:] * 2 + order)
        hist.append((cid, fresh))
        sink[:] = snaps[cid]
    w.join(w.proc("last", lambda: run(cid, [], None, True)))
    got = [tuple(ch) for ch in c.chunks_of(sink)]
    exp = [tuple(ch) for ch in st["ref"]]
    i = next((i for i, (p, q) in enumerate(zip(got, exp)) if p != q), min(len(got), len(exp)))
    check(got == exp, "resumed-stream-differs", lambda: f"chunk {i} differs: resumed {got[i:i + 1]} uninterrupted {exp[i:i + 1]} ({len(got)} vs {len(exp)} chunks); {hist} {desc} {kw}")
    return dict(what=f"{hist} {desc} {kw} chunks {len(exp)}", nontrivial=len(exp) > 1)


def make_steered(w):
    """Factory of identical mixtures that react to training feedback."""
    from mixtera.core.algo.loss_avg.loss_avg import SimpleAveragingAlgorithm
    from mixtera.core.query.mixture import ArbitraryMixture, InferringMixture, MixtureSchedule, ScheduleEntry, StaticMixture
    from mixtera.core.query.mixture.dynamic_mixture import DynamicMixture

    chunk = (4, 6, 10)[w.ch(3)]
    strict = w.flip()
    if w.flip():
        n = 2 + w.ch(3)
        steps = [0]
        for _ in range(n - 1):
            steps.append(steps[-1] + 1 + w.ch(4))
        kinds = [(w.ch(5), 1 + w.ch(3)) for _ in range(n)]

        def one(kind, wt):
            a, b = wt / 4, 1 - wt / 4
            if kind == 0:
                return StaticMixture(chunk, {c.mixkey(lang="en"): a, c.mixkey(lang="de"): b}, strict=strict)
            if kind == 1:
                return StaticMixture(chunk, {c.mixkey(lang="fr"): a, c.mixkey(lang="en"): b}, strict=strict)
            if kind == 2:
                return StaticMixture(chunk, {c.mixkey(lic="mit"): a, c.mixkey(lic="apache"): b}, strict=strict)
            if kind == 3:
                return ArbitraryMixture(chunk)
            return StaticMixture(chunk, {c.mixkey(lang="de"): 1.0}, strict=strict)

        return (lambda: MixtureSchedule(chunk, [ScheduleEntry(s, one(*kk)) for s, kk in zip(steps, kinds)])), f"schedule {list(zip(steps, kinds))} chunk {chunk} strict {strict}"

    init = w.ch(2)

    def dyn():
        m = InferringMixture(chunk, strict=strict) if init else StaticMixture(chunk, {c.mixkey(lang="en"): 0.5, c.mixkey(lang="de"): 0.25, c.mixkey(lang="fr"): 0.25}, strict=strict)
        return DynamicMixture(chunk, m, SimpleAveragingAlgorithm(), strict=strict)

    return dyn, f"dynamic init {init} chunk {chunk} strict {strict}"


def losses(items, n):
    """Deterministic losses of the samples since the last report, per domain."""
    import numpy as np

    num = 1 + max(i[1] for i in items)
    ls = np.zeros(num, dtype=np.float32)
    cs = np.zeros(num, dtype=np.int64)
    for idx, kid, s in items:
        ls[kid] += 1 + (len(s) * 7 + kid * 3 + n) % 11
        cs[kid] += 3
    return ls, cs


def steered(w, mix=None, losses=losses):
    """Schedules and dynamic mixtures: the restored job must react to the training's feedback like the uninterrupted one."""
    from mixtera.network.client.client_feedback import ClientFeedback

    k = w.k
    remote = w.flip()
    factory, desc = mix or make_steered(w)
    every = 1 + w.ch(7)
    kw = streamkw(w) if w.flip(1, 3) else {}
    kw["chunk_reading_window_best_effort"] = True
    specs = c.corpus(w, n=1 + w.ch(2), lines=(10, 30))
    sv = c.Served(w) if remote else None
    d = sv.dir if remote else w.mkdir("loc")
    connect = w.remote if remote else (lambda: w.local(d))
    w.join(w.proc("reg", lambda: c.register_all(w, connect(), specs)))
    how = w.pick(("fresh", "other"))
    total = sum(len(s.samples) for s in specs)

    def train(cl, job, sink, stop, resumed=0):
        """Read until `stop` samples were delivered in total; report after every `every` samples. Position in the chunk is returned."""
        it = train.its.get(id(sink))
        if it is None:
            it = train.its[id(sink)] = cl.stream_results(c.stream_args(job, **kw))
        while stop is None or len(sink) < stop:
            try:
                sink.append(next(it))
            except StopIteration:
                return False
            train.pos = sink[-1][0] + 1
            n = len(sink)
            if n % every == 0:
                ls, cs = losses(sink[n - every:], n)
                check(cl.process_feedback(job, ClientFeedback(training_steps=n // every, mixture_id=cl.current_mixture_id or 0, losses=ls, counts=cs)), "setup:feedback", f"feedback at {n} refused")
        return True

    train.its = {}
    out = {}

    def ref():
        cl = connect()
        c.run_query(w, cl, "ref", factory())
        s = out["ref"] = []
        train(cl, "ref", s, None)

    def other():
        c.run_query(w, connect(), "earlier", c.gen_mixture(w)[0])

    if how == "other":
        w.join(w.proc("other", other))
    sink = []
    snaps, order, hist = {}, [], [how, desc, f"every {every}"]
    cycles = 1 + w.ch(3)

    def run(cid, marks, final):
        train.its.clear()
        train.pos = 0
        cl = connect()
        if cid is None:
            c.run_query(w, cl, "job", factory())
        else:
            cl.restore_checkpoint("job", cid)
            check(cl.wait_for_execution("job") is True, "restore-failed", lambda: f"restoring {cid} failed; {hist}")
        for m in marks:
            train(cl, "job", sink, len(sink) + m)
            c1 = cl.checkpoint("job", 0, 0, [train.pos])
            snaps[c1] = list(sink)
            order.append(c1)
            t = k.now
            if w.flip():
                train(cl, "job", sink, len(sink) + w.ch(4))
            while not cl.checkpoint_completed("job", c1, True):
                k.sleep(0.1, "poll")
                check(k.now - t < 600, "never-complete", lambda: f"{c1}")
        train(cl, "job", sink, None if final is None else len(sink) + final)

    cid = None
    for i in range(cycles):
        marks = [w.ch(max(2, total // cycles)) for _ in range(1 + w.ch(2))]
        w.join(w.proc(f"run{i}", lambda: run(cid, marks, w.ch(8))))
        cid = w.pick(order[-1:] * 2 + order)
        kill = remote and w.flip()
        hist.append((cid, len(snaps[cid]), kill))
        sink[:] = snaps[cid]
        if kill:
            sv.restart()
    w.join(w.proc("last", lambda: run(cid, [], None)))
    w.join(w.proc("ref", ref))
    exp = out["ref"]
    i = next((i for i, (p, q) in enumerate(zip(sink, exp)) if p != q), min(len(sink), len(exp)))
    check(sink == exp, "resumed-stream-differs", lambda: f"sample {i} differs: resumed {sink[i:i + 2]} uninterrupted {exp[i:i + 2]} ({len(sink)} vs {len(exp)} samples); {hist} {kw}")
    return dict(what=f"{'server' if remote else 'local'} {hist} {kw} samples {len(exp)}", nontrivial=len(exp) > 4)


SCENARIOS = [Scenario("served", served, 3), Scenario("local", local, 2), Scenario("steered", steered, 3)]
QUICK = dict(runs=900, secs=34.0)
