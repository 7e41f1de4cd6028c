"""P14: schedules and dynamic mixtures follow the training's feedback, in whatever order and however often it arrives."""
import collections
import math

import numpy as np

from checks import common as c
from sim import kernel as K
from sim.runner import Scenario
from sim.world import check

PROP = "P14"

CALLS = []  # what the mixing algorithms were told and returned: (tag, time, losses, counts, mixture_id, result)


def setup():
    """The algorithm is shipped to the server by reference."""
    from mixtera.core.algo.dynamic_mixing.dynamic_mixing import DynamicMixingAlgorithm

    global Scripted, KERNEL

    class Scripted(DynamicMixingAlgorithm):
        """Returns a given sequence of mixtures, one per report."""

        def __init__(self, tag, script):
            super().__init__()
            self.tag, self.script, self.n = tag, script, 0

        def calc_mixture(self, updated_at_client):
            return None

        def process_losses(self, losses, counts, mixture_id):
            r = self.script[self.n % len(self.script)]
            self.n += 1
            out = None
            if r is not None:
                out = np.zeros(len(self.initial_mixture))
                for i, v in r.items():
                    if i < len(out):
                        out[i] = v
                out = out / out.sum() if out.sum() > 0 else None
            super().process_losses(losses, counts, mixture_id)
            from sim import kernel as K

            CALLS.append((self.tag, K.current().k.steps, losses.tolist(), counts.tolist(), mixture_id, None if out is None else out.copy(), self.initial_mixture.copy()))
            return out

    Scripted.__module__ = __name__
    Scripted.__qualname__ = "Scripted"


DOMS = [("en", "mit"), ("en", "apache"), ("de", "mit"), ("de", "apache"), ("fr", "mit"), ("fr", "apache")]


class Entry:
    """Model of one mixture: rows per predicate; rows None = arbitrary."""

    def __init__(self, rows, strict, name):
        self.rows, self.strict, self.name = rows, strict, name

    def fits(self, comp, size):
        """Could a chunk with this composition (domain -> samples) be generated by this mixture?"""
        total = sum(comp.values())
        if self.rows is None:
            return total <= size and sum(1 for v in comp.values() if v) == 1
        if total != sum(self.rows.values()):
            return False
        if not self.strict:
            return all(any(match(p, d) for p in self.rows) for d, v in comp.items() if v)
        return all(sum(v for d, v in comp.items() if match(p, d)) == n for p, n in self.rows.items()) and sum(comp.values()) == sum(
            sum(v for d, v in comp.items() if match(p, d)) for p in self.rows)

    def fits_left(self, left):
        """Could (some) chunk have been generated from what was left? False is certain for strict mixtures."""
        if self.rows is None:
            return sum(left.values()) > 0
        if not self.strict:
            pool = sum(v for d, v in left.items() if any(match(p, d) for p in self.rows))
            return pool >= sum(self.rows.values())
        return all(sum(v for d, v in left.items() if match(p, d)) >= n for p, n in self.rows.items())

    def __repr__(self):
        return f"{self.name}{'' if self.strict else '~'}{self.rows}"


def match(p, d):
    prop, val = p
    return d[0] == val if prop == "lang" else d[1] == val


def rnd(size, weights):
    """Largest remainders, ties in favour of the first key."""
    tot = sum(weights.values())
    ideal = {k: size * (v / tot) for k, v in weights.items()}
    fl = {k: int(v) for k, v in ideal.items()}
    for k in sorted(fl, key=lambda k: ideal[k] - fl[k], reverse=True)[: size - sum(fl.values())]:
        fl[k] += 1
    return fl


class Log:
    """Chunks as the consumers saw them, and the reports."""

    def __init__(self, k):
        self.k = k
        self.chunks = {}  # (group, worker, number) -> [t0, t1, composition, mixture id, ids of domains]
        self.ends = []  # (t0, t1)
        self.sent = []  # (time, step)
        self.acked = []  # (time, step)
        self.fb = []  # successful or possible reports (losses, counts, mixture id), acked?
        self.keyid = {}
        self.failed = 0

    def __deepcopy__(self, memo):
        return self


def consume(w, cl, job, key, log, dom, cur, hook=None):
    """Read a stream chunk by chunk, remembering when every chunk was requested and received."""
    k = w.k
    d, n, x = key
    ids = []
    orig = cl._stream_result_chunks

    def recording(*a, **kw):
        for ch in orig(*a, **kw):
            ids.append(ch.mixture_id)
            yield ch

    cl._stream_result_chunks = recording
    it = cl.stream_results(c.stream_args(job, d, n, x, chunk_reading_window_best_effort=True))
    num = -1
    t0 = k.steps
    while True:
        before = len(ids)
        t0 = k.steps
        try:
            idx, kid, s = next(it)
        except StopIteration:
            log.ends.append((t0, k.steps))
            return
        t1 = k.steps
        if len(ids) != before:
            num += 1
            rec = log.chunks.setdefault((d, x, num), [t0, t1, {}, ids[-1]])
            rec[0], rec[1] = min(rec[0], t0), min(rec[1], t1)
            check(rec[3] == ids[-1], "mixture-id-differs", lambda: f"chunk {num} of group {d} worker {x}: ids {rec[3]} and {ids[-1]}")
            if len(ids) > 1:
                check(ids[-1] >= ids[-2], "mixture-id-decreases", lambda: f"{ids}")
            check(cl.current_mixture_id == ids[-1], "current-mixture-id", lambda: f"client says {cl.current_mixture_id}, chunks {ids}")
        check(s in dom, "unknown-sample", lambda: s[:80])
        rec[2].setdefault(n, collections.Counter())[dom[s]] += 1
        rec[2].setdefault(("kid", n), set()).add((kid, dom[s]))
        if hook:
            hook(s, kid)


def feeder(w, connect, job, log, steps, dyn, faulty=False):
    """Reports of one node, with duplicates, delays and reordering; over a faulty network some of them fail."""
    from mixtera.network.client.client_feedback import ClientFeedback

    k = w.k
    cl = connect()
    for i, st in enumerate(steps):
        if k.rare("w", 0.6, 3):
            k.sleep((0.001, 0.01, 0.05, 0.5)[w.ch(4)], "training")
        fb = ClientFeedback(training_steps=st, mixture_id=w.ch(3))
        if dyn or w.flip(1, 4):
            nd = 1 + w.ch(6)
            fb.losses = np.array([1.0 + w.ch(9) for _ in range(nd)], dtype=np.float32)
            fb.counts = np.array([1 + w.ch(5) for _ in range(nd)], dtype=np.int64)
        if w.flip(1, 8):
            try:
                r = cl.process_feedback("nobody", fb)
            except Exception:  # noqa: BLE001
                r = False
            check(r is not True, "unknown-job-accepted", "feedback for an unknown job was acknowledged")
        if faulty:
            log.sent.append((k.steps, st))
            rec = [fb, k.steps, None]
            log.fb.append(rec)
            try:
                r = cl.process_feedback(job, fb)
            except Exception:  # noqa: BLE001
                r = False
            if r is True:
                rec[2] = k.steps
                log.acked.append((k.steps, st))
            else:
                log.failed += 1
            continue
        log.sent.append((k.steps, st))
        rec = [fb, k.steps, None]
        log.fb.append(rec)
        check(cl.process_feedback(job, fb) is True, "feedback-refused", lambda: f"report for step {st} of a running job was refused")
        rec[2] = k.steps
        log.acked.append((k.steps, st))


def verify(log, D, W, total, allowed, size, what, mixtures):
    """allowed(t0, t1) -> entries a chunk generated in that interval may follow; mixtures: how many mixtures there were at most."""
    chunks = []
    for (d, x, num), (t0, t1, comps, mid) in log.chunks.items():
        nodes = [n for n in comps if not isinstance(n, tuple)]
        for n in nodes[1:]:
            check(comps[n] == comps[nodes[0]] or sum(comps[n].values()) == 0, "nodes-differ", lambda: f"{(d, x, num)}: {comps}")
        chunks.append((t0, t1, comps[nodes[0]], mid, (d, x, num), comps))
    chunks.sort(key=lambda r: r[1])
    for t0, t1, comp, mid, key, _ in chunks:
        al = allowed(t0, t1)
        check(any(e.fits(comp, size) for e in al), "wrong-mixture", lambda: f"chunk {key} (mixture id {mid}) has {dict(comp)}; generated in {t0}..{t1}, where only {al} were in effect; reports sent {log.sent} acknowledged {log.acked}; {what}")
    by = {}
    for t0, t1, comp, mid, key, _ in chunks:
        by.setdefault(mid, []).append((t0, t1, comp, key))
    # one id denotes one mixture: there is an entry that explains all of its chunks
    for mid, rs in by.items():
        ents = {id(e): e for t0, t1, _, _ in rs for e in allowed(t0, t1)}
        check(any(all(e.fits(comp, size) for _, _, comp, _ in rs) for e in ents.values()), "id-names-two-mixtures", lambda: f"mixture id {mid}: {[(k2, dict(cc)) for _, _, cc, k2 in rs]}; {what}")
    check(len(by) <= mixtures, "id-changes-alone", lambda: f"the chunks name {sorted(by)}, but there were at most {mixtures} mixtures; {what}")
    ids = {}
    for *_, comps in chunks:
        for n, v in comps.items():
            if isinstance(n, tuple):
                for kid, dm in v:
                    ids.setdefault(kid, set()).add(dm)
    for kid, ds in ids.items():
        langs, lics = {a for a, _ in ds}, {b for _, b in ds}
        check(len(langs) == 1 or len(lics) == 1, "domain-id-ambiguous", lambda: f"domain id {kid} was given to samples of {sorted(ds)}; {what}")
    # the stream only ends if no allowed mixture could be filled
    for t0, t1 in log.ends:
        left = collections.Counter(total)
        for c0, _, comp, *_ in chunks:
            if c0 <= t1:
                left.subtract(comp)
        al = allowed(t0, t1)
        check(any(not e.fits_left(left) for e in al), "ends-early", lambda: f"a stream ended in {t0}..{t1} although {dict(+left)} was left for {al}; {what}")
    sum_ = collections.Counter()
    for _, _, comp, *_ in chunks:
        sum_.update(comp)
    check(all(sum_[d] <= total[d] for d in sum_), "too-many", lambda: f"{sum_} of {total}")
    return len(chunks)


def gen_entries(w, size):
    """A list of (start step, mixture factory, model)."""
    from mixtera.core.query.mixture import ArbitraryMixture, InferringMixture, StaticMixture
    from mixtera.core.query.mixture.hierarchical_static_mixture import Component, HierarchicalStaticMixture, MixtureNode

    out = []
    st = w.ch(3)
    other = w.flip(1, 4)
    for i in range(1 + w.ch(4)):
        kind = w.ch(6)
        strict = w.flip(2, 3)
        a = (1 + w.ch(3)) / 4
        sz = size if not other or w.flip() else size * 2
        if kind == 0:
            wt = {("lang", "en"): a, ("lang", "de"): 1 - a}
        elif kind == 1:
            wt = {("lang", "fr"): a, ("lang", "en"): 1 - a}
        elif kind == 2:
            wt = {("lic", "mit"): a, ("lic", "apache"): 1 - a}
        else:
            wt = {("lang", ("en", "de", "fr")[w.ch(3)]): 1.0}
        if kind == 4:
            out.append((st, (lambda sz=sz: ArbitraryMixture(sz)), Entry(None, True, "arbitrary")))
        elif kind == 5:
            out.append((st, (lambda sz=sz, strict=strict: InferringMixture(sz, strict=strict)), "infer"))
            out[-1] = (st, out[-1][1], strict)
        elif kind == 2 and w.flip():
            node = [Component(values=[v], weight=x) for (_, v), x in wt.items()]
            # remainders go to the first component
            rows = {kk: int(size * x) for kk, x in wt.items()}
            rows[next(iter(rows))] += size - sum(rows.values())
            out.append((st, (lambda sz=sz, node=node, strict=strict: HierarchicalStaticMixture(sz, MixtureNode("lic", node), strict=strict)), Entry(rows, strict, "hier")))
        else:
            m = {c.mixkey(**{p: v}): x for (p, v), x in wt.items()}
            out.append((st, (lambda sz=sz, m=m, strict=strict: StaticMixture(sz, dict(m), strict=strict)), Entry(rnd(size, wt), strict, "static")))
        st += 1 + w.ch(5)
    return out


class AnyRows(Entry):
    """Inferring mixture: proportions of the whole result; rounding is not modelled, but every domain is within 1 of its share."""

    def __init__(self, total, strict, size):
        self.total, self.strict, self.size, self.rows, self.name = total, strict, size, None, "infer"

    def fits(self, comp, size):
        if sum(comp.values()) != self.size:
            return False
        n = sum(self.total.values())
        return not self.strict or all(abs(comp.get(d, 0) - self.size * v / n) < 1.0001 for d, v in self.total.items())

    def fits_left(self, left):
        n = sum(self.total.values())
        if not self.strict:
            return sum(left.values()) >= self.size
        return all(left[d] >= self.size * v / n - 0.0001 for d, v in self.total.items())


def world(w):
    specs = c.corpus(w, n=1 + w.ch(2), lines=((12, 40), (30, 60))[w.ch(2)])
    dom, total = {}, collections.Counter()
    for sp in specs:
        for s in sp.samples:
            dm = (s.props["lang"], s.props["lic"])
            dom[sp.out(s)] = dm
            total[dm] += 1
    return specs, dom, total


def schedule(w):
    from mixtera.core.query.mixture import MixtureSchedule, ScheduleEntry

    k = w.k
    specs, dom, total = world(w)
    size = (4, 6, 8)[w.ch(3)]
    ents = gen_entries(w, size)
    model = [(st, e if isinstance(e, Entry) else AnyRows(total, e, size)) for st, _, e in ents]
    mix = MixtureSchedule(size, [ScheduleEntry(st, f()) for st, f, _ in (reversed(ents) if w.flip() else ents)])
    served = w.flip(3, 4)
    D, N, W = w.pick(((1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1))) if served else (1, 1, 0)
    log = Log(k)
    what = f"schedule {model} size {size} D{D} N{N} W{W}"

    def in_effect(step):
        best = None
        for st, e in model:
            if st <= step:
                best = e
        return best if best is not None else model[0][1]

    def allowed(t0, t1):
        lo = max([s for t, s in log.acked if t <= t0], default=0)
        hi = max([s for t, s in log.sent if t <= t1], default=0)
        out = []
        for s in sorted({lo, hi} | {st for st, _ in model if lo < st <= hi}):
            e = in_effect(s)
            if e not in out:
                out.append(e)
        return out

    top = model[-1][0] + 3
    if served:
        sv = c.Served(w)
        c.register_all(w, sv.client, specs)
        c.run_query(w, sv.client, "job", mix, dp=D, nodes=N, workers=W)
        if w.flip(1, 3):
            c.run_query(w, sv.client, "second", c.gen_mixture(w)[0])
        faults = flaky(w)
        hs = []
        for key in [(d, n, x) for d in range(D) for n in range(N) for x in range(W)]:
            hs.append(w.proc(f"c{'.'.join(map(str, key))}", lambda key=key: consume(w, slow(w, w.remote()), "job", key, log, dom, None, pause(w))))
        for i in range(1 + w.ch(2)):
            steps = [w.ch(top + 1) for _ in range(1 + w.ch(8))]
            if w.flip():
                steps.sort()
            hs.append(w.proc(f"f{i}", lambda steps=steps: feeder(w, w.remote, "job", log, steps, False, faults is not None)))
        for h in hs:
            w.join(h)
            if h.exc is not None:
                raise h.exc
    else:
        d = w.mkdir("loc")

        def body():
            cl = w.local(d)
            c.register_all(w, cl, specs)
            c.run_query(w, cl, "job", mix)
            every = 1 + w.ch(9)
            cnt = [0]

            def hook(s, kid):
                cnt[0] += 1
                if cnt[0] % every == 0:
                    feeder(w, lambda: cl, "job", log, [w.ch(top + 1) if w.flip(1, 3) else min(top, cnt[0] // every)], False)

            consume(w, cl, "job", (0, 0, 0), log, dom, None, hook)

        h = w.proc("local", body)
        w.join(h)
    n = verify(log, D, W, total, allowed, size, what, len(model))
    return dict(what=f"{what} {n} chunks, {len(log.acked)} reports", nontrivial=n > 1 and len({m[3] for m in log.chunks.values()}) > 1)


class Script(list):
    """Client side bookkeeping of one training node: mixture ids its workers received and used."""

    def __init__(self):
        super().__init__()
        self.received = self.used = -1

    def __deepcopy__(self, memo):
        return self


def record(cl, log, ids, dom):
    """Wrap the client of a training node such that every loader worker records its chunks."""
    stream, chunks = cl.stream_results, cl._stream_result_chunks
    k = log.k
    cur = {}

    def recv(*a, **kw):
        t0 = k.steps
        for ch in chunks(*a, **kw):
            cur[id(K.current().proc)] = [t0, k.steps, ch.mixture_id, True]
            ids.received = max(ids.received, ch.mixture_id)
            yield ch
            t0 = k.steps
        log.ends.append((t0, k.steps))

    def results(args):
        num = -1
        key = (args.dp_group_id, args.worker_id)
        for item in stream(args):
            st = cur[id(K.current().proc)]
            if st[3]:
                st[3] = False
                num += 1
                rec = log.chunks.setdefault((*key, num), [st[0], st[1], {}, st[2]])
                rec[0], rec[1] = min(rec[0], st[0]), min(rec[1], st[1])
                check(rec[3] == st[2], "mixture-id-differs", lambda: f"chunk {num} of group, worker {key}: ids {rec[3]} and {st[2]}")
            _, kid, s = item
            check(s in dom, "unknown-sample", lambda: s[:80])
            rec[2].setdefault(args.node_id, collections.Counter())[dom[s]] += 1
            rec[2].setdefault(("kid", args.node_id), set()).add((kid, dom[s]))
            ids.used = max(ids.used, st[2])
            yield item

    cl._stream_result_chunks, cl.stream_results = recv, results


def train(w):
    """All ranks of a training read through the torch dataset and report every step; only rank 0 reports to the server."""
    import torch

    from checks import p19
    from mixtera.core.query.mixture import MixtureSchedule, ScheduleEntry, StaticMixture
    from mixtera.core.query.mixture.dynamic_mixture import DynamicMixture
    from mixtera.torch import MixteraTorchDataset
    from mixtera.utils.feedback import handle_mixtera_feedback

    k = w.k
    CALLS.clear()
    specs, dom, total = world(w)
    size = (4, 6, 8)[w.ch(3)]
    D, N = w.pick(((1, 1), (2, 1), (1, 2), (2, 2)))
    W = w.ch(3)
    hf = w.flip(1, 3)
    batch = 1 + w.ch(5)
    dyn = w.flip()
    if dyn:
        wt = {("lang", "en"): 0.5, ("lang", "de"): 0.25, ("lang", "fr"): 0.25}
        script = [None if w.flip(1, 4) else {i: 1 + w.ch(4) for i in range(3)} for _ in range(1 + w.ch(5))]
        mix = DynamicMixture(size, StaticMixture(size, {c.mixkey(**{p: v}): x for (p, v), x in wt.items()}, strict=False), Scripted("a", script), strict=False)
        model = []
    else:
        ents = gen_entries(w, size)
        model = [(st, e if isinstance(e, Entry) else AnyRows(total, e, size)) for st, _, e in ents]
        mix = MixtureSchedule(size, [ScheduleEntry(st, f()) for st, f, _ in ents])
    what = f"{'dynamic ' + str(script) if dyn else 'schedule ' + str(model)} size {size} D{D} N{N} W{W} batch {batch} {'hf' if hf else ''}"
    log = Log(k)
    sv = c.Served(w)
    c.register_all(w, sv.client, specs)
    reports = []  # of rank 0: (used before, received after, step, losses, counts)
    as_torch = w.flip()

    def body(d, n):
        cl = w.remote()
        ids = Script()
        record(cl, log, ids, dom)
        args = (cl, w.query("job", ()), c.exec_args(mix, D, N, max(W, 0)), c.stream_args("job", d, n, 0, chunk_reading_window_best_effort=True))
        if hf:
            from datasets.distributed import split_dataset_by_node

            from mixtera.hf import MixteraHFDataset

            ds = split_dataset_by_node(MixteraHFDataset(*args), rank=d, world_size=D)
        else:
            ds = MixteraTorchDataset(*args, return_key_id=True)
        sinks = collections.defaultdict(list)
        note = p19.Note(sinks, d, n)
        ld = p19.Loader(w, ds, W, batch, 1 + w.ch(2), note) if W else torch.utils.data.DataLoader(ds, batch_size=batch, num_workers=0, collate_fn=p19.Same(note, 0))
        src = ds if isinstance(ld, p19.Loader) or w.flip() else ld
        step = 0
        for b in ld:
            step += 1
            b = [(x["key_id"], x["text"]) if hf else x for x in b]
            nd = 1 + max(kid for kid, _ in b)
            ls, cs = np.zeros(nd, dtype=np.float32), np.zeros(nd, dtype=np.int64)
            for kid, s in b:
                ls[kid] += 1 + len(s) % 5
                cs[kid] += 1
            if k.rare("s", 0.05, 4):
                k.sleep((0.01, 0.3, 3.0)[k.choose("s", 3)], "step")
            full = dyn or w.flip()
            args = (torch.tensor(ls), torch.tensor(cs)) if as_torch else (ls, cs)
            if not full:
                args = (None, None)
            first = (d, n) == (0, 0)
            if first:
                log.sent.append((k.steps, step))
                lo = ids.used
            handle_mixtera_feedback(src, step, *args, d, n)
            if first:
                log.acked.append((k.steps, step))
                reports.append((lo, ids.received, step, ls, cs))
                if w.flip(1, 6):  # another pipeline stage of the same rank repeats the step without losses
                    handle_mixtera_feedback(src, step, None, None, d, n)

    hs = [w.proc(f"t{d}.{n}", lambda d=d, n=n: body(d, n)) for d in range(D) for n in range(N)]
    for h in hs:
        w.join(h)
        if h.exc is not None:
            raise h.exc
    if dyn:
        got = [(a, b, m) for tag, _, a, b, m, _, _ in CALLS if tag == "a"]
        check([(a, b) for a, b, _ in got] == [(ls.tolist(), cs.tolist()) for _, _, _, ls, cs in reports], "reports-differ", lambda: f"the algorithm got {got}, the training reported {reports}; {what}")
        for (_, _, m), (lo, hi, st, _, _) in zip(got, reports):
            check(lo <= m <= hi, "wrong-mixture-id", lambda: f"step {st} was reported with mixture id {m}; the training had used chunks up to id {lo} and received up to {hi}; {what}")
        nch = len(log.chunks)
    else:
        def allowed(t0, t1):
            lo = max([s for t, s in log.acked if t <= t0], default=0)
            hi = max([s for t, s in log.sent if t <= t1], default=0)
            out = []
            for s in sorted({lo, hi} | {st for st, _ in model if lo < st <= hi}):
                e = next((e for st, e in reversed(model) if st <= s), model[0][1])
                if e not in out:
                    out.append(e)
            return out

        nch = verify(log, D, max(W, 1), total, allowed, size, what, len(model))
    return dict(what=f"{what} {nch} chunks, {len(reports)} reports", nontrivial=nch > 1 and len(reports) > 1)


def flaky(w):
    """Connections of reporting nodes are cut, stall or are refused."""
    from checks import p11

    if not w.flip(1, 3):
        return None
    f = p11.Faults(w, names=("f",))
    f.on()
    return f


def slow(w, cl):
    return cl


def pause(w):
    k = w.k

    def hook(s, kid):
        if k.rare("s", 0.08, 4):
            k.sleep((0.002, 0.02, 0.2, 1.0)[w.ch(4)], "think")

    return hook


def dynamic(w):
    from mixtera.core.query.mixture import InferringMixture, StaticMixture
    from mixtera.core.query.mixture.dynamic_mixture import DynamicMixture

    k = w.k
    CALLS.clear()
    specs, dom, total = world(w)
    size = (4, 6, 8)[w.ch(3)]
    strict = w.flip(2, 3)
    inferring = w.flip(1, 3)
    script = []
    for _ in range(1 + w.ch(5)):
        if w.flip(1, 5):
            script.append(None)
        else:
            script.append({i: 1 + w.ch(4) for i in range(6) if w.flip()} or {0: 1})
    sz = size if w.flip(3, 4) else size * 2
    if inferring:
        init, first = InferringMixture(sz, strict=strict), AnyRows(total, strict, size)
    else:
        wt = {("lang", "en"): 0.5, ("lang", "de"): 0.25, ("lang", "fr"): 0.25}
        init, first = StaticMixture(sz, {c.mixkey(**{p: v}): x for (p, v), x in wt.items()}, strict=strict), Entry(rnd(size, wt), strict, "initial")
    mix = DynamicMixture(size, init, Scripted("a", script), strict=strict)
    served = w.flip(3, 4)
    D, N, W = w.pick(((1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1))) if served else (1, 1, 0)
    log = Log(k)
    what = f"dynamic {script} size {size} initial {first} D{D} N{N} W{W}"
    results = lambda: [(t, r) for tag, t, _, _, _, r, _ in CALLS if tag == "a" and r is not None]  # noqa: E731
    cache = {}

    def entry(i):
        """Composition a result stands for: domain ids are assigned in the order of the sorted keys at the start."""
        if i < 0:
            return first
        if i not in cache:
            r = results()[i][1]
            cache[i] = Result(r, strict, size, names, inferring)
        return cache[i]

    def allowed(t0, t1):
        rs = results()
        lo = max([i for i, (t, _) in enumerate(rs) if t <= t0], default=-1)
        hi = max([i for i, (t, _) in enumerate(rs) if t <= t1], default=-1)
        return [entry(i) for i in range(lo, hi + 1)]

    def seen_ids(s, kid):
        names.setdefault(kid, set()).add(dom[s])

    names = {}
    if served:
        sv = c.Served(w)
        c.register_all(w, sv.client, specs)
        c.run_query(w, sv.client, "job", mix, dp=D, nodes=N, workers=W)
        second = None
        if w.flip(1, 3):
            second = Scripted("b", [None])
            c.run_query(w, sv.client, "second", DynamicMixture(size, InferringMixture(size), second))
        pz = pause(w)
        faults = flaky(w)
        hs = []
        for key in [(d, n, x) for d in range(D) for n in range(N) for x in range(W)]:
            hs.append(w.proc(f"c{'.'.join(map(str, key))}", lambda key=key: consume(w, w.remote(), "job", key, log, dom, None, lambda s, kid: (seen_ids(s, kid), pz(s, kid)))))
        for i in range(1 + w.ch(2)):
            hs.append(w.proc(f"f{i}", lambda: feeder(w, w.remote, "job", log, [w.ch(20) for _ in range(1 + w.ch(8))], True, faults is not None)))
        for h in hs:
            w.join(h)
            if h.exc is not None:
                raise h.exc
    else:
        d = w.mkdir("loc")

        def body():
            cl = w.local(d)
            c.register_all(w, cl, specs)
            c.run_query(w, cl, "job", mix)
            every = 1 + w.ch(9)
            cnt = [0]

            def hook(s, kid):
                seen_ids(s, kid)
                cnt[0] += 1
                if cnt[0] % every == 0:
                    feeder(w, lambda: cl, "job", log, [cnt[0]], True)

            consume(w, cl, "job", (0, 0, 0), log, dom, None, hook)

        h = w.proc("local", body)
        w.join(h)
    n = verify(log, D, W, total, allowed, size, what, 1 + len(results()))
    # every acknowledged report reached the algorithm of its job exactly once, a failed one at most once, and unchanged
    one = lambda fb: (tuple(fb.losses.tolist()), tuple(fb.counts.tolist()), fb.mixture_id)  # noqa: E731
    got = collections.Counter((tuple(a), tuple(b), m) for tag, _, a, b, m, _, _ in CALLS if tag == "a")
    acked, sent = collections.Counter(one(fb) for fb, _, t in log.fb if t is not None), collections.Counter(one(fb) for fb, _, _ in log.fb)
    check(not acked - got and not got - sent, "reports-differ", lambda: f"the algorithm got {got}, the training sent {sent}, acknowledged {acked}; {what}")
    check(not any(tag == "b" for tag, *_ in CALLS), "wrong-job", lambda: f"another job's algorithm was informed; {what}")
    for *_, init_mix in CALLS:
        check(abs(init_mix.sum() - 1) < 1e-4 and (init_mix >= 0).all(), "initial-mixture", lambda: f"the algorithm was told the initial mixture {init_mix}; {what}")
    return dict(what=f"{what} {n} chunks, {len(log.acked)} reports", nontrivial=n > 1 and len({m[3] for m in log.chunks.values()}) > 1)


class Result(Entry):
    """Mixture returned by the algorithm: weights per domain id. Every domain gets its share of the chunk, rounded up or down."""

    def __init__(self, r, strict, size, names, exact):
        self.exact, self.r, self.strict, self.size, self.names, self.name = exact, r, strict, size, names, "result"
        tot = float(sum(v for v in r if v > 0))
        self.rows = {i: (math.floor(size * v / tot - 1e-6), math.ceil(size * v / tot + 1e-6)) for i, v in enumerate(r) if v > 0}

    def doms(self, kid):
        """Domains that samples with this id can have: known from the samples delivered with it."""
        return self.names.get(kid)

    def fits(self, comp, size):
        if sum(comp.values()) != size:
            return False
        used = set()
        for kid, (lo, hi) in self.rows.items():
            ds = self.doms(kid)
            if ds is None and lo > 0 and self.strict:
                return False
            used |= closure(ds or (), self.exact)
        if any(v and d not in used for d, v in comp.items()):
            return False
        if not self.strict:
            return True
        groups = [(closure(self.doms(kid) or (), self.exact), n) for kid, n in self.rows.items()]
        for ds, n in groups:
            have = sum(comp.get(d, 0) for d in ds)
            lo = sum(m[0] for e, m in groups if e and e <= ds)
            hi = sum(m[1] for e, m in groups if e & ds)
            if not lo <= have <= hi:
                return False
        return True

    def fits_left(self, left):
        """True only if it could be filled for sure; which domains an id stands for is only known from what was delivered."""
        groups = []
        for kid, n in self.rows.items():
            if self.doms(kid) is None:
                return False
            groups.append((set(self.doms(kid)), closure(self.doms(kid), self.exact), n[1]))
        if not self.strict:
            return sum(left[d] for d in set().union(*[g[0] for g in groups])) >= self.size
        if any(g[1] & f[1] for i, g in enumerate(groups) for f in groups[:i]):
            return False  # overlapping domains: whether they could be filled depends on the order
        return all(sum(left[d] for d in ds) >= n for ds, _, n in groups)

    def __repr__(self):
        return f"result{self.rows}"


def closure(ds, exact):
    """The widest domain with which these samples can have been delivered under one id."""
    ds = set(ds)
    if not ds or (exact and len(ds) == 1):
        return ds
    langs, lics = {a for a, _ in ds}, {b for _, b in ds}
    if len(langs) == 1:
        return {d for d in DOMS if d[0] in langs}
    if len(lics) == 1:
        return {d for d in DOMS if d[1] in lics}
    return set(DOMS)


SCENARIOS = [Scenario("schedule", schedule, 3), Scenario("dynamic", dynamic, 2), Scenario("train", train, 2)]
QUICK = dict(runs=900, secs=32.0)
