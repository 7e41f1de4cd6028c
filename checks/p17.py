"""P17: reading a chunk with several reader processes delivers what one reader delivers, or an error."""
import collections
import copy

from checks import common as c
from checks.p15 import damage, drain, token_args
from sim import kernel as K
from sim import sync
from sim.runner import Scenario
from sim.world import check

PROP = "P17"

# texts a user's data may contain; a parsing function returns them unchanged
RAW = ("END_OF_STREAM", "EOS", "", "None", "StopIteration", "EndOfStream(error=None)", "('END_OF_STREAM',)")

_RAW = """
def parsing(x):
    import json as j

    d = j.loads(x) if isinstance(x, (str, bytes)) else x
    for key in ("text", ".txt", "txt"):
        if key in d:
            t = d[key]
            break
    if isinstance(t, bytes):
        t = t.decode("utf-8")
    return {raw!r}.get(t, t)
"""


def build(w, client):
    """Registered corpora; some samples are texts that look like control messages."""
    specs = c.corpus(w, kinds=("jsonl", "jsonl", "parquet", "web"), lines=(4, 14))
    check(w.register_parser(client), "setup:parser", "")
    raw = {}
    if w.flip():
        every = [s for sp in specs for s in sp.samples]
        for r in RAW:
            if w.flip(1, 3):
                s = every[w.ch(len(every))]
                raw.setdefault(s.text, r)
    from mixtera.core.datacollection.datasets import JSONLDataset, ParquetDataset, WebDataset

    for s in specs:
        if not raw:
            check(w.register(client, s), "setup:register", s.name)
            continue
        ns = {"__name__": "__main__"}
        exec(_RAW.format(raw=raw), ns)
        cls = {"jsonl": JSONLDataset, "parquet": ParquetDataset, "web": WebDataset}[s.kind]
        check(client.register_dataset(s.name, s.loc, cls, ns["parsing"], "VP"), "setup:register", s.name)
    return specs, raw


def read_mode(w):
    kind = w.ch(4)
    if kind <= 1:
        return {}
    if kind == 2:
        return dict(chunk_reading_mixture_type="window", chunk_reading_window_size=1 + w.ch(9), chunk_reading_window_best_effort=w.flip())
    kw = token_args(w)
    kw["chunk_reading_token_separate_thread"] = w.flip()
    return kw


def killer(w, started):
    """Kill one reader process after a seeded number of scheduling steps of its life."""
    k = w.k
    nth, when, code = w.ch(4), (0, 1, 2, 3, 5, 8, 13, 21, 34, 60)[w.ch(10)], w.pick((-9, -9, -11, 1))
    slow = w.flip(1, 2)

    def body():
        if not k.wait_until(lambda: len(started) > nth, 3000, "killer"):
            return
        p = started[nth]
        if slow:
            k.sleep((0.01, 0.05, 1.0, 89.0)[w.ch(4)], "killer")
        for _ in range(when):
            k.yield_("killer")
        if p.alive:
            k.count("fault:reader-kill")
            started.killed = True
            k.kill(p, code)

    w.thread(body, "killer")


class Shared(sync._Shared, list):
    """A list of the harness; forked processes append to the same one."""


class Started(list):
    killed = False


def norm(items):
    """A stream as chunks of (key id, sample); the index is checked separately."""
    return [[(x[1], str(x[2])) for x in ch] for ch in c.chunks_of(items)]


def compare(a, b, kw, desc):
    """Sequential stream a and parallel stream b, both complete."""
    ca, cb = norm(a), norm(b)
    typ = kw.get("chunk_reading_mixture_type", "simple")
    best = typ == "simple" or (typ == "window" and kw["chunk_reading_window_best_effort"])
    for ch in c.chunks_of(b):
        check([x[0] for x in ch] == list(range(len(ch))), "index", lambda: f"{desc}: indices {[x[0] for x in ch]}")
    if best:
        check(len(ca) == len(cb), "different-samples", lambda: f"{desc}: {len(ca)} chunks sequentially, {len(cb)} in parallel")
        for x, y in zip(ca, cb):
            check(sorted(x) == sorted(y), "different-samples", lambda: f"{desc}: {c.diff(x, y)}")
        return
    if typ == "window":  # strict windows: the same mixture, at the same positions
        check([[q[0] for q in x] for x in ca] == [[q[0] for q in x] for x in cb], "different-mixture", lambda: f"{desc}: {ca} vs {cb}")
        return
    # token mode: files are concatenated in another order, so sequences differ; their number per key may differ
    # only by what remains at the end, and each key's first sequences are available in both
    na, nb = collections.Counter(q[0] for x in ca for q in x), collections.Counter(q[0] for x in cb for q in x)
    check(set(na) == set(nb), "different-mixture", lambda: f"{desc}: keys {na} vs {nb}")


def streams(w, fault="none"):
    k = w.k
    client = w.local(w.mkdir("loc"))
    specs, raw = build(w, client)
    mix, mdesc = c.gen_mixture(w)
    dop = (2, 3, 4, 8, 16)[w.ch(5)]
    kw = read_mode(w)
    kw["chunk_reading_prefetch_first_sample"] = w.flip(1, 3)
    for j in ("seq", "p1", "p2"):
        c.run_query(w, client, j, copy.deepcopy(mix))
    started = Started()
    if fault == "data":
        spec = specs[w.ch(len(specs))]
        damage(w, spec, spec.samples[w.ch(len(spec.samples))], w.pick(("parse", "file")))
    elif fault == "kill":
        k.cfg["on_mp_start"] = lambda p, _: started.append(p)
        killer(w, started)
    elif fault == "fork":
        n = [w.ch(6)]

        def bad(proc):
            n[0] -= 1
            return n[0] == -1

        k.cfg["fork_fault"] = bad
    res = {}
    for j in ("p1", "p2") if fault == "kill" else ("p1",) if fault == "fork" else ("seq", "p1", "p2"):
        sink = []
        d = 1 if j == "seq" else dop
        res[j] = (sink, drain(client.stream_results(c.stream_args(j, chunk_reading_degree_of_parallelism=d, **kw)), sink, c.thinker(w, 0.02)))
    if "seq" not in res:
        sink = []
        k.cfg["fork_fault"] = None
        res["seq"] = (sink, drain(client.stream_results(c.stream_args("seq", **kw)), sink))
    desc = f"{mdesc} dop={dop} {kw} raw={raw} fault={fault}{'!' if started.killed else ''}"
    (a, ea) = res["seq"]
    if fault == "data":
        if kw.get("chunk_reading_mixture_type", "simple") == "simple" and ea != "end":
            for j in ("p1", "p2"):
                check(res[j][1] != "end", "error-swallowed", lambda: f"{desc}: sequential reading fails with {ea}, parallel reading ends regularly after {len(res[j][0])} samples")
    else:
        check(ea == "end", "spurious-error", lambda: f"{desc}: {ea}")
    for j in ("p1", "p2"):
        if j not in res:
            continue
        b, eb = res[j]
        if fault == "none":
            check(eb == "end", "spurious-error", lambda: f"{desc}: {eb}")
        if eb == "end" and ea == "end":
            compare(a, b, kw, desc)
        elif eb != "end":
            # what was delivered before the error is a prefix of the job: complete chunks and one partial one
            nb = norm(b)
            if kw.get("chunk_reading_mixture_type", "simple") == "simple":
                na = norm(a)
                for i, x in enumerate(nb):
                    if i < len(na) - (ea != "end"):  # the last chunk of a failed sequential reader is incomplete, too
                        bad = collections.Counter(x) - collections.Counter(na[i])
                        full = i < len(nb) - 1
                        check(not bad and (not full or len(x) == len(na[i])), "different-samples", lambda: f"{desc}: chunk {i} {x} vs {na[i]}")
    if fault == "none":
        check(res["p1"] == res["p2"], "not-reproducible", lambda: f"{desc}: repeated parallel reading delivered another order")
    total = len(a)
    ends = {j: (len(r[0]), r[1] if isinstance(r[1], str) else r[1].__name__) for j, r in res.items()}
    return dict(what=f"{desc}: {ends}", nontrivial=total > 0)


def served(w):
    """A server, several workers on several nodes, each with parallel chunk reading."""
    sv = c.Served(w)
    specs, raw = build(w, sv.client)
    mix, mdesc = c.gen_mixture(w)
    nodes, workers = 1 + w.ch(2), 1 + w.ch(2)
    for j in ("seq", "par"):
        c.run_query(w, sv.client, j, copy.deepcopy(mix), (), 1, nodes, workers)
    dops = (2, 3, 8)[w.ch(3)]
    kw = dict(chunk_reading_prefetch_first_sample=w.flip())

    def body(key, sink):
        j, n, q = key
        c.consume(w.remote(), c.stream_args(j, 0, n, q, chunk_reading_degree_of_parallelism=1 if j == "seq" else dops, **kw), sink=sink)

    out = c.run_consumers(w, [(j, n, q) for j in ("seq", "par") for n in range(nodes) for q in range(workers)], body)
    sets = {j: sorted(sorted(ch) for q in range(workers) for ch in norm(out[(j, 0, q)])) for j in ("seq", "par")}
    desc = f"{mdesc} nodes={nodes} workers={workers} dop={dops} raw={raw}"
    check(sets["seq"] == sets["par"], "different-samples", lambda: f"{desc}: {c.diff([x for y in sets['seq'] for x in y], [x for y in sets['par'] for x in y])}")
    for n in range(1, nodes):
        for q in range(workers):
            check(out[("par", n, q)] == out[("par", 0, q)], "nodes-differ", lambda: f"{desc}: node {n} worker {q}")
    return dict(what=desc, nontrivial=bool(sets["seq"]))


def left(w):
    """A training program (or a loader worker of it) stops reading early, fails or is killed: nothing of it remains."""
    k = w.k
    d = w.mkdir("loc")
    dop = (2, 3, 4, 8)[w.ch(4)]
    kw = read_mode(w)
    kw["chunk_reading_prefetch_first_sample"] = w.flip(1, 4)
    how = w.pick(("end", "end", "error", "kill", "kill"))
    n, w_late = w.ch(12), w.flip()
    nested = w.flip(1, 3)
    started, got, ready = Started(), Shared(), Shared()
    k.cfg["on_mp_start"] = lambda p, _: started.append(p)
    mdesc = []

    def read(client):
        it = client.stream_results(c.stream_args("job", chunk_reading_degree_of_parallelism=dop, **kw))
        think = c.thinker(w, 0.02)
        for x in it:
            got.append(x)
            think(len(got))
            if len(got) > n:
                break
        if how == "error":
            raise ValueError("the training fails")
        ready.append(it)
        if how == "kill":
            k.sleep(1000, "training")

    def program():
        me = k.cur.proc
        me.joins = True
        client = w.local(d)
        build(w, client)
        mix, md = c.gen_mixture(w)
        mdesc.append(md)
        c.run_query(w, client, "job", mix)
        if not nested:
            read(client)
            return
        p = sync.Process(target=read, args=(client,), name="loader", daemon=w.flip())
        p.start()
        if how == "end" and not p.daemon:
            return
        k.wait_until(lambda: ready or not p._p.alive, 500, "training")
        if how == "kill" and w.flip():
            k.sleep(1000, "training")

    h = w.proc("program", program)
    if how == "kill":
        # while it reads, or when it has something and waits
        if not k.wait_until(lambda: ready or (started and not w_late) or not h.proc.alive, 600, "killer"):
            check(False, "stuck", lambda: f"{mdesc} dop={dop} {kw}: the program has not read anything in 600 s")
        for _ in range((0, 1, 2, 5, 13, 40)[w.ch(6)]):
            k.yield_("killer")
        victims = [h.proc] + [p for p in started if p.name.endswith("#loader")]
        v = victims[w.ch(len(victims))]
        if v.alive:
            k.kill(v)
        if v is not h.proc and h.proc.alive:
            k.wait_until(lambda: not h.proc.alive, 2000, "program")

    def rest():
        return [p.name for p in [h.proc, *started] if p.alive]

    ok = k.wait_until(lambda: not rest(), 3000, "end")
    desc = f"{mdesc} dop={dop} {kw} nested={nested} how={how}, {len(got)} samples read"
    check(ok, "stuck", lambda: f"{desc}: 3000 s later these processes have not ended: {rest()}")
    return dict(what=desc, nontrivial=bool(got) and bool(started))


SCENARIOS = [Scenario("plain", streams, 3), Scenario("killed", lambda w: streams(w, "kill"), 3, knobs=dict(mp_cap=[0, 1, 1, 2, 3], mp_big=[0, 1, 1])), Scenario("damaged", lambda w: streams(w, "data"), 2),
             Scenario("fork", lambda w: streams(w, "fork"), 1), Scenario("served", served, 1), Scenario("left", left, 2, knobs=dict(mp_cap=[0, 1, 2, 3], mp_big=[0, 1]))]
QUICK = dict(runs=900, secs=32.0)
