"""P01: at most once, nothing dropped."""
from checks.common import *  # noqa: F401,F403
from checks import common as c
from sim.runner import Scenario
from sim.world import Violation, check

PROP = "P01"
CONDS = [(), ([("lang", "==", "en")],), ([("lang", "==", ["en", "de"])],), ([("lic", "!=", "mit")],)]


def oracle(w, streams, exp, nodes, complete):
    """streams: {(dp, node, worker): items}"""
    dps = sorted({k[0] for k in streams})
    owner = {}
    for dp in dps:
        for node in range(nodes):
            seen = set()
            for (d, n, wk), items in sorted(streams.items()):
                if d != dp or n != node:
                    continue
                for idx, key, s in items:
                    check(s in exp, "foreign-sample", lambda: f"stream {(d, n, wk)} delivered {s!r}, which is not in the query result")
                    check(s not in seen, "duplicate-in-view", lambda: f"dp {dp} node {node}: {s!r} delivered twice (worker {wk})")
                    seen.add(s)
                    o = owner.setdefault(s, dp)
                    check(o == dp, "duplicate-across-groups", lambda: f"{s!r} delivered to groups {o} and {dp}")
    if complete:
        for node in range(nodes):
            got = {it[2] for (d, n, _), items in streams.items() if n == node for it in items}
            miss = sorted(set(exp) - got)
            check(not miss, "dropped-samples", lambda: f"node {node}: {len(miss)} of {len(exp)} samples never delivered, e.g. {miss[:5]}")
    return sum(len(v) for v in streams.values())


def setup_job(w, client, dp, nodes, workers, kinds=("arb", "arb", "strict", "best", "infer"), multi=False):
    specs = c.corpus(w, kinds=("jsonl", "jsonl", "parquet"), lines=(3, 14))
    c.register_all(w, client, specs)
    conds = w.pick(CONDS)
    mix, desc = c.gen_mixture(w, kinds=kinds)
    exp = c.expected(specs, conds)
    c.run_query(w, client, "job", mix, conds, dp, nodes, workers)
    return specs, exp, desc


def local_interleaved(w):
    """In-process: all streams of all groups, nodes and workers are consumed by interleaving generators."""
    client = w.local(w.mkdir("loc"))
    dp, nodes, workers = 1 + w.ch(3), 1 + w.ch(2), 1 + w.ch(3)
    specs, exp, desc = setup_job(w, client, dp, nodes, workers)
    gens = {(d, n, k): client.stream_results(c.stream_args("job", d, n, k)) for d in range(dp) for n in range(nodes) for k in range(workers)}
    out = {k: [] for k in gens}
    live = sorted(gens)
    burst = 1 + w.ch(6)
    while live:
        key = live[w.k.choose("s", len(live))]
        for _ in range(burst):
            try:
                out[key].append(next(gens[key]))
            except StopIteration:
                live.remove(key)
                break
    n = oracle(w, out, exp, nodes, desc["kind"] == "arb")
    return dict(what=f"local dp={dp} nodes={nodes} workers={workers} {desc}: {n} samples of {len(exp)}", nontrivial=n > 0)


def forked(w):
    """Local data-loader workers: forked processes share only the shared-memory chunk counter."""
    from sim import sync

    client = w.local(w.mkdir("loc"))
    workers = 2 + w.ch(3)
    specs, exp, desc = setup_job(w, client, 1, 1, workers, kinds=("arb", "arb", "strict", "best"))
    q = [sync.MpQueue(plain=True) for _ in range(workers)]

    def body(i):
        think = c.thinker(w)
        n = 0
        for it in client.stream_results(c.stream_args("job", 0, 0, i)):
            q[i].put(("item", it))
            n += 1
            think(n)
        q[i].put(("end", n))

    ps = []
    for i in range(workers):
        p = sync.Process(target=body, args=(i,), daemon=True, name=f"loader{i}")
        p.start()
        ps.append(p)
    out = {(0, 0, i): [] for i in range(workers)}
    for i in range(workers):
        while True:
            w.wait(lambda: q[i]._avail() or not ps[i]._p.alive, None, "collect")
            if not q[i]._avail():
                raise Violation("worker-died", f"loader worker {i} died with exit code {ps[i].exitcode}: {getattr(ps[i]._p.main, 'exc', None)!r}")
            kind, v = q[i].get()
            if kind == "end":
                break
            out[(0, 0, i)].append(v)
    n = oracle(w, out, exp, 1, desc["kind"] == "arb")
    return dict(what=f"forked workers={workers} {desc}: {n} samples of {len(exp)}", nontrivial=n > 0)


def served(w):
    """Server with one client process per (group, node, worker)."""
    sv = c.Served(w)
    dp, nodes, workers = 1 + w.ch(3), 1 + w.ch(2), w.ch(3)
    specs, exp, desc = setup_job(w, sv.client, dp, nodes, workers)
    nw = max(1, workers)
    keys = [(d, n, k) for d in range(dp) for n in range(nodes) for k in range(nw)]
    tunnel = w.flip(1, 4) and all(s.kind == "jsonl" for s in specs)

    def body(key, sink):
        client = w.remote()
        c.consume(client, c.stream_args("job", *key, tunnel_via_server=tunnel), think=c.thinker(w, 0.02), sink=sink)

    out = c.run_consumers(w, keys, body)
    n = oracle(w, out, exp, nodes, desc["kind"] == "arb")
    return dict(what=f"server dp={dp} nodes={nodes} workers={workers} tunnel={tunnel} {desc}: {n} samples of {len(exp)}", nontrivial=n > 0)


SCENARIOS = [Scenario("local", local_interleaved, 2), Scenario("forked", forked, 3), Scenario("served", served, 3)]
