"""P02: nodes of one data-parallel group see identical streams."""
from checks import common as c
from sim.runner import Scenario
from sim.world import check

PROP = "P02"
CONDS = [(), ([("lang", "==", ["en", "de"])],), ([("lic", "!=", "mit")],)]


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"position {i}: {x!r} vs {y!r}"
    return f"lengths {len(a)} vs {len(b)}"


def oracle(out, dp, nodes, nw, jobs=("job",)):
    total = 0
    for job in jobs:
        for d in range(dp):
            for k in range(nw):
                ref = out[(job, d, 0, k)]
                total += len(ref)
                for n in range(1, nodes):
                    got = out[(job, d, n, k)]
                    check(got == ref, "nodes-differ",
                          lambda: f"job {job} dp {d} worker {k}: node 0 has {len(ref)} items, node {n} has {len(got)}; {first_diff(ref, got)}")
    return total


def read_args(w):
    kw = {}
    if w.flip(1, 3):
        kw.update(chunk_reading_mixture_type="window", chunk_reading_window_size=2 + w.ch(6), chunk_reading_window_best_effort=w.flip())
    if w.flip(1, 4):
        kw["chunk_reading_prefetch_first_sample"] = True
    return kw


def served(w, drift=False):
    sv = c.Served(w)
    dp, nodes, workers = 1 + w.ch(2), 2 + w.ch(2), w.ch(4)
    nw = max(1, workers)
    specs = c.corpus(w, kinds=("jsonl", "jsonl", "parquet"), lines=(4, 14), multi=w.flip(1, 4))
    c.register_all(w, sv.client, specs)
    jobs = ["job"] + (["job2"] if w.flip(1, 3) else [])
    descs = []
    for j in jobs:
        mix, desc = c.gen_mixture(w, kinds=("arb", "arb", "strict", "best", "infer"))
        c.run_query(w, sv.client, j, mix, w.pick(CONDS), dp, nodes, workers)
        descs.append(desc)
    kw = read_args(w)
    keys = [(j, d, n, k) for j in jobs for d in range(dp) for n in range(nodes) for k in range(nw)]
    lag = {(j, d, n): (0.0, 0.0, 1.0, 8.0)[w.ch(4)] for j in jobs for d in range(dp) for n in range(nodes)}
    out = {}

    def body(key, sink):
        j, d, n, k = key
        client = w.remote()
        if lag[(j, d, n)]:
            w.k.sleep(lag[(j, d, n)], "lag")
        c.consume(client, c.stream_args(j, d, n, k, **kw), think=c.thinker(w, 0.05), sink=sink)

    if drift:
        # whole nodes one after the other: maximal drift within a group, other groups in between
        order = w.k.choices.shuffle("w", [(d, n) for d in range(dp) for n in range(nodes)])
        for d, n in order:
            out.update(c.run_consumers(w, [x for x in keys if x[1] == d and x[2] == n], body))
    else:
        out = c.run_consumers(w, keys, body)
    total = oracle(out, dp, nodes, nw, jobs)
    return dict(what=f"{'drift' if drift else 'free'} dp={dp} nodes={nodes} workers={workers} {descs} {kw}: {total} items", nontrivial=total > 0)


def local(w):
    """One process, interleaved generators (the chunk distributor logic without a network)."""
    client = w.local(w.mkdir("loc"))
    dp, nodes, workers = 1 + w.ch(3), 2 + w.ch(3), 1 + w.ch(3)
    specs = c.corpus(w, kinds=("jsonl", "parquet"), lines=(3, 14), multi=w.flip(1, 4))
    c.register_all(w, client, specs)
    mix, desc = c.gen_mixture(w)
    c.run_query(w, client, "job", mix, w.pick(CONDS), dp, nodes, workers)
    gens = {("job", d, n, k): client.stream_results(c.stream_args("job", d, n, k))
            for d in range(dp) for n in range(nodes) for k in range(workers)}
    out = {k: [] for k in gens}
    live = sorted(gens)
    bias = w.ch(3)
    while live:
        key = live[0] if bias == 1 and w.ch(8) else live[w.k.choose("s", len(live))]
        for _ in range(1 + w.k.choose("s", 12)):
            try:
                out[key].append(next(gens[key]))
            except StopIteration:
                live.remove(key)
                break
    total = oracle(out, dp, nodes, workers)
    return dict(what=f"local dp={dp} nodes={nodes} workers={workers} {desc}: {total} items", nontrivial=total > 0)


SCENARIOS = [Scenario("served", served, 3), Scenario("drift", lambda w: served(w, True), 2), Scenario("local", local, 3)]
