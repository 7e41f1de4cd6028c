"""P03: the data sequence of a job does not depend on anything but data, query, mixture and configuration."""
import json
import os
import subprocess
import sys

from checks import common as c
from checks.p02 import first_diff
from sim.runner import Scenario
from sim.world import PORT, check, digest

PROP = "P03"
CONDS = [(), ([("lang", "==", ["en", "de"])],), ([("lang", "==", "en")], [("lic", "==", "mit")]), ([("lic", "!=", "mit")],)]


def job_config(w, served):
    kind = w.ch(4)
    cfg = dict(conds=w.pick(CONDS), dp=1, nodes=1, workers=1 + w.ch(3), kw={})
    if served:
        cfg["dp"], cfg["nodes"] = 1 + w.ch(2), 1 + w.ch(2)
    if kind == 1:
        cfg["kw"] = dict(chunk_reading_mixture_type="window", chunk_reading_window_size=2 + w.ch(5), chunk_reading_window_best_effort=w.flip())
    return cfg


def mixture_maker(w):
    """gen_mixture draws choices; every environment needs its own, equal mixture object."""
    import copy

    m, d = c.gen_mixture(w, kinds=("arb", "strict", "best", "best", "infer"))
    w.notes.append(str(d))
    return (lambda: copy.deepcopy(m)), d


def chunk_list(streams):
    """Per (dp, node, worker) the list of chunks."""
    return {k: [tuple(x) for x in c.chunks_of(v)] for k, v in streams.items()}


def local_env(w, name, specs, mk, cfg, job="job", directory=None, reg=True):
    d = directory or w.mkdir(name)
    client = w.local(d)
    if reg:
        c.register_all(w, client, specs)
    c.run_query(w, client, job, mk(), cfg["conds"], 1, 1, cfg["workers"])
    gens = {(0, 0, k): client.stream_results(c.stream_args(job, 0, 0, k, **cfg["kw"])) for k in range(cfg["workers"])}
    out = {k: [] for k in gens}
    live = sorted(gens)
    while live:
        for key in list(live):  # a strict round robin by chunk: worker k gets chunks k, k + workers, ...
            try:
                it = next(gens[key]) if not hasattr(gens[key], "_pend") else None
                out[key].append(tuple(it))
            except StopIteration:
                live.remove(key)
    return out


def drain_by_chunk(gens):
    """Ask for the chunks in the canonical order 0, 1, 2, ... (one whole chunk per turn)."""
    out = {k: [] for k in gens}
    head = {}
    live = sorted(gens)
    for k in list(live):
        try:
            head[k] = tuple(next(gens[k]))
        except StopIteration:
            live.remove(k)
    while live:
        for k in list(live):
            out[k].append(head[k])
            while True:
                try:
                    it = tuple(next(gens[k]))
                except StopIteration:
                    live.remove(k)
                    break
                if it[0] <= head[k][0]:
                    head[k] = it
                    break
                head[k] = it
                out[k].append(it)
    return out


def collect(w, client, job, cfg):
    gens = {(d, n, k): client.stream_results(c.stream_args(job, d, n, k, **cfg["kw"]))
            for d in range(cfg["dp"]) for n in range(cfg["nodes"]) for k in range(cfg["workers"])}
    return drain_by_chunk(gens)


def compare(a, b, cfg, what):
    if cfg["dp"] == 1:
        for k in a:
            check(a[k] == b[k], "sequence-differs", lambda: f"{what}: stream {k}: {first_diff(a[k], b[k])}")
    else:
        ca = sorted(x for k, v in chunk_list(a).items() if k[1] == 0 for x in v)
        cb = sorted(x for k, v in chunk_list(b).items() if k[1] == 0 for x in v)
        check(ca == cb, "chunks-differ", lambda: f"{what}: {len(ca)} vs {len(cb)} chunks, {first_diff(ca, cb)}")


def twin_local(w):
    """Same data registered twice into two local catalogues (other listing order, other cpu count), plus a cached execution."""
    cfg = job_config(w, False)
    specs = c.corpus(w, kinds=("jsonl", "jsonl", "parquet"), lines=(4, 16), multi=w.flip(1, 4))
    mk, desc = mixture_maker(w)
    outs = []
    for i in range(2):
        w.k.cur.proc.cpu_count = (1, 2, 6, 16)[w.ch(4)]
        client = w.local(w.mkdir(f"l{i}"))
        c.register_all(w, client, specs)
        c.run_query(w, client, "job", mk(), cfg["conds"], 1, 1, cfg["workers"])
        outs.append(collect(w, client, "job", cfg))
    # the cached result, in the same process and in a fresh one
    c.run_query(w, client, "again", mk(), cfg["conds"], 1, 1, cfg["workers"])
    outs.append(collect(w, client, "again", cfg))

    def fresh():
        cl = w.local(w.path("l0"))
        c.run_query(w, cl, "job3", mk(), cfg["conds"], 1, 1, cfg["workers"])
        return collect(w, cl, "job3", cfg)

    close_db(client)
    for i, what in ((1, "second registration"), (2, "cached")):
        compare(outs[0], outs[i], cfg, what)
    n = sum(map(len, outs[0].values()))
    return dict(what=f"local workers={cfg['workers']} {desc} {cfg['kw']}: {n} items x3", nontrivial=n > 0, digest=digest(sorted(outs[0].items())))


def close_db(client):
    mdc = getattr(client, "_mdc", None)
    if mdc is not None and getattr(mdc, "_connection", None) is not None:
        mdc._connection.close()


def served_vs_local(w):
    """Fresh on a server, cached on the same server, after a server restart, and in process."""
    cfg = job_config(w, True)
    specs = c.corpus(w, kinds=("jsonl", "jsonl", "parquet"), lines=(4, 16), multi=w.flip(1, 4))
    mk, desc = mixture_maker(w)
    sv = c.Served(w, cpu=(2, 4, 16)[w.ch(3)])
    c.register_all(w, sv.client, specs)
    outs = []

    def one(job):
        c.run_query(w, sv.client, job, mk(), cfg["conds"], cfg["dp"], cfg["nodes"], cfg["workers"])
        outs.append((job, collect(w, sv.client, job, cfg)))

    one("fresh")
    if w.flip():
        one("cached")
    if w.flip(2, 3):
        sv.restart(kill=True)
        one("restarted")
    if cfg["dp"] == 1 and cfg["nodes"] == 1 and w.flip(2, 3):
        def body():
            client = w.local(w.mkdir("loc"))
            c.register_all(w, client, specs)
            c.run_query(w, client, "job", mk(), cfg["conds"], 1, 1, cfg["workers"])
            outs.append(("local", collect(w, client, "job", cfg)))
        w.join(w.proc("local", body))
    for name, o in outs[1:]:
        compare(outs[0][1], o, cfg, f"{outs[0][0]} vs {name}")
    n = sum(map(len, outs[0][1].values()))
    return dict(what=f"served dp={cfg['dp']} nodes={cfg['nodes']} workers={cfg['workers']} {desc} {[x[0] for x in outs]}: {n} items",
                nontrivial=n > 0 and len(outs) > 1, digest=digest(sorted(outs[0][1].items())))


def concurrent_jobs(w):
    """The same job submitted while other jobs execute and stream on the same server."""
    cfg = job_config(w, True)
    cfg["dp"] = cfg["nodes"] = 1
    specs = c.corpus(w, kinds=("jsonl",), lines=(4, 12))
    mk, desc = mixture_maker(w)
    sv = c.Served(w)
    c.register_all(w, sv.client, specs)
    c.run_query(w, sv.client, "ref", mk(), cfg["conds"], 1, 1, cfg["workers"])
    ref = collect(w, sv.client, "ref", cfg)
    n = 2 + w.ch(2)
    others = [mixture_maker(w)[0] for _ in range(n)]
    same = [w.flip() for _ in range(n)]
    oc = [w.pick(CONDS) for _ in range(n)]

    def body(i, sink):
        client = w.remote()
        if same[i]:
            c.run_query(w, client, f"j{i}", mk(), cfg["conds"], 1, 1, cfg["workers"])
            sink.append(collect(w, client, f"j{i}", cfg))
        else:
            c.run_query(w, client, f"j{i}", others[i](), oc[i], 1, 1, 1)
            sink.append(c.consume(client, c.stream_args(f"j{i}")))

    out = {k[0]: v for k, v in c.run_consumers(w, [(i,) for i in range(n)], lambda key, sink: body(key[0], sink)).items()}
    for i in range(n):
        if same[i]:
            compare(ref, out[i][0], cfg, f"ref vs concurrent job j{i}")
    tot = sum(map(len, ref.values()))
    return dict(what=f"concurrent same={same} {desc}: {tot} items", nontrivial=tot > 0 and any(same), digest=digest(sorted(ref.items())))


SCENARIOS = [Scenario("twin", twin_local, 3), Scenario("served", served_vs_local, 4), Scenario("concurrent", concurrent_jobs, 2)]


def extra(a, pool, report_bad, lim, digests):
    """The same seeds in interpreters with other hash seeds must deliver the same data."""
    import tempfile

    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    runs = 48 if a.tier == "quick" else 1500
    res = {}
    procs = []
    with tempfile.TemporaryDirectory(prefix="vh", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None) as td:
        for hs in ("0", "1", "4242"):
            env = dict(os.environ, VERIF_HASHSEED=hs, PYTHONHASHSEED=hs, VERIF_NOEXTRA="1")
            f = os.path.join(td, hs)
            procs.append((hs, f, subprocess.Popen([sys.executable, os.path.join(here, "check.py"), PROP, "--keep-going", "--digests", f, "--runs", str(runs),
                                                   "--seed", str(a.seed), "--slots", "3", "--secs", "400"], env=env, stdout=subprocess.DEVNULL,
                                                  stderr=subprocess.DEVNULL)))
        for hs, f, p in procs:
            p.wait()
            if os.path.exists(f):
                res[hs] = json.load(open(f))
    if len(res) < 3:
        return dict(hash_seed_comparison="not completed")
    n = 0
    for key in res["0"]:
        ds = {hs: res[hs].get(key, [None] * 4)[3] for hs in res}
        vals = set(ds.values()) - {None}
        n += 1
        if len(vals) > 1:
            sc, seed = key.rsplit("/", 1)
            report_bad(sc, int(seed), __import__("sim.runner").runner.make_knobs(int(seed), next(s for s in SCENARIOS if s.name == sc)),
                       dict(cls="hash-seed", msg=f"{key}: delivered data depends on PYTHONHASHSEED: {ds}", rec=None, h=0))
            break
    return dict(hash_seeds_compared=sorted(res), runs_compared=n)
