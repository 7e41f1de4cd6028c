"""Shared scenario pieces: jobs, consumers, stream comparison."""
import collections

from sim import kernel as K
from sim.world import PORT, Violation, check, digest, props_match  # noqa: F401


def exec_args(mixture, dp=1, nodes=1, workers=0):
    from mixtera.core.client.mixtera_client import QueryExecutionArgs

    return QueryExecutionArgs(mixture=mixture, dp_groups=dp, nodes_per_group=nodes, num_workers=workers)


def stream_args(job, dp=0, node=0, worker=0, **kw):
    from mixtera.core.client.mixtera_client import ResultStreamingArgs

    kw.setdefault("chunk_reading_prefetch_first_sample", False)
    return ResultStreamingArgs(job_id=job, dp_group_id=dp, node_id=node, worker_id=worker, **kw)


def mixkey(**props):
    from mixtera.core.query.mixture import MixtureKey

    return MixtureKey({k: (list(v) if isinstance(v, (list, tuple)) else [v]) for k, v in props.items()})


def arbitrary(chunk):
    from mixtera.core.query.mixture import ArbitraryMixture

    return ArbitraryMixture(chunk)


def static(chunk, parts, strict=True):
    from mixtera.core.query.mixture import StaticMixture

    return StaticMixture(chunk, {mixkey(**dict(p)): wgt for p, wgt in parts.items()}, strict=strict)


def gen_mixture(w, langs=("en", "de", "fr"), lics=("mit", "apache"), kinds=("arb", "strict", "best", "infer")):
    """A random mixture: (object, description dict)."""
    from mixtera.core.query.mixture import InferringMixture

    kind = w.pick(kinds)
    chunk = (3, 4, 5, 7, 10, 16)[w.ch(6)]
    if getattr(w, "wide", None):
        chunk *= 1 + w.ch(4)
        langs, lics = w.wide
    if kind == "arb":
        return arbitrary(chunk), dict(kind=kind, chunk=chunk)
    if kind == "infer":
        strict = w.flip()
        return InferringMixture(chunk, strict=strict), dict(kind=kind, chunk=chunk, strict=strict)
    by = w.ch(3)
    vals = list(langs) if by == 0 else (list(lics) if by == 1 else None)
    parts = []
    if vals is not None:
        field = "lang" if by == 0 else "lic"
        n = min(len(vals), 1 + w.ch(len(vals)))
        parts = [((field, v),) for v in vals[:n]]
    else:
        combos = [(("lang", a), ("lic", b)) for a in langs for b in lics]
        k = min(2 + w.ch(2), len(combos))
        off = w.ch(len(combos))
        parts = [combos[(off + i) % len(combos)] for i in range(k)]
    wts = [1 + w.ch(3) for _ in parts]
    tot = sum(wts)
    chunk = max(chunk, len(parts))
    strict = kind == "strict"
    m = static(chunk, {p: x / tot for p, x in zip(parts, wts)}, strict)
    return m, dict(kind=kind, chunk=chunk, strict=strict, parts={";".join("=".join(q) for q in p): x for p, x in zip(parts, wts)})


def corpus(w, n=None, kinds=("jsonl",), **kw):
    """A few datasets; sometimes with many files that have few distinct properties, so that chunks span many files."""
    out = []
    w.wide = None
    if "langs" not in kw and not kw.get("fancy") and w.flip(1, 5):
        w.wide = ("en", "de")[:1 + w.ch(2)], ("mit", "apache")[:1 + w.ch(2)]
        for i in range(n if n is not None else 1 + w.ch(2)):
            out.append(w.dataset(f"d{i}", kind=w.pick(kinds), nfiles=1 + w.ch(7), langs=w.wide[0], lics=w.wide[1], **kw))
        return out
    for i in range(n if n is not None else 1 + w.ch(2)):
        out.append(w.dataset(f"d{i}", kind=w.pick(kinds), nfiles=1 + w.ch(3), **kw))
    return out


def register_all(w, client, specs):
    check(w.register_parser(client), "setup:parser", "register_metadata_parser returned false")
    for s in specs:
        check(w.register(client, s), "setup:register", f"register_dataset({s.name}) returned false")


def expected(specs, conds=()):
    out = {}
    for sp in specs:
        for s in sp.samples:
            if props_match(s.props, conds):
                out[sp.out(s)] = s
    return out


def run_query(w, client, job, mixture, conds=(), dp=1, nodes=1, workers=0):
    q = w.query(job, conds)
    check(client.execute_query(q, exec_args(mixture, dp, nodes, workers)), "setup:execute", f"execute_query({job}) returned false")
    check(client.wait_for_execution(job), "setup:wait", f"wait_for_execution({job}) returned false")
    return q


def consume(client, args, limit=None, think=None, sink=None):
    """All (index, key id, sample) items of one stream. `sink` collects them as they arrive."""
    out = sink if sink is not None else []
    g = client.stream_results(args)
    n = 0
    for item in g:
        out.append(tuple(item) if isinstance(item, (list, tuple)) else item)
        n += 1
        if think is not None:
            think(n)
        if limit is not None and n >= limit:
            break
    return out


def chunks_of(items):
    """Split a stream into chunks: the sample index restarts with every chunk."""
    out = []
    last = None
    for it in items:
        if last is None or it[0] <= last:
            out.append([])
        out[-1].append(it)
        last = it[0]
    return out


def thinker(w, p_stall=0.05):
    def think(n):
        if w.k.rare("s", p_stall, 4):
            w.k.sleep((0.01, 1.0, 30.0)[w.ch(3)], "think")

    return think


class Served:
    """A server process with a client used for set-up."""

    def __init__(self, w, cpu=None):
        self.w = w
        self.dir = w.mkdir("srv")
        self.h = w.server(self.dir, cpu=cpu)
        w.wait_server(self.h)
        self.client = w.remote()

    def restart(self, kill=True):
        if kill and self.h.proc.alive:
            self.w.k.kill(self.h.proc)
        self.h = self.w.server(self.dir)
        self.w.wait_server(self.h)
        return self.h


def run_consumers(w, keys, body, name="c"):
    """One simulated process per key, all joined; first exception re-raised. body(key, sink)."""
    sinks = {}
    hs = []
    for key in keys:
        sinks[key] = []
        hs.append((key, w.proc(f"{name}{'.'.join(map(str, key))}", lambda key=key: body(key, sinks[key]))))
    for key, h in hs:
        w.join(h)
        if not h.done:
            raise Violation("consumer-died", f"consumer {key} ended with exit code {h.proc.exitcode}")
    return sinks


def diff(a, b, n=6):
    ca, cb = collections.Counter(a), collections.Counter(b)
    return f"only in first: {list((ca - cb).elements())[:n]}; only in second: {list((cb - ca).elements())[:n]}"
