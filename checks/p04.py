"""P04: chunks follow the requested mixture."""
import collections
import math

from checks import common as c
from sim.runner import Scenario
from sim.world import check

PROP = "P04"
CONDS = [(), (), ([("lang", "==", ["en", "de", "fr"])],), ([("lic", "!=", "mit")],)]


def matches(props, comp):
    """comp: tuple of (field, values)"""
    for f, vs in comp:
        v = props.get(f)
        v = v if isinstance(v, (list, tuple)) else [v]
        if not set(v) & set(vs) and (v or vs):
            return False
    return True


def gen(w, multi=False):
    """(mixture object, dict with kind, chunk, comps: {component: weight})"""
    kind = w.pick(("strict", "strict", "best", "best", "infer-s", "infer-b", "arb"))
    chunk = (3, 4, 5, 7, 10, 16, 25)[w.ch(7)]
    if kind == "arb":
        return c.arbitrary(chunk), dict(kind="arb", chunk=chunk, comps=None)
    if kind.startswith("infer"):
        from mixtera.core.query.mixture import InferringMixture

        return InferringMixture(chunk, strict=kind == "infer-s"), dict(kind="infer", strict=kind == "infer-s", chunk=chunk, comps=None)
    shape = w.ch(5)
    langs, lics = ("en", "de", "fr"), w.lics
    if shape == 0:
        comps = [(("lang", (x,)),) for x in langs[:1 + w.ch(3)]]
    elif shape == 1:
        comps = [(("lic", (x,)),) for x in lics]
    elif shape == 2:
        comps = [(("lang", ("en", "de")),), (("lang", ("fr",)),)]
    elif shape == 3:
        comps = [(("lang", (x,)), ("lic", (y,))) for x in langs[:2] for y in lics]
    else:
        comps = [(("lang", ("en",)), ("lic", lics[:1])), (("lang", ("en",)), ("lic", lics[1:])), (("lang", ("de",)),)]
    if multi and w.flip():
        comps = [(("topic", ("x",)), ("lang", ("en",))), (("lang", ("de",)),)]
    if w.flip(1, 6):
        comps.append((("lang", ("xx",)),))  # a component without any data
    wts = [1 + w.ch(4) for _ in comps]
    tot = sum(wts)
    strict = kind == "strict"
    m = c.static(chunk, {p: x / tot for p, x in zip(comps, wts)}, strict)
    return m, dict(kind=kind, strict=strict, chunk=chunk, comps={p: x / tot for p, x in zip(comps, wts)})


def global_chunks(out):
    """All distinct chunks of all groups (node 0) with their stream keys."""
    return [(k, ch) for k, v in sorted(out.items()) if k[1] == 0 for ch in c.chunks_of(v)]


def combos(exp):
    return {(("lang", (s.props["lang"],)), ("lic", (s.props["lic"],))) + ((("topic", tuple(sorted(s.props["topic"]))),) if "topic" in s.props else ())
            for s in exp.values()}


def oracle(out, exp, d):
    """out: {(dp, node, worker): [(idx, key id, sample)]}; exp: output -> Sample."""
    chunks = global_chunks(out)
    comps = d["comps"]
    if comps is None:
        comps = {cb: None for cb in combos(exp)}
    ids = {}
    for k, ch in chunks:
        for idx, kid, s in ch:
            check(s in exp, "foreign-sample", lambda: f"{s!r} is not in the query result")
            ms = [p for p in comps if matches(exp[s].props, p)]
            check(ms, "no-component", lambda: f"{s!r} with {exp[s].props} (key id {kid}) matches no component of {list(comps)}")
            # the set of components that a key id can stand for shrinks with every sample seen
            prev = ids.get(kid)
            cand = set(ms) if prev is None else prev & set(ms)
            check(cand, "key-id", lambda: f"key id {kid} was delivered with samples of different components: {exp[s].props} does not match {prev}")
            ids[kid] = cand
        check([x[0] for x in ch] == list(range(len(ch))), "index", lambda: f"sample indices of a chunk of {k}: {[x[0] for x in ch]}")
    single = {kid: next(iter(v)) for kid, v in ids.items() if len(v) == 1}
    inv = collections.Counter(single.values())
    check(all(n == 1 for n in inv.values()), "key-id-ambiguous", lambda: f"several key ids denote one component: {single}")
    if any(len(v) != 1 for v in ids.values()):
        return len(chunks)  # overlapping components: no exact counting possible
    size = d["chunk"]
    if d["kind"] == "arb":
        for k, ch in chunks:
            check(0 < len(ch) <= size, "chunk-size", lambda: f"arbitrary chunk of {len(ch)} samples, chunk size {size}")
            check(len({x[1] for x in ch}) == 1, "arb-mixed-keys", lambda: f"arbitrary chunk with key ids {[x[1] for x in ch]}")
        return len(chunks)
    avail = collections.Counter()
    for s in exp.values():
        for p in comps:
            if matches(s.props, p):
                avail[p] += 1
                break
    counts = []
    for k, ch in chunks:
        cnt = collections.Counter(single[x[1]] for x in ch)
        counts.append(cnt)
        check(len(ch) == size, "chunk-size", lambda: f"chunk with {len(ch)} samples, chunk size {size}, mixture {d}")
    total = sum(avail.values())
    if d["kind"] == "infer":
        comps = {p: avail[p] / total for p in comps}
    if d["strict"]:
        for cnt in counts:
            for p, wgt in comps.items():
                lo, hi = math.floor(size * wgt - 1e-6), math.ceil(size * wgt + 1e-6)
                check(lo <= cnt[p] <= hi, "strict-count", lambda: f"chunk has {cnt[p]} samples of {p}, requested {size * wgt:.3f}; {dict(cnt)}")
        check(all(x == counts[0] for x in counts), "strict-varies", lambda: f"strict chunks differ: {counts[0]} vs {[x for x in counts if x != counts[0]][0]}")
        if counts:
            fill = min((avail[p] // counts[0][p] for p in comps if counts[0][p]), default=0)
            check(len(counts) == fill, "strict-chunks", lambda: f"{len(counts)} chunks delivered, but all components last for {fill}: {dict(avail)} / {dict(counts[0])}")
        else:
            # nothing delivered: some component must really be unfillable under every rounding
            short = [p for p, wgt in comps.items() if avail[p] < math.ceil(size * wgt + 1e-6)]
            check(short or not total, "strict-none", lambda: f"no chunk delivered although every component suffices: {dict(avail)}, size {size}, {comps}")
    else:
        check(len(counts) == total // size, "best-chunks", lambda: f"{len(counts)} chunks delivered, {total} samples in components, chunk size {size}: {dict(avail)}")
        # order of chunks is only known with one group and one worker stream; then check chunk by chunk
        d["ordered"] = counts
    return len(chunks)


def best_model(counts, avail, comps, size):
    """Chunk by chunk: no component falls below its share while it has data; a component that runs short is emptied first."""
    rem = collections.Counter(avail)
    for i, cnt in enumerate(counts):
        for p, wgt in comps.items():
            lo = math.floor(size * wgt - 1e-6)
            check(cnt[p] >= min(lo, rem[p]), "best-share",
                  lambda: f"chunk {i} has {cnt[p]} of {p}; share {size * wgt:.2f}, {rem[p]} samples left; chunk {dict(cnt)}, left {dict(rem)}")
        if all(rem[p] >= math.ceil(size * wgt + 1e-6) for p, wgt in comps.items()):
            for p, wgt in comps.items():
                check(cnt[p] <= math.ceil(size * wgt + 1e-6), "best-excess",
                      lambda: f"chunk {i} has {cnt[p]} of {p}, share {size * wgt:.2f}, although every component still has data: {dict(rem)}")
        for p in comps:
            rem[p] -= cnt[p]


def corpus(w, multi):
    w.lics = (("mit", "apache"), ("mit", "apache"), ("mit", "apache"), ("a;b", "a;c"), ("a,b", "a"), ("", "x"), ("c:d", "c"))[w.ch(7)]
    return c.corpus(w, kinds=("jsonl", "jsonl", "parquet"), lines=((3, 14), (10, 40), (20, 80))[w.ch(3)], multi=multi, langs=("en", "de", "fr")[:1 + w.ch(3)],
                    runs=w.flip(3, 4), lics=w.lics)


def run_oracle(w, out, exp, d, dp):
    n = oracle(out, exp, d)
    if "ordered" in d and dp == 1:
        # canonical chunk order: round robin over the workers
        per = [c.chunks_of(out[(0, 0, k)]) for k in sorted(x[2] for x in out if x[0] == 0 and x[1] == 0)]
        seq = []
        i = 0
        while any(i < len(p) for p in per):
            seq += [p[i] for p in per if i < len(p)]
            i += 1
        d["seq"] = seq
    return n


def local(w):
    multi = w.flip(1, 5)
    client = w.local(w.mkdir("loc"))
    specs = corpus(w, multi)
    c.register_all(w, client, specs)
    conds = w.pick(CONDS)
    m, d = gen(w, multi)
    c.run_query(w, client, "job", m, conds, 1, 1, 1)
    exp = c.expected(specs, conds)
    out = {(0, 0, 0): c.consume(client, c.stream_args("job"))}
    d0 = dict(d)
    n = oracle(out, exp, d)
    if "ordered" in d:
        comps = d["comps"]
        if comps is None:
            tot = len(exp)
            av = collections.Counter()
            for s in exp.values():
                for p in combos(exp):
                    if matches(s.props, p):
                        av[p] += 1
            comps = {p: av[p] / tot for p in av}
        av = collections.Counter()
        for s in exp.values():
            for p in comps:
                if matches(s.props, p):
                    av[p] += 1
        best_model(d["ordered"], av, comps, d["chunk"])
    return dict(what=f"local {d0}: {n} chunks of {len(exp)} samples", nontrivial=n > 1)


def served(w):
    sv = c.Served(w)
    specs = corpus(w, False)
    c.register_all(w, sv.client, specs)
    conds = w.pick(CONDS)
    m, d = gen(w)
    dp, nodes, workers = 1 + w.ch(2), 1 + w.ch(2), w.ch(3)
    c.run_query(w, sv.client, "job", m, conds, dp, nodes, workers)
    exp = c.expected(specs, conds)
    keys = [(a, b, k) for a in range(dp) for b in range(nodes) for k in range(max(1, workers))]

    def body(key, sink):
        c.consume(w.remote(), c.stream_args("job", *key), think=c.thinker(w, 0.02), sink=sink)

    out = c.run_consumers(w, keys, body)
    n = oracle(out, exp, d)
    return dict(what=f"served dp={dp} nodes={nodes} workers={workers} {d['kind']} chunk={d['chunk']}: {n} chunks", nontrivial=n > 1)


def window(w):
    """Windowed reading of chunks."""
    client = w.local(w.mkdir("loc"))
    specs = corpus(w, False)
    c.register_all(w, client, specs)
    m, d = gen(w)
    while d["comps"] is None or d["kind"] == "infer":
        m, d = gen(w)
    size = d["chunk"]
    ws = 1 + w.ch(size)
    be = w.flip()
    c.run_query(w, client, "job", m, (), 1, 1, 1)
    exp = c.expected(specs, ())
    ref = c.chunks_of(c.consume(client, c.stream_args("job")))
    c.run_query(w, client, "job2", __import__("copy").deepcopy(m), (), 1, 1, 1)
    prefetch = w.flip(1, 3)
    got = c.chunks_of(c.consume(client, c.stream_args("job2", chunk_reading_mixture_type="window", chunk_reading_window_size=ws, chunk_reading_window_best_effort=be,
                                                      chunk_reading_prefetch_first_sample=prefetch)))
    check(len(ref) == len(got), "window-chunks", lambda: f"{len(ref)} chunks read sequentially, {len(got)} in windows")
    full = 0
    for i, (a, b) in enumerate(zip(ref, got)):
        ka, kb = collections.Counter(x[1] for x in a), collections.Counter(x[1] for x in b)
        sa, sb = {x[2] for x in a}, {x[2] for x in b}
        check(len(sb) == len(b), "window-duplicate", lambda: f"chunk {i}: a sample twice: {b}")
        check(sb <= sa, "window-foreign", lambda: f"chunk {i}: {sorted(sb - sa)[:4]} not in the chunk")
        if be:
            check(sa == sb, "window-missing", lambda: f"chunk {i}, window {ws}, best effort: missing {sorted(sa - sb)[:4]}; chunk keys {ka}")
        per = {}
        for x in a:
            per.setdefault(x[1], []).append(x[2])
        for kid in kb:
            mine = [x[2] for x in b if x[1] == kid]
            check(mine == per[kid][:len(mine)], "window-order", lambda: f"chunk {i} key {kid}: {mine[:4]} vs {per[kid][:4]}")
        n = len(a)
        # the requested window: floor(ws * share) of every component, the rest goes to one of them
        fl = {kid: int(ws * (ka[kid] / size)) for kid in ka}
        left = collections.Counter(ka)
        extra_key = None
        for p in range(0, len(b) - ws + 1, ws):
            win = collections.Counter(x[1] for x in b[p:p + ws])
            ext = [kid for kid in ka if win[kid] > fl[kid]]
            # all components can still fill their share of this window, whoever receives the rounding rest
            rest = ws - sum(fl.values())
            if all(left[kid] >= fl[kid] + rest for kid in ka):
                full += 1
                check(len(ext) <= 1, "window-mixture", lambda: f"chunk {i} window {p // ws}: {dict(win)}, shares {fl} (+{rest} to one component)")
                for kid in ka:
                    check(win[kid] >= fl[kid], "window-mixture", lambda: f"chunk {i} window {p // ws}: {dict(win)}, shares {fl}")
                if ext:
                    check(extra_key in (None, ext[0]), "window-varies", lambda: f"chunk {i}: the rounding rest moves between components")
                    extra_key = ext[0]
            left -= win
        if not be:
            # not best effort: everything that forms complete windows is delivered
            k = min((ka[kid] // (fl[kid] + (ws - sum(fl.values()))) for kid in ka if fl[kid] + (ws - sum(fl.values()))), default=0)
            most = 0
            for lucky in ka:
                share = {kid: fl[kid] + (ws - sum(fl.values()) if kid == lucky else 0) for kid in ka}
                q = min(ka[kid] // share[kid] for kid in ka if share[kid])
                most = max(most, q * ws + sum(min(share[kid], ka[kid] - q * share[kid]) for kid in ka))
            check(len(b) <= most, "window-goes-on", lambda: f"chunk {i}: {len(b)} samples although the windows of {ws} cannot follow the mixture after {most}: {ka}")
            check(len(b) >= k * ws, "window-short", lambda: f"chunk {i}: only {len(b)} samples although {k} windows of {ws} can be filled: {ka}")
    return dict(what=f"window={ws} best_effort={be} {d['kind']} chunk={size}: {len(got)} chunks, {full} checked windows", nontrivial=full > 0)


SCENARIOS = [Scenario("local", local, 5), Scenario("served", served, 2), Scenario("window", window, 3)]
