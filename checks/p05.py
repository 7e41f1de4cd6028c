"""P05: a query selects exactly the matching samples and delivers their own content, also under concurrent catalogue changes."""
import collections
import json
import os

from checks import common as c
from sim import kernel as K
from sim.runner import Scenario
from sim.world import DatasetSpec, Sample, check, props_match

PROP = "P05"
CONDS = [
    (),
    ([("lang", "==", "en")],),
    ([("lang", "==", ["en", "de"])],),
    ([("lang", "!=", "en")],),
    ([("lang", "!=", ["en", "de"])],),
    ([("lang", "==", "en"), ("lic", "==", "mit")],),
    ([("lang", "==", "en")], [("lic", "==", "mit")]),
    ([("lang", "==", "en"), ("lic", "!=", "mit")], [("lang", "==", "fr")]),
    ([("lic", "==", None)],),
    ([("lic", "!=", None)],),
    ([("lic", "==", ["mit", "apache"])],),
    ([("topic", "==", "x")],),
    ([("topic", "==", ["x", "w"])],),
    ([("topic", "==", "x"), ("lang", "==", "en")], [("topic", "==", ["y"])]),
    ([("topic", "!=", "x")],),
    ([("lang", "==", "nope")],),
    (("lang", "==", "de"),),
    ([("lic", "==", "a,b")], [("lic", "==", "a;b"), ("lang", "!=", "en")]),
    ([("lic", "==", ["", "a", "'q' \"q\""])],),
    ([("lic", "!=", "a;lang:en")],),
]


def content(got, exp, what):
    """got: delivered samples; exp: {output: Sample}"""
    gc = collections.Counter(got)
    dup = [s for s, n in gc.items() if n > 1]
    extra = sorted(set(gc) - set(exp))
    miss = sorted(set(exp) - set(gc))
    check(not extra, "foreign-sample", lambda: f"{what}: {len(extra)} delivered samples do not belong to the result: {[x[:120] for x in extra[:4]]}; missing {[x[:120] for x in miss[:4]]}")
    check(not miss, "missing-sample", lambda: f"{what}: {len(miss)} of {len(exp)} matching samples not delivered: {[x[:120] for x in miss[:4]]}")
    check(not dup, "duplicate-sample", lambda: f"{what}: delivered twice: {[x[:120] for x in dup[:4]]}")


def select(w, local=True):
    """Several queries over rich corpora of all storage formats."""
    if local:
        client = w.local(w.mkdir("loc"))
    else:
        client = c.Served(w).client
    multi, nulls, fancy = w.flip(), w.flip(1, 3), w.flip(2, 3)
    specs = c.corpus(w, n=1 + w.ch(3), kinds=("jsonl", "parquet", "web", "jsonl"), lines=((2, 8), (6, 20), (0, 5))[w.ch(3)], multi=multi, nulls=nulls, fancy=fancy)
    for s in specs:
        if s.kind in ("jsonl", "parquet") and len(s.files) == 1 and w.flip(1, 4):
            s.single = True
    c.register_all(w, client, specs)
    n = 0
    used = []
    for i in range(1 + w.ch(3)):
        conds = w.pick(CONDS if multi else [x for x in CONDS if 'topic' not in str(x)])
        exp = c.expected(specs, conds)
        c.run_query(w, client, f"job{i}", c.arbitrary((2, 5, 16)[w.ch(3)]), conds)
        got = c.consume(client, c.stream_args(f"job{i}"))
        content([x[2] for x in got], exp, f"query {conds} over {[(s.name, s.kind) for s in specs]}")
        n += len(exp)
        used.append(len(exp))
    return dict(what=f"{'local' if local else 'server'} {[(s.kind, len(s.samples)) for s in specs]} nulls={nulls} multi={multi}: results {used}", nontrivial=n > 0)


def large(w):
    """Corpora beyond the batch sizes of the registration, of the storage formats and of the database."""
    client = w.local(w.mkdir("loc"))
    kind = w.pick(("files", "jsonl", "parquet", "parquet", "both"))
    salt = w.ch(1000)
    specs = []

    def make(name, fmt, sizes):
        spec = DatasetSpec(name, fmt, w.mkdir("data", name), f"T{name}")
        for fi, n in enumerate(sizes):
            step = 1 + (salt + fi) % 7
            rows = [Sample(name, fi, i, {"lang": ("en", "de", "fr")[(i // step + salt) % 3], "lic": ("mit", "apache")[(i // 1024) % 2]}, f"{name}.{fi}.{i}") for i in range(n)]
            p = os.path.join(spec.loc, f"f{fi}.{fmt}")
            spec.files.append(p)
            w._write_file(p, fmt, rows)
            spec.samples += rows
        specs.append(spec)

    with K.no_preempt():
        if kind == "files":
            make("d0", "jsonl", [1 + (i + salt) % 2 for i in range(2000 + w.ch(20))])
        elif kind == "parquet":
            make("d0", "parquet", [(33000, 66000, 100)[w.ch(3)] + w.ch(100) for _ in range(1 + w.ch(2))])
        else:
            make("d0", "jsonl", [2000 + w.ch(3000)])
        if kind == "both":
            make("d1", "parquet", [5000 + w.ch(100)])
    c.register_all(w, client, specs)
    used = []
    for i in range(1 + w.ch(2)):
        conds = w.pick((CONDS[0], CONDS[1], CONDS[3], CONDS[5]))
        exp = c.expected(specs, conds)
        c.run_query(w, client, f"job{i}", c.arbitrary((1000, 20000)[w.ch(2)]), conds)
        got = c.consume(client, c.stream_args(f"job{i}"))
        content([x[2] for x in got], exp, f"query {conds} over {[(s.name, s.kind, len(s.files), len(s.samples)) for s in specs]}")
        used.append(len(exp))
    return dict(what=f"large {kind} {[(len(s.files), len(s.samples)) for s in specs]}: results {used}", nontrivial=True)


def concurrent(w):
    """Queries, streams, registrations and removals at the same time on one server."""
    sv = c.Served(w)
    specs = {}
    for i in range(5):
        specs[f"d{i}"] = w.dataset(f"d{i}", kind=w.pick(("jsonl", "jsonl", "parquet")), nfiles=1 + w.ch(2), lines=(2, 8))
    init = ["d0", "d1"]
    c.register_all(w, sv.client, [specs[x] for x in init])
    k = w.k
    reg = {x: (-2, -1) for x in init}  # name -> (call, return) in scheduling steps
    rem = {}
    results = []
    plans = [("reg", ["d2"] if w.flip() else ["d2", "d3"]), ("reg2", ["d4"]) if w.flip() else ("rm", ["d1"]), ("q", 0), ("q", 1)]
    if w.flip(1, 3):
        plans.append(("rm", ["d0"]))
    if w.flip(1, 3):
        plans.append(("q", 2))

    def body(key, sink):
        kind, arg = plans[key[0]]
        client = w.remote()
        if w.flip():
            k.sleep((0.001, 0.05, 0.5)[w.ch(3)], "start")
        if kind.startswith("reg"):
            for name in arg:
                t0 = k.steps
                reg[name] = (t0, None)
                ok = w.register(client, specs[name])
                check(ok, "register-failed", lambda: f"registration of {name} failed while other operations ran")
                reg[name] = (t0, k.steps)
        elif kind == "rm":
            for name in arg:
                if name in rem:
                    continue
                t0 = k.steps
                rem[name] = (t0, None)
                ok = client.remove_dataset(name)
                check(ok, "remove-failed", lambda: f"removal of {name} failed while other operations ran")
                rem[name] = (t0, k.steps)
        else:
            for j in range(2):
                conds = w.pick(CONDS[:8])
                job = f"q{arg}.{j}"
                t0 = k.steps
                q = w.query(job, conds)
                ok = client.execute_query(q, c.exec_args(c.arbitrary((2, 5, 16)[w.ch(3)])))
                check(ok, "execute-failed", lambda: f"execute_query({job}) failed while other operations ran")
                ok = client.wait_for_execution(job)
                check(ok, "wait-failed", lambda: f"wait_for_execution({job}) failed while other operations ran")
                t1 = k.steps
                got = c.consume(client, c.stream_args(job), think=c.thinker(w, 0.05))
                results.append((job, conds, t0, t1, [x[2] for x in got]))

    c.run_consumers(w, [(i,) for i in range(len(plans))], body)
    tot = 0
    for job, conds, t0, t1, got in results:
        must, may = {}, {}
        for name, (a, b) in reg.items():
            if a > t1:
                continue
            r = rem.get(name)
            if r is not None and r[1] is not None and r[1] < t0:
                continue
            certain = b is not None and b < t0 and (r is None or r[0] > t1)
            for o, s in c.expected([specs[name]], conds).items():
                may[o] = name
                if certain:
                    must[o] = name
        gc = collections.Counter(got)
        dup = [x for x, n in gc.items() if n > 1]
        extra = sorted(set(gc) - set(may))
        miss = sorted(set(must) - set(gc))
        what = f"{job} {conds} [{t0},{t1}] registrations {reg} removals {rem}"
        check(not extra, "foreign-sample", lambda: f"{what}: {extra[:5]} cannot be part of the result")
        check(not dup, "duplicate-sample", lambda: f"{what}: twice: {dup[:5]}")
        check(not miss, "missing-sample", lambda: f"{what}: {len(miss)} of {len(must)} samples not delivered: {miss[:5]}")
        for name in set(may.values()):  # a dataset is visible as a whole or not at all
            mine = set(o for o, n in may.items() if n == name)
            vis = mine & set(gc)
            check(not vis or vis == mine, "partial-dataset", lambda: f"{what}: only {len(vis)} of {len(mine)} samples of {name}")
        tot += len(got)
    # afterwards the catalogue is exactly what was acknowledged
    final = sorted(n for n in reg if n not in rem)
    lst = sorted(sv.client.list_datasets())
    check(lst == final, "catalogue", lambda: f"datasets after all operations: {lst}, expected {final}")
    exp = c.expected([specs[n] for n in final], ())
    c.run_query(w, sv.client, "final", c.arbitrary(5))
    content([x[2] for x in c.consume(sv.client, c.stream_args("final"))], exp, "query after all operations")
    return dict(what=f"{plans}: {len(results)} queries, {tot} samples", nontrivial=tot > 0)


FIELDS = {
    "VP": {"lang": ("en", "de", "fr", "xx"), "lic": ("mit", "apache", "gpl"), "topic": ("x", "y", "z", "w")},
    "WP": {"lang": ("en", "de", "fr", "xx"), "tier": ("gold", "silver", "lead"), "tags": ("w", "x", "y", "z", "v")},
}
FIELDS |= {
    "SLIM_PAJAMA": {"redpajama_set_name": ("RedPajamaC4", "RedPajamaBook", "RedPajamaGithub", "RedPajamaArXiv")},
    "PILE": {"pile_set_name": ("Wikipedia (en)", "Gutenberg (PG-19)", "Pile-CC", "FreeLaw")},
    "RED_PAJAMA": {"language": ("x", "y", "z", "w"), "publication_date": ("mit", "apache", "gpl")},
    "FINEWEB": {"dump": ("en", "de", "fr", "xx"), "language": ("en",)},
}
SLIM = {None: "RedPajamaGithub", "mit": "RedPajamaC4", "apache": "RedPajamaBook"}
PILE = {"en": "Wikipedia (en)", "de": "Gutenberg (PG-19)", "fr": "Pile-CC"}
OPS = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b}


def props_of(s, parser):
    """The properties of a sample as its dataset's parser sees them; properties of other parsers are NULL."""
    p = s.props
    if parser == "VP":
        return {"lang": p["lang"], "lic": p.get("lic"), "topic": p.get("topic")}
    if parser == "SLIM_PAJAMA":
        return {"redpajama_set_name": SLIM[p.get("lic")]}
    if parser == "PILE":
        return {"pile_set_name": PILE[p["lang"]]}
    if parser == "RED_PAJAMA":
        return {"language": p.get("topic") or None, "publication_date": p.get("lic")}
    if parser == "FINEWEB":
        return {"dump": p["lang"], "language": "en"}
    return {"lang": p["lang"], "tier": {None: None, "mit": "silver", "apache": "gold"}[p.get("lic")], "tags": p.get("topic")}


def holds(props, cond):
    f, op, v = cond
    pv = props.get(f)
    if v is None:
        return (pv is None) == (op == "==")
    if pv is None:
        return False
    vs = v if isinstance(v, list) else [v]
    if isinstance(pv, list):
        return any(x in pv for x in vs) == (op == "==")
    if op == "!=":
        return all(pv != x for x in vs)
    return any(OPS[op](pv, x) for x in vs)


def rewrite(w, spec, parser):
    """Store the samples the way the data sets that mixtera's own parsers are made for do."""
    for i, path in enumerate(spec.files):
        out = []
        for s in spec.samples:
            if s.file != i:
                continue
            p = props_of(s, parser)
            if parser == "RED_PAJAMA":
                meta = {}
                if p["language"] is not None or w.flip():
                    meta["language"] = [{"name": x} for x in p["language"] or []]
                if p["publication_date"] is not None:
                    meta["publication_date"] = p["publication_date"]
                p = {"meta": meta} if meta or w.flip() else {}
            elif parser != "FINEWEB":
                p = {"meta": p}
            out.append(json.dumps({"text": s.text, **p}))
        w.write(path, "".join(x + "\n" for x in out).encode())


def gen_conds(w, fields):
    out = []
    for _ in range(1 + w.ch(3)):
        sel = []
        for _ in range(1 + w.ch(3)):
            f = w.pick(sorted(x for x in fields if isinstance(x, str)))
            vals = fields[f]
            ops = ("==", "!=") if fields[f, "list"] else ("==", "!=", "==", "!=", "<", ">", "<=", ">=")
            op = w.pick(ops)
            kind = w.ch(5)
            if kind == 4 and op in ("==", "!="):
                v = None
            elif kind >= 2:
                v = [w.pick(vals) for _ in range(1 + w.ch(3))]
            else:
                v = w.pick(vals)
            sel.append((f, op, v))
        out.append(sel[0] if len(sel) == 1 and w.flip() else sel)
    return out


def schemas(w):
    """Generated conditions over datasets of different parsers, which share some properties; datasets come and go."""
    sv = None
    if w.flip(1, 4):
        sv = c.Served(w)
        client = sv.client
    else:
        client = w.local(w.mkdir("loc"))
    for p in ("VP", "WP"):
        check(w.register_parser(client, p), "setup:parser", "register_metadata_parser returned false")
    cat, fields, n, used = {}, {}, 0, []
    multi, nulls = w.flip(2, 3), w.flip()
    rp = w.pick(("RED_PAJAMA", "FINEWEB"))  # these two declare one property differently
    for i in range(1 + w.ch(4)):
        if cat and w.flip(1, 5):
            gone = w.pick(sorted(cat))
            check(client.remove_dataset(gone), "remove-failed", f"remove_dataset({gone}) returned false")
            del cat[gone]
        spec = w.dataset(f"d{i}", kind=w.pick(("jsonl", "parquet", "web", "jsonl")), nfiles=1 + w.ch(2), lines=((2, 8), (6, 24))[w.ch(2)], multi=multi, nulls=nulls)
        parser = w.pick(("VP", "WP", "VP", "WP", "SLIM_PAJAMA", "PILE", rp) if spec.kind == "jsonl" else ("VP", "WP"))
        if parser not in ("VP", "WP"):
            rewrite(w, spec, parser)
        check(w.register(client, spec, parser), "setup:register", lambda: f"register_dataset({spec.name}, {parser}) returned false")
        cat[spec.name] = (spec, parser)
        fields.update(FIELDS[parser])
        fields.update({(f, "list"): f in ("topic", "tags") or (f == "language" and parser == "RED_PAJAMA") for f in FIELDS[parser]})
        for j in range(w.ch(3)):
            conds = gen_conds(w, fields)
            sels = [x if isinstance(x, list) else [x] for x in conds]
            exp = {}
            for sp, pa in cat.values():
                for s in sp.samples:
                    props = props_of(s, pa)
                    if any(all(holds(props, x) for x in sel) for sel in sels):
                        exp[sp.out(s)] = s
            job = f"job{i}.{j}"
            c.run_query(w, client, job, c.arbitrary((2, 5, 16)[w.ch(3)]), conds)
            got = c.consume(client, c.stream_args(job))
            content([x[2] for x in got], exp, f"query {conds} over {[(m, sp.kind, pa) for m, (sp, pa) in cat.items()]}")
            n += len(exp)
            used.append(len(exp))
    return dict(what=f"{[(m, sp.kind, pa) for m, (sp, pa) in cat.items()]} nulls={nulls} multi={multi}: results {used}", nontrivial=n > 0)


SCENARIOS = [Scenario("schemas", schemas, 6), Scenario("select", select, 6), Scenario("select-served", lambda w: select(w, False), 2), Scenario("concurrent", concurrent, 8), Scenario("large", large, 1, knobs=dict(max_lines=20_000_000))]
