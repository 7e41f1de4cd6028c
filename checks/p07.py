"""P07: cached query results are indistinguishable from fresh executions, whatever happens to the catalogue, the disk or the process."""
import errno

from checks import common as c
from checks.p05 import CONDS, content
from sim import kernel as K
from sim.runner import Scenario
from sim.world import check

PROP = "P07"
QCONDS = CONDS[:11] + CONDS[15:] + [([("lic", "==", "None")],), ([("lang", "==", "['en', 'de']")],), ([("lang", "==", ["en"])],)]


def seq(client, job):
    return c.consume(client, c.stream_args(job))


def twin(w, cond):
    """A different query that looks almost the same."""
    out = []
    for sel in cond:
        sel = list(sel) if isinstance(sel, list) else [sel]
        i = w.ch(len(sel))
        f, op, v = sel[i]
        x = w.ch(5)
        if x == 0:
            op = "!=" if op == "==" else "=="
        elif x == 1:
            v = str(v)
        elif x == 2:
            v = [v] if isinstance(v, str) else v[:1] if isinstance(v, list) else "None"
        elif x == 3:
            v = ", ".join(v) if isinstance(v, list) else v
        elif len(sel) > 1:
            out.append([sel.pop()])
            i = min(i, len(sel) - 1)
            f, op, v = sel[i]
        sel[i] = (f, op, v)
        out.append(sel)
    return tuple(out)


def pairs(w, k):
    """A few conditions, so that repetitions and near-repetitions are frequent."""
    out = [w.pick(QCONDS) for _ in range(1 + w.ch(2))]
    for x in list(out):
        if len(x) > 1:
            out.append(x[:1])  # the first alternative alone
            out.append(tuple(reversed(x)))
        if x and w.flip():
            out.insert(1, twin(w, x))
    return out[:k]


def same(w, got, ref, what):
    check([x[2] for x in got] == [x[2] for x in ref] and got == ref, "differs-from-fresh",
          lambda: f"{what}: {len(got)} samples delivered, a fresh execution delivers {len(ref)}: {c.diff([x[2] for x in got], [x[2] for x in ref])}"
          + ("" if sorted(x[2] for x in got) != sorted(x[2] for x in ref) else f"; first difference at {next(i for i, (a, b) in enumerate(zip(got, ref)) if a != b)}"))


def history(w):
    """Random sequence of queries, registrations, removals and reopenings; every query is compared with an uncached execution and the model."""
    k = w.k
    d = w.mkdir("loc")
    client = w.local(d)
    check(w.register_parser(client), "setup:parser", "parser")
    nulls = w.flip(1, 3)
    specs = {n: w.dataset(n, nfiles=1 + w.ch(2), lines=(2, 8), nulls=nulls) for n in ("a", "b", "c")}
    have = []
    for n in ("a", "b"):
        if w.flip(3, 4):
            check(w.register(client, specs[n]), "setup:register", n)
            have.append(n)
    if not have:
        check(w.register(client, specs["c"]), "setup:register", "c")
        have.append("c")
    conds = pairs(w, 5)
    mixes = [(i, c.gen_mixture(w)[1]) for i in range(2)]
    seeds = [w.ch(1000) for _ in mixes]
    hits = 0
    tot = 0
    log = []

    def mix(i):
        desc = mixes[i][1]
        if desc["kind"] == "arb":
            return c.arbitrary(desc["chunk"])
        if desc["kind"] == "infer":
            from mixtera.core.query.mixture import InferringMixture

            return InferringMixture(desc["chunk"], strict=desc["strict"])
        t = sum(desc["parts"].values())
        return c.static(desc["chunk"], {tuple(tuple(q.split("=")) for q in p.split(";")): x / t for p, x in desc["parts"].items()}, desc["strict"])

    del seeds
    open_streams = []
    for step in range(3 + w.ch(6)):
        x = w.ch(8)
        if x < 5:
            cd, mi = w.pick(conds), w.ch(2)
            exp = c.expected([specs[n] for n in have], cd)
            if not exp and mixes[mi][1]["kind"] != "arb":
                mi = None
            m = (lambda: c.arbitrary(4)) if mi is None else (lambda: mix(mi))
            job = f"j{step}"
            before = len(k.stats)
            c.run_query(w, client, job, m(), cd)
            del before
            partial = None
            if w.flip(1, 4):  # consume later, when the cache has moved on
                g = client.stream_results(c.stream_args(job))
                head = []
                for _ in range(w.ch(4)):
                    try:
                        head.append(tuple(next(g)))
                    except StopIteration:
                        break
                partial = (g, head)
            client._query_cache.enabled = False
            c.run_query(w, client, job + "f", m(), cd)
            client._query_cache.enabled = True
            ref = seq(client, job + "f")
            if partial is None:
                got = seq(client, job)
                same(w, got, ref, f"{job} {cd} over {have}; history {log}")
            else:
                open_streams.append((job, partial, ref, list(have), cd))
            if mi is None or mixes[mi][1]["kind"] == "arb":
                content([y[2] for y in ref], exp, f"{job}f {cd} over {have}")
            log.append(("query", cd, len(exp)))
            tot += len(exp)
        elif x == 5:
            new = [n for n in specs if n not in have]
            if new:
                n = w.pick(new)
                check(w.register(client, specs[n]), "setup:register", n)
                have.append(n)
                log.append(("register", n))
        elif x == 6:
            if len(have) > 1:
                n = w.pick(have)
                check(client.remove_dataset(n), "setup:remove", n)
                have.remove(n)
                log.append(("remove", n))
        else:
            del client
            import gc

            gc.collect()
            for conn in [r() for refs in k.cur.proc.__dict__.pop("_dbs", {}).values() for r in refs]:
                if conn is not None:
                    conn.close()
            client = w.local(d)
            check(w.register_parser(client), "setup:parser", "parser")
            open_streams.clear()
            log.append(("reopen",))
    for job, (g, head), ref, hv, cd in open_streams:
        try:
            rest = [tuple(i) for i in g]
        except RuntimeError as e:
            check(False, "stream-broken", f"{job} {cd}: {e}")
        same(w, head + rest, ref, f"{job} {cd} over {hv}, finished later; history {log}")
    del hits
    return dict(what=f"{len(log)} steps: {log}", nontrivial=tot > 0 and sum(1 for x in log if x[0] == "query") > 1)


def crash(w):
    """The process that fills or reads the cache is killed or meets disk errors at an arbitrary operation; later queries must be right."""
    k = w.k
    d = w.mkdir("loc")
    a, b = w.dataset("a", nfiles=2, lines=(3, 8)), w.dataset("b", nfiles=1, lines=(2, 6))
    conds = pairs(w, 2)
    desc = (2, 5, 16)[w.ch(3)]
    rounds = 1 + w.ch(3)
    nf = 0
    have = [a]
    ref = {}
    serial = [0]

    def setup():
        cl = w.local(d)
        check(w.register_parser(cl), "setup:parser", "parser")
        check(w.register(cl, a), "setup:register", "a")

    h = w.proc("setup", setup)
    w.join(h)
    log = []
    for r in range(rounds):
        mode = w.pick(("kill", "kill", "torn", "short", "err"))
        kind = w.pick(("fs.write", "fs.open.w", "fs.mkdir", "fs.rename", "fs.rmdir", "fs.unlink", "db.exec")) if mode != "torn" and mode != "short" else "fs.write"
        nth = w.ch(14 if kind in ("fs.write", "db.exec") else 5)
        change = w.ch(4)
        hit = []
        box = {}

        def work(r=r, change=change, box=box):
            cl = w.local(d)
            check(w.register_parser(cl), "setup:parser", "parser")
            me = k.cur.proc

            def act(kk, p, kd, detail):
                hit.append((kd, str(detail)))
                if mode == "kill":
                    kk.kill(me)
                    return None
                if mode == "torn":
                    if p is not me:
                        kk.kill(me)
                        return None
                    return ("torn", w.ch(8))
                if mode == "short":
                    return ("short", w.ch(200))
                return ("err", errno.ENOSPC if w.flip() else errno.EIO)

            if change == 1 and b not in have:
                check(w.register(cl, b), "setup:register", "b")
                have.append(b)
            elif change == 2 and b in have:
                check(cl.remove_dataset("b"), "setup:remove", "b")
                have.remove(b)
            K.add_plan(k, lambda p, kd, detail: p.name.startswith(me.name) and kd == kind and (kd == "db.exec" or "querycache" in str(detail)), nth, act, f"{mode}@{kind}")
            for i in range(2):
                serial[0] += 1
                try:
                    got = None
                    c.run_query(w, cl, f"x{serial[0]}", c.arbitrary(desc), conds[i % len(conds)])
                    got = seq(cl, f"x{serial[0]}")
                except Exception:  # noqa: BLE001
                    if not hit:
                        raise
                if got is not None:
                    content([y[2] for y in got], c.expected(have, conds[i % len(conds)]), f"query with {mode}@{kind} {hit}")

        h = w.proc(f"work{r}", work)
        w.join(h)
        k.plans = []
        nf += len(hit)
        log.append((mode, kind, nth, hit[:1]))

        def verify():
            cl = w.local(d)
            check(w.register_parser(cl), "setup:parser", "parser")
            for i in range(len(conds)):
                seqs = []
                for rep in range(2):
                    serial[0] += 1
                    job = f"v{serial[0]}"
                    try:
                        c.run_query(w, cl, job, c.arbitrary(desc), conds[i])
                        seqs.append(seq(cl, job))
                    except Exception as e:  # noqa: BLE001
                        check(False, "later-query-fails", f"after {log}: {type(e).__name__}: {e}")
                serial[0] += 1
                job = f"v{serial[0]}"
                cl._query_cache.enabled = False
                c.run_query(w, cl, job, c.arbitrary(desc), conds[i])
                fresh = seq(cl, job)
                cl._query_cache.enabled = True
                content([y[2] for y in fresh], c.expected(have, conds[i]), f"uncached after {log}")
                for s in seqs:
                    same(w, s, fresh, f"after {log}")

        h = w.proc(f"verify{r}", verify)
        w.join(h)
    del ref
    return dict(what=f"{log}", nontrivial=nf > 0)


def served(w):
    """Clients of one server run the same few queries again and again while datasets come and go."""
    k = w.k
    sv = c.Served(w)
    specs = {n: w.dataset(n, nfiles=1 + w.ch(2), lines=(2, 6)) for n in ("a", "b", "c")}
    check(w.register_parser(sv.client), "setup:parser", "parser")
    check(w.register(sv.client, specs["a"]), "setup:register", "a")
    ivs = {"a": [[-1, -1, None, None]], "b": [], "c": []}  # [register call, return, remove call, return]
    conds = pairs(w, 2)
    results = []
    nq = 2 + w.ch(2)

    def body(key, sink):
        cl = w.remote()
        if key[0] == 0:
            for i in range(2 + w.ch(4)):
                if k.rare("s", 0.5, 4):
                    k.sleep((0.01, 0.3)[w.ch(2)], "pause")
                n = w.pick(("b", "c", "b"))
                cur = ivs[n][-1] if ivs[n] else None
                if cur is None or cur[3] is not None:
                    iv = [k.steps, None, None, None]
                    ivs[n].append(iv)
                    check(w.register(cl, specs[n]), "register-failed", n)
                    iv[1] = k.steps
                else:
                    cur[2] = k.steps
                    check(cl.remove_dataset(n), "remove-failed", n)
                    cur[3] = k.steps
            return
        for j in range(nq):
            cd = w.pick(conds)
            job = f"q{key[0]}.{j}"
            t0 = k.steps
            check(cl.execute_query(w.query(job, cd), c.exec_args(c.arbitrary((2, 5)[w.ch(2)]))), "execute-failed", job)
            check(cl.wait_for_execution(job), "wait-failed", lambda: f"wait_for_execution({job}) failed")
            t1 = k.steps
            results.append((job, cd, t0, t1, [x[2] for x in c.consume(cl, c.stream_args(job))]))

    c.run_consumers(w, [(i,) for i in range(3 + w.ch(2))], body)
    tot = 0
    for job, cd, t0, t1, got in results:
        must, may = set(), {}
        for n, l in ivs.items():
            for iv in l:
                a, b = iv[0], iv[1]
                ra, rb = iv[2], iv[3]
                if a > t1 or (rb is not None and rb < t0):
                    continue
                for o in c.expected([specs[n]], cd):
                    may[o] = n
                    if b is not None and b < t0 and (ra is None or ra > t1):
                        must.add(o)
        s = set(got)
        what = f"{job} {cd} [{t0},{t1}] datasets {ivs}"
        check(len(s) == len(got), "duplicate-sample", lambda: f"{what}: {got}")
        check(s <= set(may), "resurrected", lambda: f"{what}: {sorted(s - set(may))[:5]} belong to no dataset visible at that time")
        check(must <= s, "hidden", lambda: f"{what}: {sorted(must - s)[:5]} not delivered")
        for n in set(may.values()):
            mine = {o for o, m in may.items() if m == n}
            check(not (mine & s) or mine <= s, "partial-dataset", lambda: f"{what}: only part of {n}")
        tot += len(got)
    # afterwards
    have = [n for n, l in ivs.items() if l and l[-1][2] is None]
    for i, cd in enumerate(conds):
        for rep in range(2):
            job = f"end{i}.{rep}"
            c.run_query(w, sv.client, job, c.arbitrary(3), cd)
            content([x[2] for x in c.consume(sv.client, c.stream_args(job))], c.expected([specs[n] for n in have], cd), f"{job} {cd} with {have}")
    return dict(what=f"{len(results)} queries, datasets {ivs}", nontrivial=tot > 0)


SCENARIOS = [Scenario("history", history, 3), Scenario("crash", crash, 3), Scenario("served", served, 2)]
