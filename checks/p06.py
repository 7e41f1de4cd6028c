"""P06: the dataset catalogue is linearizable, atomic and durable."""
import errno

from checks import common as c
from sim import kernel as K
from sim.runner import Scenario
from sim.world import check

PROP = "P06"


class Op:
    __slots__ = ("cl", "op", "arg", "t0", "t1", "res")

    def __init__(self, cl, op, arg, t0):
        self.cl, self.op, self.arg, self.t0, self.t1, self.res = cl, op, arg, t0, None, None

    def __repr__(self):
        return f"{self.cl}:{self.op}({self.arg})[{self.t0},{self.t1}]={self.res}"


def step(state, op):
    """Sequential model: state maps name -> content tag. Returns (ok, new state) for the observed result."""
    if op.op == "reg":
        name, tag = op.arg
        if op.res is True:
            return (name not in state), {**state, name: tag}
        return (name in state), state
    if op.op == "rm":
        if op.res is True:
            return (op.arg in state), {k: v for k, v in state.items() if k != op.arg}
        return (op.arg not in state), state
    if op.op == "list":
        return (op.res == tuple(sorted(state))), state
    if op.op == "has":
        return (op.res == (op.arg in state)), state
    if op.op == "read":
        return (op.res == tuple(sorted(state.values()))), state
    raise AssertionError(op.op)


def outcomes(op):
    """Possible effects of an operation without a (trustworthy) answer."""
    if op.op == "reg":
        return (True, None)
    if op.op == "rm":
        return (True, None)
    return (None,)


def linearize(hist, init, final=None, limit=200_000):
    """Wing & Gong search: an order of all operations that respects real time and the sequential model."""
    INF = float("inf")
    ops = sorted(hist, key=lambda o: o.t0)
    n = len(ops)
    seen = set()
    budget = [limit]

    def rec(done, state):
        if done == (1 << n) - 1:
            return final is None or tuple(sorted(state.items())) == final
        key = (done, tuple(sorted(state.items())))
        if key in seen:
            return False
        seen.add(key)
        budget[0] -= 1
        if budget[0] < 0:
            return True  # give up silently: never raise an alarm for lack of time
        horizon = min((o.t1 if o.t1 is not None else INF) for i, o in enumerate(ops) if not done >> i & 1)
        for i, o in enumerate(ops):
            if done >> i & 1 or o.t0 > horizon:
                continue
            if o.res == "?":
                for r in outcomes(o):
                    if r is None:
                        if rec(done | 1 << i, state):
                            return True
                        continue
                    o.res = r
                    ok, ns = step(state, o)
                    o.res = "?"
                    if ok and rec(done | 1 << i, ns):
                        return True
            else:
                ok, ns = step(state, o)
                if ok and rec(done | 1 << i, ns):
                    return True
        return False

    return rec(0, dict(init))


NAMES = (("a", "b"), ("a", "b"), ("a", "A"), ("a b", "a_b"), ("a%", "ab"), ("it's", 'it"s'), ("ä", "a"), ("x;y", "x,y"), ("1", "01"), ("null", "NULL"),
         ("a" * 70, "a" * 71), ("a", " a"), ("d/a", "d\\a"), ("-- a", "?"))


def two_names(w):
    """Names that are different, though not by much for code that pastes, folds or matches them."""
    return list(w.pick(NAMES))


class Catalogue:
    """Several variants of every name; a variant is recognised by the tag its parsing function puts on the samples."""

    def __init__(self, w, names, variants=2, lines=(2, 6)):
        self.w = w
        self.specs = {}
        for ni, nm in enumerate(names):
            for v in range(variants):
                s = w.dataset(f"{'abcdef'[ni]}v{v}", kind=w.pick(("jsonl", "jsonl", "parquet", "web")), nfiles=1 + w.ch(3), lines=lines)
                s.name = nm
                s.variant = v
                self.specs[nm, v] = s

    def expect(self, state):
        out = {}
        for nm, tag in state:
            out.update(c.expected([s for s in self.specs.values() if s.tag == tag]))
        return out

    def by_tag(self):
        return {s.tag: s for s in self.specs.values()}

    def read(self, client, job):
        """Content of the whole catalogue as seen by a query: the sorted tags of the datasets; each must be complete."""
        c.run_query(self.w, client, job, c.arbitrary(7))
        got = [x[2] for x in c.consume(client, c.stream_args(job))]
        by = {}
        for g in got:
            by.setdefault(g.split("|", 1)[0], []).append(g)
        tags = self.by_tag()
        for t, items in sorted(by.items()):
            check(t in tags, "foreign-sample", lambda: f"samples of an unknown dataset {t}: {items[:3]}")
            exp = sorted(tags[t].outputs)
            check(sorted(items) == exp, "dataset-incomplete", lambda: f"{job}: dataset {tags[t].name} ({t}) delivers {len(items)} of {len(exp)} samples: {c.diff(items, exp)}")
        return tuple(sorted(by))


def run_op(w, cat, client, op, k, job=None):
    op.t0 = k.steps
    if op.op == "reg":
        nm, tag = op.arg
        op.res = bool(w.register(client, next(s for s in cat.specs.values() if s.tag == tag)))
    elif op.op == "rm":
        op.res = bool(client.remove_dataset(op.arg))
    elif op.op == "list":
        op.res = tuple(sorted(client.list_datasets()))
        check(len(set(op.res)) == len(op.res), "name-twice", lambda: f"list_datasets returned {op.res}")
    elif op.op == "has":
        op.res = bool(client.check_dataset_exists(op.arg))
    elif op.op == "read":
        op.res = cat.read(client, job)
    op.t1 = k.steps
    return op


def gen_op(w, cat, names, me, reads=True):
    x = w.ch(9 if reads else 8)
    nm = w.pick(names)
    if x < 3:
        return Op(me, "reg", (nm, cat.specs[nm, w.ch(2)].tag), 0)
    if x < 5:
        return Op(me, "rm", nm, 0)
    if x < 7:
        return Op(me, "list", None, 0)
    if x < 8:
        return Op(me, "has", nm, 0)
    return Op(me, "read", None, 0)


def explain(hist, init, final):
    return f"initially {init}, finally {final}; no order of these operations explains their answers: " + "; ".join(map(repr, sorted(hist, key=lambda o: o.t0)))


def final_state(w, cat, client, job="final"):
    """The catalogue afterwards: listing, existence checks and contents agree."""
    lst = client.list_datasets()
    check(len(set(lst)) == len(lst), "name-twice", lambda: f"list_datasets returned {lst}")
    tags = cat.read(client, job)
    by = cat.by_tag()
    names = sorted(by[t].name for t in tags)
    empty = [n for n in lst if n not in names]
    for nm in sorted({s.name for s in cat.specs.values()}):
        has = client.check_dataset_exists(nm)
        check(has == (nm in lst), "check-vs-list", lambda: f"check_dataset_exists({nm}) = {has}, but list_datasets = {lst}")
    check(not empty, "dataset-incomplete", lambda: f"datasets {empty} are listed, but none of their samples can be queried")
    check(sorted(lst) == names, "catalogue-contents", lambda: f"listed {lst}, but queries deliver {names}")
    return tuple(sorted((by[t].name, t) for t in tags))


def linear(w):
    """Concurrent clients on one server; the whole history must be linearizable."""
    k = w.k
    sv = c.Served(w)
    names = two_names(w)[:1 + w.flip()]
    cat = Catalogue(w, names)
    check(w.register_parser(sv.client), "setup:parser", "parser")
    init = {}
    if w.flip():
        s = cat.specs[names[0], 0]
        check(w.register(sv.client, s), "setup:register", "initial")
        init[names[0]] = s.tag
    hist = []
    ncl = 2 + w.ch(2)
    nops = 2 + w.ch(3)
    plan = {i: [gen_op(w, cat, names, i) for _ in range(nops)] for i in range(ncl)}

    def body(key, sink):
        client = w.remote()
        for j, op in enumerate(plan[key[0]]):
            if k.rare("s", 0.3, 4):
                k.sleep(0.02, "pause")
            run_op(w, cat, client, op, k, f"r{key[0]}.{j}")
            hist.append(op)

    c.run_consumers(w, [(i,) for i in range(ncl)], body)
    final = final_state(w, cat, sv.client)
    ini = tuple(sorted(init.items()))
    check(linearize(hist, init, final), "not-linearizable", lambda: explain(hist, ini, final))
    ch = sum(1 for o in hist if o.op in ("reg", "rm") and o.res)
    return dict(what=f"{ncl} clients, {len(hist)} operations, {ch} changes", nontrivial=ch > 0)


def crash(w):
    """The server is killed at an arbitrary event while clients change the catalogue, and restarted."""
    k = w.k
    sv = c.Served(w)
    names = two_names(w)
    cat = Catalogue(w, names)
    keep = w.dataset("keep", nfiles=2, lines=(3, 6))
    keep.variant = 0
    check(w.register_parser(sv.client), "setup:parser", "parser")
    check(w.register(sv.client, keep), "setup:register", "keep")
    cat.specs["keep", 0] = keep
    init = {"keep": keep.tag}
    if w.flip():
        check(w.register(sv.client, cat.specs[names[0], 0]), "setup:register", "initial")
        init[names[0]] = cat.specs[names[0], 0].tag
    rounds = 1 + w.ch(2)
    hist = []
    crashed = 0
    for r in range(rounds):
        ncl = 1 + w.ch(2)
        plan = {i: [gen_op(w, cat, names, i, False) for _ in range(1 + w.ch(3))] for i in range(ncl)}
        for p in plan.values():  # the change that is in flight when the server dies
            p.append(Op(0, "reg", (nm := w.pick(names), cat.specs[nm, w.ch(2)].tag), 0) if w.flip(2, 3) else Op(0, "rm", w.pick(names), 0))
        proc = sv.h.proc
        kind = w.pick(("db.exec", "db.exec", "db.commit", "fs.write", "db.begin", "db.fetch"))
        nth = w.ch(18) if kind == "db.exec" else w.ch(5)
        hit = []

        def kill(kk, p, kd, detail):
            hit.append(kd)
            kk.kill(proc)

        def match(p, kd, detail, proc=proc, kind=kind):
            return p is proc and kd == kind

        K.add_plan(k, match, nth, kill, f"kill@{kind}")
        dead = []

        def body(key, sink):
            client = w.remote()
            for j, op in enumerate(plan[key[0]]):
                if dead:
                    return
                op.t0 = k.steps
                hist.append(op)
                op.res = "?"
                try:
                    run_op(w, cat, client, op, k)
                except Exception:  # noqa: BLE001 - the answer is lost
                    op.res = "?"
                if not proc.alive:
                    dead.append(1)
                    # what is answered after the death of the server may be a failure report without knowledge
                    if op.res in (False, ()) or op.op in ("list", "has"):
                        op.res = "?"
                        op.t1 = None

        hs = [w.proc(f"c{r}.{i}", lambda i=i: body((i,), None)) for i in range(ncl)]
        # the clients may wait long for the dead server; the restart does not wait for them
        k.wait_until(lambda: not proc.alive or not any(h.alive for h in hs), None, "crash or done")
        w.k.sleep((0.0, 0.5)[w.ch(2)], "down")
        crashed += not proc.alive
        if proc.alive:
            k.kill(proc)
        sv.restart()
        for h in hs:
            if h.alive:
                k.kill(h.proc)
        for o in hist:
            if o.t1 is None:
                o.t1 = k.steps  # it took effect before the restart, or never
        check(w.register_parser(sv.client), "setup:parser", "parser")
    final = final_state(w, cat, sv.client)
    ini = tuple(sorted(init.items()))
    check(linearize(hist, init, final), "not-durable", lambda: explain(hist, ini, final))
    # the catalogue still works
    nm = w.pick(names)
    st = dict(final)
    if nm in st:
        check(sv.client.remove_dataset(nm), "stuck", lambda: f"dataset {nm} is listed after the crash, but cannot be removed")
        st.pop(nm)
    check(w.register(sv.client, cat.specs[nm, 1]), "stuck", lambda: f"name {nm} cannot be registered after the crash; catalogue {final}")
    st[nm] = cat.specs[nm, 1].tag
    end = final_state(w, cat, sv.client, "end")
    check(end == tuple(sorted(st.items())), "catalogue-contents", lambda: f"{end} instead of {st}")
    return dict(what=f"{rounds} rounds, {crashed} crashes, {len(hist)} operations", nontrivial=crashed > 0)


def faults(w):
    """Errors of the database, the file system and the metadata workers while datasets are registered and removed in process or at a server."""
    k = w.k
    served = w.flip()
    if served:
        sv = c.Served(w)
        client, proc = sv.client, sv.h.proc
    else:
        client, proc = w.local(w.mkdir("loc")), None
    names = two_names(w)
    cat = Catalogue(w, names)
    keep = w.dataset("keep", nfiles=2, lines=(3, 6))
    keep.variant = 0
    cat.specs["keep", 0] = keep
    check(w.register_parser(client), "setup:parser", "parser")
    check(w.register(client, keep), "setup:register", "keep")
    state = {"keep": keep.tag}
    inj = 0
    log = []
    for i in range(2 + w.ch(4)):
        fault = w.pick((None, "db.exec", "db.exec", "fs.open.r", "cut", "gone", "kill-worker"))
        nm = w.pick(names)
        hit = []
        spec = cat.specs[nm, w.ch(2)]
        saved = None
        me = k.cur.proc
        if fault in ("db.exec", "db.commit", "fs.open.r"):
            nth = w.ch(14) if fault == "db.exec" else w.ch(3)

            def match(p, kd, detail, fault=fault):
                if fault == "fs.open.r":
                    return kd == fault and str(detail).startswith("data/")
                return kd == fault

            K.add_plan(k, match, nth, lambda kk, p, kd, detail, hit=hit: (hit.append(kd), ("err", errno.EIO))[1], f"{fault}-error", 1)
        elif fault == "kill-worker":  # e.g. the OOM killer ends one of the processes that read the files

            def kill_worker(kk, p, kd, detail, hit=hit):
                hit.append("worker killed")
                kk.kill(p)

            base = me if proc is None else proc
            K.add_plan(k, lambda p, kd, detail, base=base: p.name.startswith(base.name + "/") and "_worker#Pool" in p.name, w.ch(4), kill_worker, "kill-worker", 1)
        elif fault == "cut" and spec.kind == "jsonl" and spec.files[0].endswith("jsonl"):
            saved = (spec.files[-1], open(spec.files[-1], "rb").read())
            w.write(spec.files[-1], saved[1][: max(1, len(saved[1]) - 9)] if saved[1] else b"{")
            hit.append("truncated file")
        elif fault == "gone":
            import os

            saved = (spec.files[-1], open(spec.files[-1], "rb").read())
            w.write(spec.files[-1], b'{"text": 1')
            hit.append("unreadable file")
        op = Op(0, "reg", (nm, spec.tag), 0) if w.flip(2, 3) else Op(0, "rm", nm, 0)
        try:
            run_op(w, cat, client, op, k)
        except Exception as e:  # noqa: BLE001
            check(hit, "unexpected-error", lambda: f"{op} raised {type(e).__name__}: {e} without any injected fault")
            op.res = "?"
        k.plans = []
        if saved:
            w.write(*saved)
        log.append((op, list(hit)))
        inj += len(hit)
        # what the catalogue says now
        now = dict(final_state(w, cat, client, f"f{i}"))
        can = []
        if op.op == "reg":
            if op.res is True:
                ok = nm not in state
                can = [{**state, nm: spec.tag}] if ok else []
            else:
                can = [state] if (nm in state or hit) else []
                if op.res == "?" and nm not in state:
                    can.append({**state, nm: spec.tag})
        else:
            gone = {a: b for a, b in state.items() if a != nm}
            if op.res is True:
                can = [gone] if nm in state else []
            else:
                can = [state] if (nm not in state or hit) else []
                if op.res == "?":
                    can.append(gone)
        check(now in can, "catalogue-after-fault", lambda: f"{op} with faults {hit}: catalogue {state} became {now}; all: {log}")
        state = now
    return dict(what=f"{'server' if served else 'local'}: {len(log)} operations, {inj} faults", nontrivial=inj > 0)


SCENARIOS = [Scenario("linear", linear, 3), Scenario("crash", crash, 3), Scenario("faults", faults, 2)]
