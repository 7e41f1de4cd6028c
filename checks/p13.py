"""P13: reported execution and registration status is the truth."""
import copy
import errno

from checks import common as c
from sim import kernel as K
from sim.runner import Scenario
from sim.world import check

PROP = "P13"
BAD = (dict(dp=0), dict(nodes=0), dict(dp=-1, nodes=2))  # configurations whose execution fails on the server


def submit(w):
    """Several nodes submit and wait for overlapping job ids; queries may fail; the statuses must agree with what streams."""
    k = w.k
    sv = c.Served(w)
    specs = c.corpus(w, lines=(3, 10))
    c.register_all(w, sv.client, specs)
    njobs = 1 + w.ch(3)
    jobs = [f"j{i}" for i in range(njobs)]
    plan = None
    kind = {j: w.pick(("ok", "ok", "bad", "diskfault")) for j in jobs}
    conds = {j: w.pick(((), ([("lang", "==", ["en", "de", "fr"])],), ([("lic", "==", "mit")],))) for j in jobs}
    conf = {j: (w.pick(BAD) if kind[j] == "bad" else {}) for j in jobs}
    if any(v == "diskfault" for v in kind.values()):
        err = w.pick((errno.ENOSPC, errno.EIO))
        kk = w.pick(("fs.write", "fs.open.w", "fs.mkdir", "db.exec"))
        plan = K.add_plan(k, lambda p, q, d: p.name.startswith("server") and q == kk, w.ch(30), lambda *a: ("err", err), "disk", 1)
    sizes = {j: (3, 5, 9)[w.ch(3)] for j in jobs}
    nodes = 1 + w.ch(4)
    script = [[(w.pick(("submit", "submit", "wait", "list")), w.pick(jobs), (0.0, 0.0, 0.01, 0.6, 3.0)[w.ch(5)]) for _ in range(1 + w.ch(4))] for _ in range(nodes)]
    hist = []

    def node(i):
        cl = w.remote()
        for op, j, pause in script[i]:
            if pause:
                k.sleep(pause, "pause")
            if op == "submit":
                rec = ["submit", j, i, None, k.now]
                hist.append(rec)
                rec[3] = cl.execute_query(w.query(j, conds[j]), c.exec_args(c.arbitrary(sizes[j]), **conf[j]))
                rec.append(k.now)
            elif op == "wait":
                if not any(h[0] == "submit" and h[1] == j for h in hist):
                    continue  # nobody will ever submit it: covered by a separate scenario
                t = k.now
                r = cl.wait_for_execution(j)
                hist.append(["wait", j, i, r, t, k.now])
                check(k.now - t < 2200, "unbounded-wait", lambda: f"waiting for {j} took {k.now - t} s; {hist}")
            else:
                cl.list_datasets()

    hs = [w.proc(f"node{i}", lambda i=i: node(i)) for i in range(nodes)]
    for h in hs:
        w.join(h)
    k.plans = []
    what = f"{kind} {conds} {conf} {hist}"
    res = {}
    for j in jobs:
        subs = [h for h in hist if h[0] == "submit" and h[1] == j]
        if not subs:
            continue
        t = k.now
        st = sv.client.wait_for_execution(j)
        check(k.now - t < 120, "unbounded-wait", lambda: f"{j}: {what}")
        res[j] = st
        acc = [h for h in subs if h[3]]
        if kind[j] == "ok" and not (plan and plan.fired):
            check(len(acc) == 1, "accepted-twice" if len(acc) > 1 else "refused", lambda: f"{len(acc)} of {len(subs)} submissions of {j} were accepted: {what}")
            check(st is True, "wrong-status", lambda: f"{j} was executed, but is reported as failed: {what}")
            for h in hist:
                if h[0] == "wait" and h[1] == j:
                    check(h[3] is True, "wrong-status", lambda: f"{h}: {what}")
        if kind[j] == "bad":
            check(st is False, "wrong-status", lambda: f"{j} cannot be executed, but is reported as executed: {what}")
        if st is True:
            exp = sorted(c.expected(specs, conds[j]))
            got = sorted(x[2] for x in c.consume(sv.client, c.stream_args(j)))
            check(got == exp, "success-without-data", lambda: f"{j} is reported as executed, but streaming it: {c.diff(got, exp)}; {what}")
            # a job that runs or has run is refused and stays what it is
            check(sv.client.execute_query(w.query(j, conds[j]), c.exec_args(c.arbitrary(3))) is False, "accepted-twice", lambda: f"{j} again: {what}")
            check(sv.client.wait_for_execution(j) is True, "wrong-status", lambda: f"{j} is reported as failed after a refused duplicate: {what}")
        else:
            # a failed job can be submitted again and then works
            ok = sv.client.execute_query(w.query(j, ()), c.exec_args(c.arbitrary(4)))
            check(ok and sv.client.wait_for_execution(j) is True, "no-retry", lambda: f"{j} failed and cannot be submitted again: {what}")
            got = sorted(x[2] for x in c.consume(sv.client, c.stream_args(j)))
            exp = sorted(c.expected(specs))
            check(got == exp, "success-without-data", lambda: f"{j} second attempt: {c.diff(got, exp)}; {what}")
    return dict(what=what, nontrivial=len(hist) > 1)


def early(w):
    """Nodes wait, ask for metadata and stream before the job was submitted or while it is still executing."""
    k = w.k
    sv = c.Served(w)
    specs = c.corpus(w, lines=(3, 10))
    c.register_all(w, sv.client, specs)
    fail = w.flip(1, 4)
    delay = (0.0, 0.5, 5.0, 30.0)[w.ch(4)]
    nodes = 1 + w.ch(3)
    mode = [w.pick(("wait", "stream", "waitstream", "meta")) for _ in range(nodes)]
    slow = w.flip(1, 3)
    if slow:  # a query that takes long
        dur = (3.0, 20.0, 45.0)[w.ch(3)]
        K.add_plan(k, lambda p, q, d: p.name.startswith("server") and q == "db.exec", w.ch(6), lambda *a: k.sleep(dur, "slow query"), "slow", 1)
    out = {}
    mix = c.gen_mixture(w, kinds=("arb",))[0]

    def node(i):
        cl = w.remote()
        m = mode[i]
        try:
            if m in ("wait", "waitstream"):
                t = k.now
                r = cl.wait_for_execution("job")
                check(k.now - t < 2200, "unbounded-wait", lambda: f"{k.now - t}")
                check(r is (not fail), "wrong-status", lambda: f"wait_for_execution returned {r}, the query {'fails' if fail else 'succeeds'}")
            if m == "meta" and not fail:
                meta = cl._get_result_metadata("job")
                check(len(meta[2]) == sum(len(s.files) for s in specs), "wrong-meta", lambda: f"{meta}")
            if m in ("stream", "waitstream") and not fail:
                out[i] = c.consume(cl, c.stream_args("job", 0, i, 0))
        except (OSError, RuntimeError, EOFError) as e:
            # requests for a job that is not there within the read timeout fail, waiting does not
            check(m in ("meta", "stream") and (delay > 4 or slow), "request-failed", lambda: f"node {i} ({mode[i]}) delay {delay} slow {slow}: {type(e).__name__} {e}")

    hs = [w.proc(f"node{i}", lambda i=i: node(i)) for i in range(nodes)]
    if delay:
        k.sleep(delay, "delay")
    t0 = k.now
    conf = w.pick(BAD) if fail else dict(nodes=nodes)
    check(sv.client.execute_query(w.query("job"), c.exec_args(mix, **conf)), "refused", "first submission was refused")
    st = sv.client.wait_for_execution("job")
    check(st is (not fail), "wrong-status", lambda: f"{st} but fail={fail}")
    check(k.now - t0 < 200, "unbounded-wait", lambda: f"{k.now - t0}")
    for h in hs:
        w.join(h)
    exp = sorted(c.expected(specs))
    for i, o in out.items():
        got = sorted(x[2] for x in o)
        check(got == exp, "success-without-data", lambda: f"node {i}: {c.diff(got, exp)}")
    return dict(what=f"{mode} delay {delay} slow {slow} fail {fail}", nontrivial=True)


def registration(w):
    """Dataset registrations report success exactly when the dataset is usable; parsers that fail, missing locations, duplicate names, restarts while waiting."""
    k = w.k
    sv = c.Served(w)
    check(w.register_parser(sv.client), "setup:parser", "parser")
    specs = [w.dataset(f"d{i}", nfiles=1 + w.ch(3), lines=(2, 8)) for i in range(1 + w.ch(3))]
    how = {}
    for s in specs:
        h = how[s.name] = w.pick(("ok", "ok", "broken", "noparser", "missing"))
        if h == "broken":
            with K.no_preempt():
                w.write(s.files[w.ch(len(s.files))], b'{"text": "x", "lang": "en"\nnot json\n')
    crash = w.flip(1, 4)
    dup = w.flip(1, 3)
    res = {}

    def node(i):
        for s in (specs if i == 0 else (specs if dup else ())):
            h = how[s.name]
            cl = w.remote()
            loc = s.loc
            if h == "missing":
                s2 = copy.copy(s)
                s2.loc = loc + "-nowhere"
                args = (s2,)
            else:
                args = (s,)
            t = k.now
            try:
                r = w.register(cl, *args, parser="VP" if h != "noparser" else "unknown")
            except (OSError, RuntimeError, EOFError) as e:
                r = f"{type(e).__name__}: {e}"
            res[(s.name, i)] = (r, t, k.now)
            check(k.now - t < 1500, "unbounded-wait", lambda: f"registering {s.name} ({h}) took {k.now - t:.0f} s: {res}")

    hs = [w.proc(f"node{i}", lambda i=i: node(i)) for i in range(2)]
    t_crash = None
    if crash:
        k.sleep((0.0, 0.0005, 0.001, 0.005, 0.02, 0.1, 1.0)[w.ch(7)], "crash")
        if any(h.proc.alive for h in hs):
            t_crash = k.now
            k.count("fault:server-kill")
            sv.restart()
            check(w.register_parser(sv.client), "setup:parser", "parser")
    for h in hs:
        w.join(h)
    k.sleep(2, "settle")
    ls = sv.client.list_datasets()
    what = f"{how} crash at {t_crash} dup {dup}: {res}; catalogue {ls}"
    for s in specs:
        rs = [v[0] for (n, i), v in res.items() if n == s.name]
        h = how[s.name]
        if h in ("broken", "noparser", "missing"):
            check(True not in rs, "wrong-status", lambda: f"{s.name} ({h}) is reported as registered: {what}")
            check(s.name not in ls or h == "missing", "wrong-status", lambda: f"{s.name} ({h}) is listed: {what}")
        else:
            check(rs.count(True) <= 1, "accepted-twice", lambda: f"{s.name}: {what}")
            if True in rs:
                check(s.name in ls, "success-without-data", lambda: f"{s.name} is reported as registered, but not listed: {what}")
            if t_crash is None:
                check(rs.count(True) == 1, "wrong-status", lambda: f"{s.name} was not registered: {what}")
    good = [s for s in specs if s.name in ls]
    if good:
        c.run_query(w, sv.client, "all", c.arbitrary(5))
        got = sorted(x[2] for x in c.consume(sv.client, c.stream_args("all")))
        exp = sorted(c.expected(good))
        check(got == exp, "success-without-data", lambda: f"{c.diff(got, exp)}: {what}")
    return dict(what=what, nontrivial=True)


def local(w):
    """The in-process client: refusal of duplicates, waiting, failing queries."""
    k = w.k
    client = w.local(w.mkdir("loc"))
    specs = c.corpus(w, lines=(3, 10))
    c.register_all(w, client, specs)
    hist = []
    state = {}

    def one(j, i):
        bad = w.flip(1, 4)
        conf = w.pick(BAD) if bad else {}
        size = 3 + w.ch(4)
        try:
            r = client.execute_query(w.query(j), c.exec_args(c.arbitrary(size), **conf))
        except Exception as e:  # noqa: BLE001
            r = f"{type(e).__name__}"
        hist.append((j, bad, r))
        if bad:
            check(r is not True, "wrong-status", lambda: f"{hist}")
        elif state.get(j):
            check(r is False, "accepted-twice", lambda: f"{hist}")
        else:
            check(r is True, "refused", lambda: f"{hist}")
            state[j] = True

    for i in range(1 + w.ch(6)):
        one(f"j{w.ch(3)}", i)
    for j in ("j0", "j1", "j2"):
        t = k.now
        r = client.wait_for_execution(j)
        check(r is bool(state.get(j)), "wrong-status", lambda: f"{j}: {r}; {hist}")
        check(k.now - t < 60, "unbounded-wait", lambda: f"{j}")
        if r:
            got = sorted(x[2] for x in c.consume(client, c.stream_args(j)))
            check(got == sorted(c.expected(specs)), "success-without-data", lambda: f"{j}: {hist}")
    return dict(what=f"{hist}", nontrivial=len(hist) > 1)


SCENARIOS = [Scenario("submit", submit, 4), Scenario("early", early, 3), Scenario("registration", registration, 3), Scenario("local", local, 1)]
QUICK = dict(runs=900, secs=30.0)
