"""P12: misbehaving clients affect only their own requests."""
import asyncio

from checks import common as c
from sim import kernel as K
from sim import net
from sim.runner import Scenario
from sim.world import HOST, PORT, check

PROP = "P12"


def i8(v):
    return int(v).to_bytes(8, "big", signed=True)


def s8(s, size=8):
    b = s.encode() if isinstance(s, str) else s
    return len(b).to_bytes(size, "big") + b


def pick(o):
    import dill

    b = dill.dumps(o)
    return len(b).to_bytes(16, "big") + b


def requests(w, job):
    """Well-formed requests; only strict prefixes of those that would legitimately change shared state are sent."""
    from mixtera.core.datacollection.datasets.dataset_type import DatasetType
    from mixtera.network.server_task import ServerTask as T

    q = w.query(job, ())
    out = {
        "REGISTER_QUERY": i8(T.REGISTER_QUERY) + pick(c.arbitrary(3)) + i8(1) + i8(1) + i8(0) + pick(q),
        "QUERY_EXEC_STATUS": i8(T.QUERY_EXEC_STATUS) + s8(job),
        "READ_FILE": i8(T.READ_FILE) + s8("/nonexistent/file"),
        "GET_META_RESULT": i8(T.GET_META_RESULT) + s8(job),
        "GET_NEXT_RESULT_CHUNK": i8(T.GET_NEXT_RESULT_CHUNK) + s8(job) + i8(0) + i8(0) + i8(0),
        "REGISTER_DATASET": i8(T.REGISTER_DATASET) + s8("zz") + s8("/nonexistent") + i8(DatasetType.JSONL_DATASET.value) + pick(None) + s8("VP"),
        "DATASET_REGISTRATION_STATUS": i8(T.DATASET_REGISTRATION_STATUS) + s8("unknown-id"),
        "REGISTER_METADATA_PARSER": i8(T.REGISTER_METADATA_PARSER) + s8("VP2") + s8("class X(MetadataParser):\n    pass\n", 16),
        "CHECK_DATASET_EXISTS": i8(T.CHECK_DATASET_EXISTS) + s8("d0"),
        "LIST_DATASETS": i8(T.LIST_DATASETS),
        "REMOVE_DATASET": i8(T.REMOVE_DATASET) + s8("d0"),
        "CHECKPOINT": i8(T.CHECKPOINT) + s8(job) + i8(0) + i8(0) + i8(2) + i8(1) + i8(1),
        "CHECKPOINT_COMPLETED": i8(T.CHECKPOINT_COMPLETED) + s8(job) + s8("chkpnt_9") + i8(1),
        "RESTORE_CHECKPOINT": i8(T.RESTORE_CHECKPOINT) + s8(job) + s8("chkpnt_9"),
        "RECEIVE_FEEDBACK": i8(T.RECEIVE_FEEDBACK) + s8(job) + i8(100) + i8(0) + i8(0) + i8(0),
    }
    return out


PARTIAL = ("REGISTER_QUERY", "CHECKPOINT", "RESTORE_CHECKPOINT", "GET_NEXT_RESULT_CHUNK", "REMOVE_DATASET", "REGISTER_DATASET", "RECEIVE_FEEDBACK", "REGISTER_METADATA_PARSER")


def bad_bytes(w, dims):
    """One misbehaviour: (description, bytes, how the connection ends, pause before the end)."""
    from mixtera.network.server_task import ServerTask as T

    dp, nodes, nw = dims
    x = w.ch(12)
    how = w.pick(("close", "abort", "read", "hold"))
    hold = (0.0, 1.0, 15.0, 600.0)[w.ch(4)] if how == "hold" else 0.0
    full = requests(w, "job")
    if x <= 4:  # a request of the running job, cut anywhere before its end
        name = w.pick(PARTIAL)
        b = full[name]
        cuts = sorted({1, 7, 8, 15, 16, len(b) - 1, len(b) - 8, len(b) - 9, len(b) // 2, len(b) - 16})
        cut = w.pick([q for q in cuts if 0 < q < len(b)])
        return f"{name} cut at {cut} of {len(b)}", b[:cut], how, hold
    if x == 5:
        return "unknown task", i8(w.pick((17, 99, -1, 3, 2**62))) + b"\x00" * 40, how, hold
    if x == 6:  # unknown job, complete request
        other = requests(w, "nojob")
        name = w.pick(("GET_NEXT_RESULT_CHUNK", "GET_META_RESULT", "CHECKPOINT", "CHECKPOINT_COMPLETED", "RECEIVE_FEEDBACK", "RESTORE_CHECKPOINT", "QUERY_EXEC_STATUS", "DATASET_REGISTRATION_STATUS"))
        return f"{name} for an unknown job", other[name], how, hold
    if x == 7:  # out-of-range consumer of the running job
        d, n, q = w.pick(((dp, 0, 0), (0, nodes, 0), (0, 0, nw), (-1, 0, 0), (0, -1, 0), (0, 0, -1), (2**40, 0, 0)))
        return f"GET_NEXT_RESULT_CHUNK for ({d},{n},{q})", i8(T.GET_NEXT_RESULT_CHUNK) + s8("job") + i8(d) + i8(n) + i8(q), how, hold
    if x == 8:  # malformed content
        b = w.pick((i8(T.REGISTER_QUERY) + s8(b"garbage", 16) * 2, i8(T.READ_FILE) + s8(b"\xff\xfe\xfa"), i8(T.GET_NEXT_RESULT_CHUNK) + i8(2**40) + b"x" * 100,
                    i8(T.REGISTER_METADATA_PARSER) + s8("q") + s8("raise RuntimeError('x')", 16), i8(T.REGISTER_DATASET) + s8("zz") + s8("/x") + i8(77),
                    i8(T.CHECK_DATASET_EXISTS) + i8(-5) + b"abc", i8(T.RECEIVE_FEEDBACK) + s8("job") + i8(1) + i8(0) + i8(1) + s8(b"nonsense", 16)))
        return f"malformed {b[:8]!r}..", b, how, hold
    if x == 9:
        return "READ_FILE of a missing file", full["READ_FILE"], how, hold
    if x == 10:
        return "duplicate REGISTER_QUERY", full["REGISTER_QUERY"], "read", 0.0
    return "nothing", b"", how, hold


def isolation(w):
    k = w.k
    sv = c.Served(w)
    dp, nodes, workers = 1 + w.ch(2), 1 + w.ch(2), w.ch(3)
    nw = max(1, workers)
    specs = [w.dataset(f"d{i}", nfiles=1 + w.ch(2), lines=(4, 12)) for i in range(1 + w.ch(2))]
    c.register_all(w, sv.client, specs)
    import copy

    mix, desc = c.gen_mixture(w, kinds=("arb", "arb", "best", "strict"))
    c.run_query(w, sv.client, "ref", copy.deepcopy(mix))
    ref = sorted(x[2] for x in c.consume(sv.client, c.stream_args("ref")))
    c.run_query(w, sv.client, "job", mix, (), dp, nodes, workers)
    bads = [bad_bytes(w, (dp, nodes, nw)) for _ in range(1 + w.ch(6))]
    when = [(0.0, 0.001, 0.01, 0.1, 2.0)[w.ch(5)] for _ in bads]
    over = []
    stop = []

    def rogue(i):
        what, data, how, hold = bads[i]

        async def main():
            await asyncio.sleep(when[i])
            reader, writer = await asyncio.open_connection(HOST, PORT)
            split = (0, 0, len(data) // 2)[i % 3]
            if split:
                writer.write(data[:split])
                await asyncio.sleep(0.5)
            writer.write(data[split:])
            try:
                await writer.drain()
                if how == "hold":
                    await asyncio.sleep(hold)
                elif how == "read":
                    await asyncio.wait_for(reader.read(1 << 20), 200)
                if how == "abort":
                    writer.transport.abort()
                else:
                    writer.close()
            except (ConnectionError, OSError, asyncio.TimeoutError):
                pass

        net.run(main())
        over.append(i)

    lat = []

    def pinger():
        cl = w.remote()
        i = 0
        while not stop:
            t0 = k.now
            op = i % 3
            try:
                if op == 0:
                    v = sorted(cl.list_datasets())
                    check(v == sorted(s.name for s in specs), "wrong-answer", lambda: f"list_datasets: {v}; {[b[0] for b in bads]}")
                elif op == 1:
                    check(cl.check_dataset_exists("d0") is True, "wrong-answer", lambda: f"check_dataset_exists; {[b[0] for b in bads]}")
                else:
                    check(cl.wait_for_execution("job") is True, "wrong-status", lambda: f"wait_for_execution of the running job failed; {[b[0] for b in bads]}")
            except (OSError, RuntimeError, EOFError) as e:
                check(False, "request-failed", lambda: f"call {op} of a well-behaved client failed: {type(e).__name__} {e}; {[b[0] for b in bads]}")
            lat.append(k.now - t0)
            check(k.now - t0 < 8.0, "blocked", lambda: f"call {op} of a well-behaved client took {k.now - t0:.1f} s; {[b[0] for b in bads]}")
            k.sleep(0.3, "ping")
            i += 1

    def body(key, sink):
        t = [k.now]

        def think(n):
            check(k.now - t[0] < 12.0, "blocked", lambda: f"stream {key} waited {k.now - t[0]:.1f} s for sample {n}; {[b[0] for b in bads]}")
            if k.rare("s", 0.2, 4):
                k.sleep((0.01, 0.3, 2.0)[w.ch(3)], "think")
            t[0] = k.now

        try:
            c.consume(w.remote(), c.stream_args("job", *key), think=think, sink=sink)
        except (OSError, RuntimeError, EOFError) as e:
            check(False, "request-failed", lambda: f"stream {key} failed: {type(e).__name__} {e}; {[b[0] for b in bads]}")
        check(k.now - t[0] < 12.0, "blocked", lambda: f"stream {key} waited {k.now - t[0]:.1f} s for its end; {[b[0] for b in bads]}")

    rh = [w.proc(f"rogue{i}", lambda i=i: rogue(i)) for i in range(len(bads))]
    ph = w.proc("pinger", pinger)
    out = c.run_consumers(w, [(d, n, q) for d in range(dp) for n in range(nodes) for q in range(nw)], body)
    k.sleep((0.0, 1.0, 70.0)[w.ch(3)], "linger")
    stop.append(1)
    w.join(ph)
    for h in rh:
        w.join(h)
    k.sleep(1.0, "settle")
    check(sv.h.proc.alive, "server-died", lambda: f"{[b[0] for b in bads]}")
    for n in range(nodes):
        got = sorted(x[2] for d in range(dp) for q in range(nw) for x in out[(d, n, q)])
        if dp == 1 or nodes == 1:
            check(got == ref, "data-changed", lambda: f"node {n}: {c.diff(got, ref)}; {[b[0] for b in bads]}")
    for d in range(dp):
        for q in range(nw):
            for n in range(1, nodes):
                check(out[(d, n, q)] == out[(d, 0, q)], "data-changed", lambda: f"nodes of ({d},{q}) differ; {[b[0] for b in bads]}")
    # the server is still fully usable: status, checkpointing of the job, a new job and a new dataset
    check(sv.client.wait_for_execution("job") is True, "wrong-status", lambda: f"the finished job is reported as failed; {[b[0] for b in bads]}")
    c.run_query(w, sv.client, "after", c.arbitrary(5))
    got = sorted(x[2] for x in c.consume(sv.client, c.stream_args("after")))
    check(got == sorted(c.expected(specs)), "data-changed", lambda: f"job after the incidents: {c.diff(got, sorted(c.expected(specs)))}; {[b[0] for b in bads]}")
    ids = set()
    for d in range(dp):
        for n in range(nodes):
            ids.add(sv.client.checkpoint("job", d, n, [0] * nw))
    check(len(ids) == 1, "checkpoint-broken", lambda: f"one round of reports gave the ids {ids}; {[b[0] for b in bads]}")
    return dict(what=f"{desc} dp={dp} nodes={nodes} workers={workers}: {[(b[0], b[2], b[3]) for b in bads]}, max latency {max(lat or [0]):.2f}", nontrivial=bool(bads))


def busy(w):
    """One client has the server execute something that takes long; the others do not notice."""
    k = w.k
    sv = c.Served(w)
    specs = [w.dataset(f"d{i}", nfiles=1 + w.ch(2), lines=(4, 12)) for i in range(1 + w.ch(2))]
    late = w.dataset("late", nfiles=1 + w.ch(2), lines=(3, 6))
    gone = w.dataset("gone", nfiles=1, lines=(3, 6))
    ops = [w.pick(("register", "query", "remove", "restore", "checkpoint"))]
    if w.flip(1, 3):
        ops.append(w.pick([o for o in ("register", "query", "remove", "restore", "checkpoint") if o not in ops]))
    c.register_all(w, sv.client, specs + [gone] * ("remove" in ops))
    dp, nodes, workers = 1 + w.ch(2), 1 + w.ch(2), w.ch(2)
    names = [s.name for s in specs] + ["gone"] * ("remove" in ops)
    c.run_query(w, sv.client, "job", c.arbitrary(2 + w.ch(4)), (), dp, nodes, workers)
    cid = None
    if set(ops) & {"restore", "checkpoint"}:
        c.run_query(w, sv.client, "other", c.arbitrary(3))
        if "restore" in ops or w.flip():  # otherwise the slow checkpoint is the first one, which copies the cached result
            cid = sv.client.checkpoint("other", 0, 0, [0])
            while not sv.client.checkpoint_completed("other", cid, True):
                k.sleep(0.2, "poll")
    dur = (15.0, 25.0, 50.0)[w.ch(3)]
    hits = {
        "register": lambda p, q, d: (q == "fs.open.r" and "/late/" in "/" + str(d)) or (q == "db.exec" and "INSERT INTO samples" in str(d)),
        "query": lambda p, q, d: q == "db.exec" and "samples" in str(d) and "SELECT" in str(d).upper() and "INSERT" not in str(d).upper(),
        "remove": lambda p, q, d: q == "db.exec" and "DELETE" in str(d).upper(),
        "restore": lambda p, q, d: q == "fs.open.r" and "chkpnt_" in str(d),
        "checkpoint": lambda p, q, d: q.startswith("fs.") and "chkpnt_" in str(d) and "/" in p.name,
    }
    plans = [K.add_plan(k, lambda p, q, d, o=o: p.name.startswith("server") and hits[o](p, q, d), 0, lambda *a: k.sleep(dur, "slow"), f"slow-{o}", 1 + w.ch(2)) for o in ops]
    what = f"{ops} take {dur} s"
    stop, lat, failed = [], [], []

    def long(o):
        try:
            submit(o)
        except (OSError, RuntimeError, EOFError):  # e.g. a timeout: the operation itself may fail
            failed.append(o)

    def submit(o):
        cl = w.remote()
        k.sleep((0.0, 0.05, 1.0)[w.ch(3)], "submit")
        if o == "register":
            w.register(cl, late)
        elif o == "query":
            cl.execute_query(w.query("long", [("lang", "==", "en")]), c.exec_args(c.arbitrary(4)))
            cl.wait_for_execution("long")
        elif o == "remove":
            cl.remove_dataset("gone")
        elif o == "restore":
            cl.restore_checkpoint("other", cid)
            cl.wait_for_execution("other")
        else:
            x = cl.checkpoint("other", 0, 0, [0])
            for _ in range(200):  # a restore of the job meanwhile forgets the checkpoint
                if cl.checkpoint_completed("other", x, True):
                    break
                k.sleep(0.5, "poll")

    def pinger():
        from mixtera.utils.feedback import ClientFeedback

        cl = w.remote()
        i = 0
        while not stop:
            t0 = k.now
            op = w.ch(4)
            try:
                if op == 0:
                    v = set(cl.list_datasets())
                    check({s.name for s in specs} <= v <= {*names, "late"}, "wrong-answer", lambda: f"list_datasets: {v}; {what}")
                elif op == 1:
                    check(cl.check_dataset_exists("d0") is True, "wrong-answer", lambda: f"check_dataset_exists; {what}")
                elif op == 2:
                    check(cl.wait_for_execution("job") is True, "wrong-status", lambda: f"wait_for_execution of the running job failed; {what}")
                else:
                    check(cl.process_feedback("job", ClientFeedback(training_steps=i, mixture_id=0)) is True, "wrong-answer", lambda: f"feedback refused; {what}")
            except (OSError, RuntimeError, EOFError) as e:
                check(False, "request-failed", lambda: f"call {op} failed: {type(e).__name__} {e}; {what}")
            lat.append(k.now - t0)
            check(k.now - t0 < 8.0, "blocked", lambda: f"call {op} of another client took {k.now - t0:.1f} s; {what}")
            k.sleep(0.3, "ping")
            i += 1

    def body(key, sink):
        t = [k.now]

        def think(n):
            check(k.now - t[0] < 12.0, "blocked", lambda: f"stream {key} waited {k.now - t[0]:.1f} s for sample {n}; {what}")
            if k.rare("s", 0.3, 6):
                k.sleep((0.3, 2.0, 9.0)[w.ch(3)], "think")
            t[0] = k.now

        try:
            c.consume(w.remote(), c.stream_args("job", *key), think=think, sink=sink)
        except (OSError, RuntimeError, EOFError) as e:
            check(False, "request-failed", lambda: f"stream {key} failed: {type(e).__name__} {e}; {what}")
        check(k.now - t[0] < 12.0, "blocked", lambda: f"stream {key} waited {k.now - t[0]:.1f} s for its end; {what}")

    lh = [w.proc(f"long{i}", lambda o=o: long(o)) for i, o in enumerate(ops)]
    ph = w.proc("pinger", pinger)
    nw = max(1, workers)
    out = c.run_consumers(w, [(d, n, q) for d in range(dp) for n in range(nodes) for q in range(nw)], body)
    for h in lh:
        w.join(h)
    stop.append(1)
    w.join(ph)
    for n in range(nodes):
        got = sorted(x[2] for d in range(dp) for q in range(nw) for x in out[(d, n, q)])
        want = sorted(c.expected(specs + [gone] * ("remove" in ops)))
        check(dp > 1 and nodes > 1 or got == want, "data-changed", lambda: f"node {n}: {c.diff(got, want)}; {what}")
    return dict(what=f"{what}, dp={dp} nodes={nodes} workers={workers}, max latency {max(lat or [0]):.2f}", nontrivial=any(p.fired for p in plans))


def uncached(w):
    """The first checkpoint of a job whose cached query result has been invalidated, while the disk is slow."""
    k = w.k
    sv = c.Served(w)
    specs = [w.dataset(f"d{i}", nfiles=1 + w.ch(2), lines=(4, 12)) for i in range(1 + w.ch(2))]
    late = w.dataset("late", nfiles=1, lines=(3, 6))
    c.register_all(w, sv.client, specs)
    c.run_query(w, sv.client, "job", c.arbitrary(2 + w.ch(4)))
    c.run_query(w, sv.client, "other", c.arbitrary(3))
    check(w.register(sv.client, late), "setup:register", "register_dataset(late) returned false")
    c.run_query(w, sv.client, "third", c.arbitrary(3))  # the same query: replaces the outdated entry of the cache
    plan = K.add_plan(k, lambda p, q, d: q.startswith("fs.") and "chkpnt_" in str(d) and p.name.startswith("server/"), 0, lambda *a: k.sleep(15.0, "slow"), "slow-checkpoint", 1 + w.ch(2))

    def long():
        cl = w.remote()
        k.sleep((0.0, 0.05, 1.0)[w.ch(3)], "submit")
        try:
            x = cl.checkpoint("other", 0, 0, [0])
            for _ in range(200):
                if cl.checkpoint_completed("other", x, True):
                    break
                k.sleep(0.5, "poll")
        except (OSError, RuntimeError, EOFError):
            pass

    h = w.proc("long", long)
    cl = w.remote()
    lat = []
    for i in range(12):
        t0 = k.now
        try:
            check(cl.check_dataset_exists("d0") is True, "wrong-answer", "check_dataset_exists")
        except (OSError, RuntimeError, EOFError) as e:
            check(False, "request-failed", lambda: f"failed after {k.now - t0:.1f} s: {type(e).__name__} {e}; the first checkpoint of a job without cached result takes long")
        lat.append(k.now - t0)
        check(lat[-1] < 8.0, "blocked", lambda: f"call of another client took {lat[-1]:.1f} s; the first checkpoint of a job without cached result takes long")
        k.sleep(0.3, "ping")
    w.join(h)
    return dict(what=f"max latency {max(lat):.2f}", nontrivial=bool(plan.fired))


EXTRA = [Scenario("uncached", uncached, 0)]
SCENARIOS = [Scenario("isolation", isolation, 2), Scenario("busy", busy, 1)]
QUICK = dict(runs=900, secs=32.0)
