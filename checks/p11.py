"""P11: a failed exchange is reported as a failure; a stream never ends early without an error."""
from checks import common as c
from sim import kernel as K
from sim.runner import Scenario
from sim.world import PORT, check

PROP = "P11"


class Faults:
    """Faults on connections opened while it is active; decided per connection."""

    def __init__(self, w, server=None, names=("c",)):
        self.w, self.k = w, w.k
        self.rate = w.pick((2, 3, 6, 12))
        self.kinds = w.pick((("fin",), ("reset",), ("stall",), ("fin", "reset"), ("fin", "reset", "stall", "blackhole")))
        self.log = []
        self.until = 0.0
        self.names = names

    def plan(self, conn):
        k = self.k
        if not conn.cproc.name.startswith(self.names) or k.choose("f", self.rate):
            return None
        kind = self.kinds[k.choose("f", len(self.kinds))]
        side = k.choose("f", 2)
        pos = (0, 1, 7, 8, 12, 16, 17, 24, 40, 48, 49, 100, 500, 2000)[k.choose("f", 14)]
        dur = (1.0, 9.0, 11.0, 100.0, 700.0)[k.choose("f", 5)] if kind in ("stall", "blackhole") else 0
        self.log.append((conn.cproc.name, kind, side, pos, dur))
        return (side, pos, kind, dur)

    def on(self):
        self.k.net.fault_plan = self.plan
        if self.w.flip(1, 4):
            self.until = self.k.now + (5.0, 60.0, 1000.0)[self.w.ch(3)]
            self.k.net.refuse = lambda: self.k.now < self.until and K.current().proc.name.startswith(self.names)

    def off(self):
        self.k.net.fault_plan = None
        self.k.net.refuse = None


def samples(chunk):
    return tuple(x[2] for x in chunk)


def streams(w, dp, nodes, nw, ref, out, errs, desc):
    """Every stream that ended regularly is complete; nothing is delivered twice or altered."""
    where = {}
    index = {ch: i for i, ch in enumerate(ref)}
    for d in range(dp):
        for kk in range(nw):
            best = None
            for n in range(nodes):
                key = (d, n, kk)
                chs = [samples(x) for x in c.chunks_of(out[key])]
                for i, ch in enumerate(chs):
                    ok = ch in index or (key in errs and i == len(chs) - 1 and any(r[: len(ch)] == ch for r in ref))
                    check(ok, "not-a-chunk", lambda: f"{desc}: stream {key} delivered {ch}, which is no chunk of the job")
                check(len(set(chs)) == len(chs), "delivered-twice", lambda: f"{desc}: stream {key}")
                if best is None or len(chs) > len(best):
                    best = chs
            for n in range(nodes):
                chs = [samples(x) for x in c.chunks_of(out[(d, n, kk)])]
                if (d, n, kk) not in errs:
                    check(chs == best, "ended-early", lambda: f"{desc}: stream {(d, n, kk)} ended regularly after {len(chs)} chunks, another node of the group received {len(best)}; errors {errs}")
                else:
                    check(chs == best[: len(chs)] or chs[:-1] == best[: len(chs) - 1], "nodes-differ", lambda: f"{desc}: {(d, n, kk)}")
            for ch in best:
                if ch in index:
                    check(ch not in where, "delivered-twice", lambda: f"{desc}: chunk {index[ch]} was delivered to {where[ch]} and {(d, kk)}")
                    where[ch] = (d, kk)
    missing = [i for i, ch in enumerate(ref) if ch not in where]
    check(len(missing) <= len(errs) or len(errs) == dp * nodes * nw, "ended-early",
          lambda: f"{desc}: chunks {missing} of {len(ref)} were delivered to nobody, but only {sorted(errs)} reported an error: {errs}")
    return missing


def stream(w, crash=False, disk=False):
    k = w.k
    sv = c.Served(w)
    dp, nodes, workers = 1 + w.ch(2), 1 + w.ch(2), w.ch(3)
    nw = max(1, workers)
    specs = c.corpus(w, kinds=("jsonl", "jsonl", "parquet"), lines=(4, 14))
    c.register_all(w, sv.client, specs)
    mix = c.gen_mixture(w, kinds=("arb", "arb", "best", "strict"))
    import copy
    import errno

    c.run_query(w, sv.client, "ref", copy.deepcopy(mix[0]))
    ref = [samples(x) for x in c.chunks_of(c.consume(sv.client, c.stream_args("ref")))]
    c.run_query(w, sv.client, "job", mix[0], (), dp, nodes, workers)
    fl = Faults(w)
    errs = {}
    out = {}
    prefetch = w.flip(1, 4)

    def body(key, sink):
        client = w.remote()
        try:
            c.consume(client, c.stream_args("job", *key, chunk_reading_prefetch_first_sample=prefetch), think=c.thinker(w, 0.1), sink=sink)
        except Exception as e:  # noqa: BLE001
            errs[key] = f"{type(e).__name__}: {e}"[:200]

    if not disk or w.flip(1, 4):
        fl.on()
    if disk:  # the server's disk is full or broken for a while
        def fail(k, proc, kind, detail):
            fl.log.append(f"{kind} {detail}")
            return ("err", (errno.ENOSPC, errno.EIO)[w.ch(2)])

        me = sv.h.proc
        K.add_plan(k, lambda p, kd, detail: p is me and kd in ("fs.open.w", "fs.write", "fs.mkdir", "rename"), w.ch(24), fail, "disk", (1, 3, 100000)[w.ch(3)])
    if crash:
        when = w.ch(60) / 10.0 * (0.01 if w.flip() else 1.0)
        nth = w.ch(40)
        mode = w.ch(2)

        def killer():
            if mode:
                k.sleep(when, "killer")
            else:
                k.wait_until(lambda: len(k.net.conns) >= n0 + nth or all(h.proc and not h.proc.alive for h in hs), 100, "killer")
            if sv.h.proc.alive:
                k.count("fault:server-kill")
                k.kill(sv.h.proc)
            if w.flip():
                k.sleep((0.0, 1.0, 20.0, 500.0)[w.ch(4)], "restart")
                sv.h = w.server(sv.dir)

        n0 = len(k.net.conns)
        hs = []
        w.thread(killer, "killer")
    out = c.run_consumers(w, [(d, n, q) for d in range(dp) for n in range(nodes) for q in range(nw)], body)
    fl.off()
    k.plans = []
    desc = f"dp={dp} nodes={nodes} workers={workers} {mix[1]} faults {fl.log}{' server crash' if crash else ''}"
    missing = streams(w, dp, nodes, nw, ref, out, errs, desc)
    if not crash:  # the server is still there and tells the truth
        check(sorted(sv.client.list_datasets()) == sorted(s.name for s in specs), "server-damaged", desc)
        if not fl.log and not fl.until:
            check(not errs, "spurious-error", lambda: f"{desc}: {errs}")
            check(not missing, "ended-early", desc)
    return dict(what=f"{desc}: {len(ref)} chunks, {len(errs)} errors, {len(missing)} chunks lost", nontrivial=bool(fl.log) or crash or bool(fl.until))


def calls(w):
    """Every other client call under connection faults: a positive or non-empty answer is the truth."""
    k = w.k
    sv = c.Served(w)
    specs = [w.dataset(f"d{i}", nfiles=1 + w.ch(2), lines=(2, 6)) for i in range(3)]
    c.register_all(w, sv.client, specs[:2])
    c.run_query(w, sv.client, "job", c.arbitrary(4), (), 1, 1, 0)
    g = sv.client.stream_results(c.stream_args("job"))
    for _ in range(3):
        next(g)
    meta = sv.client._get_result_metadata("job")
    fl = Faults(w)
    fl.rate = 2
    ops = [w.pick(("list", "has", "hasnot", "meta", "file", "register", "remove", "execute", "wait", "waitnot", "feedback", "ckpt", "done", "prop", "parser", "restore", "badfeedback")) for _ in range(2 + w.ch(5))]
    text = "\n".join(f"line {i} äöü" for i in range(1 + w.ch(200)))
    w.write(w.path("data", "blob.txt"), text.encode())
    log = []
    have = {"d0": True, "d1": True, "d2": False}  # None: unknown
    jobs = {}
    ck = []

    def attempt(op, fn, *a):
        t0 = k.now
        try:
            r = ("ok", fn(*a))
        except Exception as e:  # noqa: BLE001
            r = ("err", f"{type(e).__name__}: {e}"[:120])
        log.append((op, r, round(k.now - t0, 1)))
        if not fl.log and not fl.until:
            check(r[0] == "ok", "spurious-error", lambda: f"{op}: {r} without any fault")
        return r

    def body():
        from mixtera.core.client.mixtera_client import QueryExecutionArgs  # noqa: F401
        from mixtera.network.client.client_feedback import ClientFeedback

        cl = w.remote()
        conn = cl.server_connection
        for i, op in enumerate(ops):
            n = len(fl.log)
            if op == "list":
                st, v = attempt(op, cl.list_datasets)
                if st == "ok":
                    bad = [d for d, h in have.items() if h is not None and (d in v) != h]
                    check(not bad and len(set(v)) == len(v), "wrong-answer", lambda: f"list_datasets returned {v}, the catalogue is {have}; {log}; {fl.log}")
            elif op in ("has", "hasnot"):
                d = "d0" if op == "has" else "nope"
                st, v = attempt(op, cl.check_dataset_exists, d)
                if st == "ok" and have.get(d, False) is not None:
                    check(v is have.get(d, False), "wrong-answer", lambda: f"check_dataset_exists({d}) returned {v}; catalogue {have}; {log}; {fl.log}")
            elif op == "meta":
                st, v = attempt(op, cl._get_result_metadata, "job")
                if st == "ok":
                    check(v[2] == meta[2] and sorted(v[0]) == sorted(meta[0]), "wrong-answer", lambda: f"metadata {v} instead of {meta}")
            elif op == "file":
                st, v = attempt(op, lambda: "\n".join(x.rstrip("\n") for x in conn.get_file_iterable(w.path("data", "blob.txt"))))
                if st == "ok":
                    check(v.rstrip("\n") == text, "wrong-answer", lambda: f"a file of {len(text)} characters was read as {len(v)}: {v[:60]!r}; {log}; {fl.log}")
            elif op == "register":
                st, v = attempt(op, w.register, cl, specs[2])
                if st == "ok" and v is True:
                    check(have["d2"] is not True, "wrong-answer", lambda: f"d2 registered twice; {log}; {fl.log}")
                    have["d2"] = True
                elif have["d2"] is not True:
                    have["d2"] = None if len(fl.log) > n or st == "err" or fl.until else have["d2"]
            elif op == "remove":
                st, v = attempt(op, cl.remove_dataset, "d2")
                if st == "ok" and v is True:
                    check(have["d2"] is not False, "wrong-answer", lambda: f"d2 removed although it was not there; {log}; {fl.log}")
                    have["d2"] = False
                elif have["d2"] is not False:
                    have["d2"] = None
            elif op == "execute":
                job = f"x{i}"
                st, v = attempt(op, cl.execute_query, w.query(job), c.exec_args(c.arbitrary(3)))
                jobs[job] = v if st == "ok" else None
            elif op == "wait":
                done = [j for j, s in jobs.items() if s is True] or ["job"]
                st, v = attempt(op, cl.wait_for_execution, done[-1])
                if st == "ok":
                    check(v is True, "wrong-answer", lambda: f"wait_for_execution({done[-1]}) returned {v}; {log}; {fl.log}")
                    if done[-1] in jobs:
                        jobs[done[-1]] = "ready"
            elif op == "waitnot":
                st, v = attempt(op, cl.wait_for_execution, "nojob")
                check(st == "err" or v is False, "wrong-answer", lambda: f"wait_for_execution of an unknown job returned {v}")
            elif op in ("feedback", "badfeedback"):
                import numpy as np

                fb = ClientFeedback(training_steps=5, losses=np.array([0.5]), counts=np.array([3]), mixture_id=0)
                st, v = attempt(op, cl.process_feedback, "job" if op == "feedback" else "nojob", fb)
                if op == "badfeedback" and st == "ok":
                    check(v is False, "wrong-answer", lambda: "feedback for an unknown job was acknowledged")
                elif st == "ok" and v is False:
                    check(len(fl.log) > n or fl.until, "wrong-answer", lambda: "feedback was not accepted without any fault")
            elif op == "ckpt":
                st, v = attempt(op, cl.checkpoint, "job", 0, 0, [2])
                if st == "ok":
                    check(isinstance(v, str) and v.startswith("chkpnt_") and v not in ck, "wrong-answer", lambda: f"checkpoint returned {v!r}")
                    ck.append(v)
            elif op == "done":
                cid = ck[-1] if ck else "chkpnt_99"
                st, v = attempt(op, cl.checkpoint_completed, "job", cid, False)
                if st == "ok":
                    check(v is bool(ck), "wrong-answer", lambda: f"checkpoint_completed({cid}) returned {v}; {log}; {fl.log}")
            elif op == "restore":
                attempt(op, cl.restore_checkpoint, "nojob2", "chkpnt_1")
                st, v = attempt(op, cl.wait_for_execution, "nojob2")
                check(st == "err" or v is False, "wrong-answer", lambda: f"waiting for the restore of an unknown checkpoint returned {v}; {log}; {fl.log}")
            elif op == "parser":
                from sim import udf

                st, v = attempt(op, cl.register_metadata_parser, f"P{i}", udf.VParser)
                if st == "ok" and v is False:
                    check(len(fl.log) > n or fl.until, "wrong-answer", lambda: "a parser was not registered without any fault")
            elif op == "prop":
                pass

    fl.on()
    h = w.proc("c", body)
    w.join(h)
    fl.off()
    if have["d2"] is not None:
        ls = sv.client.list_datasets()
        check(("d2" in ls) == have["d2"], "acknowledged-but-lost", lambda: f"catalogue {ls}, expected d2 {have['d2']}: {log}; {fl.log}")
    exp = sorted(c.expected([s for s in specs if s.name in ("d0", "d1")]))
    for j, s in sorted(jobs.items()):
        if s is True or s == "ready":
            check(sv.client.wait_for_execution(j), "acknowledged-but-lost", lambda: f"{j} was accepted, but is not executed: {log}; {fl.log}")
            got = sorted(x[2] for x in c.consume(sv.client, c.stream_args(j)) if not x[2].startswith("Td2|"))
            check(got == exp, "wrong-answer", lambda: f"{j}: {c.diff(got, exp)}; {log}")
    return dict(what=f"{log}; faults {fl.log}", nontrivial=bool(fl.log) or bool(fl.until))


SCENARIOS = [Scenario("stream", stream, 4), Scenario("crash", lambda w: stream(w, True), 3), Scenario("disk", lambda w: stream(w, False, True), 2), Scenario("calls", calls, 4)]
QUICK = dict(runs=900, secs=30.0)
