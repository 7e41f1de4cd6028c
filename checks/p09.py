"""P09: completed checkpoints survive everything, failed ones are reported and never restored as if they were complete."""
import collections
import copy
import errno

from checks import common as c
from sim import kernel as K
from sim.runner import Scenario
from sim.world import check

PROP = "P09"


class History:
    """What a job's owner knows: the stream position and outcome of every checkpoint attempt."""

    def __init__(self):
        self.snaps = {}  # id -> delivered samples when it was taken
        self.state = {}  # id -> "complete" | "failed" | "unknown" (the server died first)
        self.log = []

    def __deepcopy__(self, memo):
        return self

    def taken(self, ids, snap):
        cids = set(ids.values())
        check(len(cids) == 1, "different-ids", lambda: f"nodes were told different ids {ids}; {self.log}")
        cid = cids.pop()
        check(cid not in self.snaps, "id-reused", lambda: f"{cid} was already used; {self.log}")
        self.snaps[cid] = snap
        self.state[cid] = "unknown"
        return cid

    def set(self, cid, state, why=""):
        self.log.append((cid, state, why))
        self.state[cid] = state


FAULTS = ("none", "none", "uneven", "twice", "kill-writer", "kill-writer", "torn-writer", "writer-disk", "writer-disk", "server-disk", "kill-server", "kill-server", "kill-writer", "evict")
KINDS = ("fs.write", "fs.write", "fs.open.w", "fs.mkdir", "fs.rename", "fs.open.r")


def install(w, fault, server, k, single):
    """Arm one fault for the checkpoint that follows. Returns the plan."""
    name = server.name

    def is_writer(p):
        return p.name.startswith(name + "/") and p is not server

    nth = w.ch(6) if w.flip() else w.ch(40)
    if fault == "kill-writer":
        if w.flip(1, 3):  # somewhere in the copy of the query's result
            return K.add_plan(k, lambda p, kd, d: is_writer(p) and "queryresult" in str(d), w.ch(24), lambda kk, p, kd, d: kk.kill(p), fault, 1)
        return K.add_plan(k, lambda p, kd, d: is_writer(p), nth, lambda kk, p, kd, d: kk.kill(p), fault, 1)
    if fault == "evict":  # the writer is slow while another client invalidates the cached result it copies
        return K.add_plan(k, lambda p, kd, d: is_writer(p) and kd.startswith("fs."), w.ch(8), lambda kk, p, kd, d: kk.sleep(0.5, "slow"), fault, 1 + w.ch(6))
    if fault == "torn-writer":
        return K.add_plan(k, lambda p, kd, d: is_writer(p) and kd == "fs.write", w.ch(6), lambda kk, p, kd, d: ("torn", w.ch(9)), fault, 1)
    if fault in ("writer-disk", "server-disk"):
        kind = w.pick(KINDS)
        eno = w.pick((errno.ENOSPC, errno.EIO))
        short = kind == "fs.write" and w.flip()
        n = w.ch(4) if kind != "fs.write" else w.ch(12)
        times = 1 if w.flip() else 1000

        def match(p, kd, d):
            if kd != kind:
                return False
            if fault == "writer-disk":
                return is_writer(p)
            if p is not server or "chkpnt_" not in d:
                return False
            return single or not (kd == "fs.mkdir" and d.endswith(".tmp"))

        return K.add_plan(k, match, n, lambda kk, p, kd, d: ("short", 5) if short else ("err", eno), f"{fault}:{kind}", times)
    if fault == "kill-server":
        if w.flip():
            return K.add_plan(k, lambda p, kd, d: is_writer(p) or (p is server and "chkpnt_" in str(d)), nth, lambda kk, p, kd, d: kk.kill(server), fault, 1)
        return K.add_plan(k, lambda p, kd, d: p is server and "chkpnt_" in str(d), w.ch(12), lambda kk, p, kd, d: kk.kill(server), fault, 1)
    return None


class Train:
    """A training run. All streams are read by the calling process; nodes report checkpoints concurrently."""

    def __init__(self, w, job, D, N, W, connect, kw):
        self.w, self.k, self.job, self.D, self.N, self.W, self.connect, self.kw = w, w.k, job, D, N, W, connect, kw
        self.keys = [(d, n, x) for d in range(D) for n in range(N) for x in range(W)]
        self.sinks = {key: [] for key in self.keys}
        self.open()

    def open(self):
        self.its = {}
        self.pos = {key: 0 for key in self.keys}

    def read(self, plan):
        todo = []
        for key in self.keys:
            n = plan[(key[0], key[2])] if plan is not None else None
            todo.append([key, n])
        while todo:
            i = self.w.ch(len(todo))
            key, n = todo[i]
            if n == 0:
                todo.pop(i)
                continue
            if key not in self.its:
                self.its[key] = self.connect().stream_results(c.stream_args(self.job, *key, **self.kw))
            try:
                item = next(self.its[key])
            except StopIteration:
                todo.pop(i)
                continue
            self.sinks[key].append(item)
            self.pos[key] = item[0] + 1
            if n is not None:
                todo[i][1] -= 1

    def run_ahead(self):
        """One node of a group is already at a later chunk than the others. False if there is none."""
        key = self.keys[self.w.ch(len(self.keys))]
        n = 0
        while True:
            if key not in self.its:
                self.its[key] = self.connect().stream_results(c.stream_args(self.job, *key, **self.kw))
            try:
                item = next(self.its[key])
            except StopIteration:
                self.read({(d, x): None if (d, x) == (key[0], key[2]) else 0 for d in range(self.D) for x in range(self.W)})
                return False
            sink = self.sinks[key]
            new = n > 0 and item[0] <= sink[-1][0]
            sink.append(item)
            self.pos[key] = item[0] + 1
            n += 1
            if new:
                return True

    def catch_up(self):
        """All nodes of a group have read the same."""
        for key in self.keys:
            while len(self.sinks[key]) < max(len(self.sinks[(key[0], n, key[2])]) for n in range(self.N)):
                if key not in self.its:
                    self.its[key] = self.connect().stream_results(c.stream_args(self.job, *key, **self.kw))
                item = next(self.its[key])
                self.sinks[key].append(item)
                self.pos[key] = item[0] + 1

    def snap(self):
        return {key: list(s) for key, s in self.sinks.items()}

    def rewind(self, snap):
        self.sinks = {key: list(s) for key, s in snap.items()}
        self.open()

    def status(self, d, n):
        return [self.pos[(d, n, x)] for x in range(self.W)]


def is_ref(tr, ref, hist, what, extra=""):
    for d in range(tr.D):
        for x in range(tr.W):
            for n in range(1, tr.N):
                check(tr.sinks[(d, n, x)] == tr.sinks[(d, 0, x)], "nodes-differ", lambda: f"group {d} worker {x} node {n}; {hist.log} {what}")
    got = collections.Counter(tuple(map(tuple, ch)) for d in range(tr.D) for x in range(tr.W) for ch in c.chunks_of(tr.sinks[(d, 0, x)]))
    exp = collections.Counter(tuple(map(tuple, ch)) for ch in ref)
    check(got == exp, "wrong-data", lambda: f"{extra}: chunks only in the restored run {list((got - exp).elements())[:2]}, only in the uninterrupted run {list((exp - got).elements())[:2]}; {hist.log} {what}")


def served(w):
    """Faults while a multi-node job is checkpointed at the server, which may die and be restarted at any time."""
    k = w.k
    sv = c.Served(w)
    specs = c.corpus(w, n=1 + w.ch(2), lines=((4, 10), (10, 20))[w.ch(2)])
    c.register_all(w, sv.client, specs)
    mix, desc = c.gen_mixture(w)
    mix2 = copy.deepcopy(mix)
    D, N, W = w.pick(((1, 1, 1), (1, 1, 1), (1, 2, 1), (2, 1, 1), (1, 1, 2), (2, 2, 1), (1, 2, 2)))
    how = w.pick(("fresh", "off", "other"))
    stub = lambda: sv.h.proc.server_obj._local_stub  # noqa: E731
    if how == "other":
        c.run_query(w, sv.client, "earlier", c.gen_mixture(w)[0])
    if how == "off":
        stub()._query_cache.enabled = False
    c.run_query(w, sv.client, "job", mix, dp=D, nodes=N, workers=W)
    hist = History()
    hist.log.append((desc["kind"], how, D, N, W))
    tr = Train(w, "job", D, N, W, w.remote, {})
    per = max(2, sum(len(s.samples) for s in specs) // (D * W * 3))
    fired, evictions = [], []
    single = D * N == 1

    def attempt(fault):
        """One checkpoint attempt of all nodes. True if it is known to be complete on disk."""
        server = sv.h.proc
        uneven = fault == "uneven" and N > 1 and tr.run_ahead()
        snap = tr.snap()
        plan = install(w, fault, server, k, single)
        ids, errs = {}, {}

        def node(d, n):
            try:
                ids[(d, n)] = w.remote().checkpoint("job", d, n, tr.status(d, n))
            except Exception as e:  # noqa: BLE001
                errs[(d, n)] = f"{type(e).__name__}: {e}"[:200]

        nodes = [(d, n) for d in range(D) for n in range(N)]
        if fault == "twice" and not single:
            first = w.pick(nodes)
            nodes.remove(first)
            node(*first)
            try:
                again = w.remote().checkpoint("job", *first, tr.status(*first))
            except Exception as e:  # noqa: BLE001
                again = e
            check(isinstance(again, Exception), "reported-twice", lambda: f"node {first} may report twice for a checkpoint: {again} {ids}; {hist.log}")
        hs = [w.proc(f"n{d}.{n}", lambda d=d, n=n: node(d, n)) for d, n in nodes]
        if fault == "evict":
            evictions.append(1)
            extra = w.dataset(f"x{len(evictions)}", kind="jsonl", nfiles=1)

            def evict():
                cl = w.remote()
                w.register_parser(cl)  # lost if the server was restarted, there already otherwise
                check(w.register(cl, extra), "setup:register", lambda: f"register_dataset({extra.name}) returned false")
                c.run_query(w, cl, f"other{len(evictions)}", copy.deepcopy(mix2))
                check(cl.remove_dataset(extra.name), "setup:remove", lambda: f"remove_dataset({extra.name}) returned false")

            ev = w.proc("evict", evict)
        for h in hs:
            w.join(h)
        cid = hist.taken(ids, snap) if ids else None
        ok = None
        if cid is not None:
            seen = {}

            def poll(d, n):
                cl = w.remote()
                t = k.now
                while server.alive and k.now - t < 400:
                    try:
                        if cl.checkpoint_completed("job", cid, True):
                            seen[(d, n)] = True
                            return
                    except Exception as e:  # noqa: BLE001
                        if server.alive:
                            seen[(d, n)] = f"{type(e).__name__}: {e}"[:200]
                            return
                    k.sleep(0.5, "poll")

            hs = [w.proc(f"p{d}.{n}", lambda d=d, n=n: poll(d, n)) for d in range(D) for n in range(N)]
            for h in hs:
                w.join(h)
            alive = server.alive
            vals = list(seen.values())
            good = [v for v in vals if v is True]
            bad = [v for v in vals if v is not True]
            check(not (good and bad), "contradicting-reports", lambda: f"{cid} is complete and failed: {seen}; {hist.log}")
            check(not good or not errs or not alive, "complete-but-refused", lambda: f"{cid} is complete, but nodes were told {errs}; {hist.log}")
            if alive:
                check(len(vals) == D * N, "never-settles", lambda: f"{cid} is neither complete nor failed after 400 s: {seen} {errs} fault {fault} fired {plan.fired if plan else 0}; {hist.log}")
            if good:
                ok = True
                hist.set(cid, "complete", fault)
            elif bad:
                ok = False
                hist.set(cid, "failed", fault)
            else:
                hist.set(cid, "unknown", fault)
        else:
            hist.log.append(("no id", fault, list(errs.values())[:1]))
        if fault == "evict":
            w.join(ev)
        f = plan is not None and (plan.fired or fault == "evict")
        if f:
            fired.append(fault)
        if uneven:
            check(not ok, "inconsistent-accepted", lambda: f"{cid} is complete although the nodes of a group are at different chunks: {tr.snap()}; {hist.log}")
            hist.log.append("uneven")
            tr.catch_up()
            k.count("uneven-reports")
        elif server.alive and not f:
            check(ok is True, "fails-without-fault", lambda: f"no fault was injected, but the checkpoint was not taken: {cid} {ids} {errs}; {hist.log}")
        k.plans = []
        return ok

    def resume(cid):
        """Restore; True if the server accepted. The disk may fail while the server reads the checkpoint, a retry has to work then."""
        if w.flip(1, 6):
            server = sv.h.proc
            bad = K.add_plan(k, lambda p, kd, d: p is server and kd == "fs.open.r" and "chkpnt_" in d, w.ch(6), lambda kk, p, kd, d: ("err", errno.EIO), "restore-disk:fs.open.r", 1)
            r = resume1(cid)
            k.plans = []
            hist.log.append(("restore with read error", cid, r, bad.fired))
            if r is True or not bad.fired:
                return r
        return resume1(cid)

    def resume1(cid):
        try:
            w.remote().restore_checkpoint("job", cid)
        except Exception as e:  # noqa: BLE001
            err = f"{type(e).__name__}: {e}"[:200]
            check(sv.h.proc.alive, "server-died", lambda: f"restoring {cid} killed the server: {err}; {hist.log}")
            return err
        try:
            st = w.remote().wait_for_execution("job")
        except Exception as e:  # noqa: BLE001
            return f"{type(e).__name__}: {e}"[:200]
        return True if st is True else "execution failed"

    rounds = 2 + w.ch(4)
    current = None
    running = True  # the server knows the job
    for i in range(rounds):
        fault = w.pick(FAULTS) if i + 1 < rounds else "none"
        if not running:
            done = [x for x, s in hist.state.items() if s == "complete"]
            unsure = [x for x, s in hist.state.items() if s != "complete"]
            for cid in (unsure if w.flip() else []):
                r = resume(cid)
                hist.log.append(("restore", cid, r if r is True else "refused"))
                if r is True:
                    tr.rewind(hist.snaps[cid])
                    current = cid
                    running = True
            if not running:
                if not done:
                    break
                current = w.pick(done[-1:] + done)
                r = resume(current)
                check(r is True, "not-restorable", lambda: f"{current} was reported as complete, but cannot be restored: {r}; {hist.log}")
                hist.log.append(("restore", current, True))
                tr.rewind(hist.snaps[current])
                running = True
        tr.read({(d, x): w.ch(per) for d in range(D) for x in range(W)})
        attempt(fault)
        if not sv.h.proc.alive or w.flip(1, 4):
            sv.restart()
            running = False
            hist.log.append(("restart",))
        elif w.flip(1, 5):
            done = [x for x, s in hist.state.items() if s == "complete"]
            if done:  # roll back without a restart
                current = w.pick(done)
                r = resume(current)
                check(r is True, "not-restorable", lambda: f"{current} was reported as complete, but cannot be restored: {r}; {hist.log}")
                hist.log.append(("roll back", current))
                tr.rewind(hist.snaps[current])
    if sv.h.proc.alive and w.flip():
        sv.restart()
    # no more faults: every checkpoint that was reported complete is restorable, all others are either refused or right
    k.plans = []
    c.run_query(w, sv.client, "ref", mix2)
    ref = c.chunks_of(c.consume(sv.client, c.stream_args("ref")))
    what = f"{desc} {specs and len(specs)} datasets"
    todo = list(hist.state)
    n_ok = 0
    for cid in (w.k.choices.shuffle("w", todo) if len(todo) > 1 else todo):
        r = resume(cid)
        if hist.state[cid] == "complete":
            check(r is True, "not-restorable", lambda: f"{cid} was reported as complete, but cannot be restored: {r}; {hist.log}")
        if r is not True:
            continue
        n_ok += 1
        tr.rewind(hist.snaps[cid])
        try:
            tr.read(None)
        except Exception as e:  # noqa: BLE001
            check(False, "restored-stream-fails", f"{cid} ({hist.state[cid]}): {type(e).__name__}: {e}; {hist.log}")
        is_ref(tr, ref, hist, what, f"{cid} ({hist.state[cid]})")
    for f in fired:
        k.count("checkpoint-fault:" + f)
    return dict(what=f"{hist.log} {desc} restored {n_ok}", nontrivial=bool(fired) and n_ok > 0)


SCENARIOS = [Scenario("served", served, 1)]
QUICK = dict(runs=900, secs=34.0)
