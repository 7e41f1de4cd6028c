"""P18: reading files through the server equals reading them directly."""
import collections
import copy
import errno

from checks import common as c
from checks.p11 import Faults
from checks.p15 import damage, drain, token_args
from sim import kernel as K
from sim.runner import Scenario
from sim.world import check

PROP = "P18"

PIECES = ("", "a", "line", "äöü", "\u6f22\u5b57", "\U0001f600", "\r", "\r\n", "\n", "\n\n", "\t", "\x0b", "\x0c", "\x1c", "\x85", "\u2028", "\u2029", "\x00", "{}", '"', " ", "x" * 700, "\ufeff", "\x7f", "é" * 300)


def chomp(lines):
    """Lines without their terminator; without terminators, nothing follows the last one unless it is not empty."""
    if any(x.endswith("\n") for x in lines):
        return [x[:-1] if x.endswith("\n") else x for x in lines]
    return lines[:-1] if lines and not lines[-1] else list(lines)


def blob(w):
    n = w.ch(40)
    s = "".join(PIECES[w.ch(len(PIECES))] + ("\n", "", "")[w.ch(3)] for _ in range(n))
    if w.flip(1, 8):
        s = s * (200 + w.ch(600))
    data = s.encode()
    comp = ("", "", "", ".gz", ".bz2", ".xz")[w.ch(6)]
    return data, comp


def pack(data, comp):
    if not comp:
        return data
    import bz2
    import gzip
    import lzma

    return {".gz": lambda d: gzip.compress(d, mtime=0), ".bz2": bz2.compress, ".xz": lzma.compress}[comp](data)


def files(w):
    """Arbitrary text files, fetched by concurrent clients over arbitrary segmentations, with and without connection faults."""
    from mixtera.core.filesystem import LocalFileSystem

    k = w.k
    sv = c.Served(w)
    n = 1 + w.ch(3)
    paths, want, bad = [], {}, {}
    for i in range(n):
        data, comp = blob(w)
        p = w.path("data", f"f{i}.jsonl{comp}")
        kind = w.pick(("ok", "ok", "ok", "ok", "missing", "utf8", "short"))
        raw = pack(data, comp)
        if kind == "utf8":
            cut = w.ch(len(data) + 1)
            raw = pack(data[:cut] + b"\xff\xfe" + data[cut:], comp)
        elif kind == "short" and comp and len(raw) > 30:
            raw = raw[: len(raw) * 3 // 4]
        else:
            kind = "ok" if kind == "short" else kind
        if kind != "missing":
            w.write(p, raw)
        paths.append(p)
        bad[p] = kind
        sink = []
        end = drain(iter(LocalFileSystem.get_file_iterable(p)), sink)
        want[p] = (sink, end)
        if kind == "ok":
            check(end == "end" and "".join(sink) == data.decode().replace("\r\n", "\n").replace("\r", "\n"), "local-read", lambda: f"{data!r} {sink} {end}")
    fl = Faults(w)
    faulty = w.flip()
    log = []

    def body(key, sink):
        conn = w.remote().server_connection
        for _ in range(1 + w.ch(3)):
            p = paths[w.ch(n)]
            got = []
            end = drain(iter(conn.get_file_iterable(p)), got, c.thinker(w, 0.02) if len(got) < 50 else None)
            log.append((key, p, end))
            ref, rend = want[p]
            d = f"file {p} ({bad[p]}, {len(''.join(ref))} characters); faults {fl.log}"
            if rend != "end":
                check(end != "end", "error-swallowed", lambda: f"{d}: reading it directly raises {rend}, through the server {len(got)} lines and a regular end")
            elif end == "end":
                check(chomp(got) == chomp(ref), "different-lines", lambda: f"{d}: {len(chomp(got))} lines through the server, {len(chomp(ref))} directly; {c.diff(chomp(got), chomp(ref))}")
            else:
                check(fl.log or fl.until, "spurious-error", lambda: f"{d}: {end}")
                check(not got, "partial-file", lambda: f"{d}: {len(got)} lines, then {end}")

    if faulty:
        fl.on()
    c.run_consumers(w, [(i,) for i in range(1 + w.ch(3))], body)
    fl.off()
    # the server is still alive
    check(sv.client.list_datasets() == [], "server-damaged", "list_datasets")
    return dict(what=f"{[(p[-9:], bad[p], len(want[p][0])) for p in paths]} {fl.log}: {[(k_, p[-9:], str(e)) for k_, p, e in log]}", nontrivial=any(len(v[0]) for v in want.values()))


def streams(w, mode="none"):
    """Jobs whose consumers read through the server or directly, in every reading mode."""
    k = w.k
    sv = c.Served(w)
    specs = c.corpus(w, kinds=("jsonl", "jsonl", "jsonl", "parquet"), lines=(3, 12), fancy=w.flip())
    c.register_all(w, sv.client, specs)
    mix, mdesc = c.gen_mixture(w)
    nodes, workers = 1 + w.ch(2), 1 + w.ch(2)
    jobs = ("dir", "tun")
    for j in jobs:
        c.run_query(w, sv.client, j, copy.deepcopy(mix), (), 1, nodes, workers)
    kw = {}
    kind = w.ch(4)
    if kind == 1:
        kw = dict(chunk_reading_mixture_type="window", chunk_reading_window_size=1 + w.ch(7), chunk_reading_window_best_effort=w.flip())
    elif kind == 2:
        kw = token_args(w)
        kw["chunk_reading_token_separate_thread"] = w.flip()
    kw["chunk_reading_prefetch_first_sample"] = w.flip(1, 3)
    dop = kw["chunk_reading_degree_of_parallelism"] = w.pick((1, 1, 1, 2, 4))
    spec = specs[w.ch(len(specs))]
    if mode == "data":
        damage(w, spec, spec.samples[w.ch(len(spec.samples))], w.pick(("parse", "file")))
    keys = [(j, n, q) for j in jobs for n in range(nodes) for q in range(workers)]
    ends = {}

    if w.flip():
        # the machines of these consumers do not have the files
        K.add_plan(k, lambda p, kd, d: p.name.startswith("ctun.") and kd == "fs.open.r" and ".jsonl" in d, 0, lambda *a: ("err", errno.ENOENT), "no-local-file", 1 << 30)

    def body(key, sink):
        j, n, q = key
        client = w.remote()
        ends[key] = drain(client.stream_results(c.stream_args(j, 0, n, q, tunnel_via_server=j == "tun", **kw)), sink, c.thinker(w, 0.02))

    fl = Faults(w)
    if mode == "crash":
        when, fast = w.ch(200), w.flip()

        def killer():
            n0 = len(k.net.conns)
            if fast:
                k.wait_until(lambda: len(k.net.conns) >= n0 + when % 40, 50, "killer")
                for _ in range(when):
                    k.yield_("killer")
            else:
                k.sleep(when / 50.0, "killer")
            if sv.h.proc.alive:
                k.count("fault:server-kill")
                k.kill(sv.h.proc)

        w.thread(killer, "killer")
    if mode == "net":
        fl.on()
        fl.names = tuple("c" + ".".join(map(str, x)) for x in keys if x[0] == "tun")
    out = c.run_consumers(w, keys, body)
    fl.off()
    desc = f"{mdesc} nodes={nodes} workers={workers} {kw} {mode} faults={fl.log}"

    def chunks(j, n):
        return [[(x[1], str(x[2])) for x in ch] for q in range(workers) for ch in c.chunks_of(out[(j, n, q)])]

    alle = {j: [ends[x] for x in keys if x[0] == j] for j in jobs}
    if mode == "none":
        check(all(e == "end" for e in ends.values()), "spurious-error", lambda: f"{desc}: {ends}")
    if mode == "net":
        check(all(e == "end" for e in alle["dir"]), "spurious-error", lambda: f"{desc}: {ends}")
        if not fl.log and not fl.until:
            check(all(e == "end" for e in alle["tun"]), "spurious-error", lambda: f"{desc}: {ends}")
    for n in range(nodes):
        a, b = chunks("dir", n), chunks("tun", n)
        good = all(ends[(j, n, q)] == "end" for j in jobs for q in range(workers))
        if good:
            check(sorted(a) == sorted(b), "different-samples",
                  lambda: f"{desc}: node {n}: {c.diff([x for y in a for x in y], [x for y in b for x in y])}; {len(a)} and {len(b)} chunks")
        else:
            # everything that was delivered is what the direct reader delivers at that position of the chunk
            full = [tuple(x) for x in a]
            whole = [((n, q), [(x[1], str(x[2])) for x in ch]) for q in range(workers) if ends[("tun", n, q)] == "end" for ch in c.chunks_of(out[("tun", n, q)])]
            if all(ends[("dir", n, q)] == "end" for q in range(workers)):
                for key, ch in whole:
                    check(ch in a, "ended-early", lambda: f"{desc}: {key} ended regularly, but its chunk {ch} is not complete")
            for ch in b:
                if not any(tuple(ch) == x[: len(ch)] for x in full) and all(ends[("dir", n, q)] == "end" for q in range(workers)):
                    check(False, "different-samples", lambda: f"{desc}: node {n} delivered {ch}, which is not the beginning of any chunk")
    if mode == "data" and kw.get("chunk_reading_mixture_type", "simple") == "simple":
        if any(e != "end" for e in alle["dir"]):
            check(any(e != "end" for e in alle["tun"]), "error-swallowed", lambda: f"{desc}: direct readers fail ({ends}), readers through the server do not")
    k.count("mode-" + mode)
    cnt = collections.Counter(str(e) for e in ends.values())
    return dict(what=f"{desc}: {dict(cnt)}", nontrivial=any(out.values()))


SCENARIOS = [Scenario("files", files, 3), Scenario("streams", streams, 3), Scenario("faults", lambda w: streams(w, "net"), 3), Scenario("crash", lambda w: streams(w, "crash"), 1),
             Scenario("damaged", lambda w: streams(w, "data"), 1)]
QUICK = dict(runs=900, secs=34.0)
