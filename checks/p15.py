"""P15: tokens produced with the background tokenization thread equal those produced without it."""
import copy
import os

from checks import common as c
from sim import fs, kernel as K, seams
from sim.runner import Scenario
from sim.world import check

PROP = "P15"

TEXTS = ("", "a", "bc", "def", "äöü", "hello", "0123456789", "\n", "\u6f22\u5b57x", "long" * 15)
ERRORS = (RuntimeError, ValueError, OSError, KeyError, AssertionError, MemoryError, EOFError)


class Source:
    """Texts as a generator-like iterator: slow at some places, failing at one position, never restarting."""

    def __init__(self, w, texts, fail=None, err=None, slow=None):
        self.w, self.texts, self.fail, self.err, self.slow = w, texts, fail, err, slow or {}
        self.i = 0
        self.over = False
        self.active = False

    def __iter__(self):
        return self

    def __next__(self):
        k = self.w.k
        check(not self.active, "concurrent-source", "the text source is used by two threads at once")
        self.active = True
        try:
            k.yield_("source")
            if self.over:
                raise StopIteration
            d = self.slow.get(self.i)
            if d:
                k.sleep(d, "source")
            if self.i == self.fail:
                self.over = True
                k.count("fault:source-error")
                raise self.err("simulated source failure")
            if self.i >= len(self.texts):
                self.over = True
                raise StopIteration
            self.i += 1
            return self.texts[self.i - 1]
        finally:
            self.active = False


def model(texts, seq, bs, one, overlap, eos, bos, fail=None, tokfail=None):
    """(samples, error?) of sequential tokenization, written from its documentation."""
    toks = []
    failed = False
    for b in range(0, len(texts) + 1, bs):
        batch = texts[b:b + bs]
        if fail is not None and b <= fail < b + bs:
            failed = True
            break
        if tokfail is not None and any(tokfail == t for t in batch):
            failed = True
            break
        for t in batch:
            toks += ([1] if bos else []) + [3 + ord(x) for x in t] + ([2] if eos else [])
    step = seq if overlap else seq + 1
    out = []
    p = 0
    while len(toks) - p >= seq + 1:
        out.append(toks[p:p + seq + 1])
        p += step
    if not failed and not out and toks and one:
        rest = list(toks)
        while len(rest) < seq + 1:
            rest += toks
        out.append(rest[: seq + 1])
    return out, failed


def drain(it, sink, think=None, limit=None):
    """Everything an iterator yields and how it ended."""
    try:
        for x in it:
            sink.append(x)
            if think is not None:
                think(len(sink))
            if limit is not None and len(sink) >= limit:
                return "abandoned"
    except Exception as e:  # noqa: BLE001
        return type(e)
    return "end"


def unit(w):
    """The two iterators over arbitrary texts, all settings, failing sources and a failing tokenizer."""
    from mixtera.utils import ThreadedTokenizingIterator, TokenizingIterator

    n = w.ch(13)
    texts = [TEXTS[w.ch(len(TEXTS))] for _ in range(n)]
    seq = (1, 2, 3, 4, 5, 8, 13, 40)[w.ch(8)]
    bs = 1 + w.ch(6)
    one, overlap, eos, bos = w.flip(), w.flip(), w.flip(), w.flip()
    if n and w.flip(1, 4):  # the batches end where sequences end, with a short rest
        plus = eos + bos
        texts = [("abcdefghijklm" * 4)[i % 7:][:max(0, seq + 1 - plus)] for i in range(n)]
        texts[-1] = TEXTS[w.ch(7)]
    fault = w.pick(("none", "none", "source", "tokenizer"))
    fail = w.ch(n + 1) if fault == "source" else None
    err = ERRORS[w.ch(len(ERRORS))]
    slow = {w.ch(n + 1): (0.1, 5.0, 100.0)[w.ch(3)] for _ in range(w.ch(4))}
    tokfail = texts[w.ch(n)] if fault == "tokenizer" and n else None
    if tokfail is not None:
        w.k.cfg["tok_fail"] = lambda t: t == tokfail
    want, failed = model(texts, seq, bs, one, overlap, eos, bos, fail, tokfail)
    desc = f"{n} texts {texts} seq={seq} bs={bs} one={one} overlap={overlap} eos={eos} bos={bos} source fails at {fail} ({err.__name__}) tokenizer fails on {tokfail!r}"
    think = c.thinker(w, 0.2)
    limit = 1 + w.ch(6) if w.flip(1, 5) else None
    for cls in (TokenizingIterator, ThreadedTokenizingIterator):
        src = Source(w, texts, fail, err, slow)
        sink = []
        it = cls(src, seams.Tok(), seq, bs, one, overlap, eos, bos)
        end = drain(it, sink, think, limit)
        where = f"{cls.__name__}: {desc}"
        if limit is not None and end == "abandoned":
            check(sink == want[:limit], "different-tokens", lambda: f"{where}: {sink} instead of {want[:limit]}")
            continue
        if failed:
            check(end not in ("end", "abandoned"), "error-swallowed", lambda: f"{where}: the failure was not reported, the iteration ended after {len(sink)} of {len(want)} samples")
            exp = ValueError if tokfail is not None else err
            check(issubclass(end, (exp, RuntimeError)), "different-error", lambda: f"{where}: raised {end}, expected {exp}")
        else:
            check(end == "end", "spurious-error", lambda: f"{where}: raised {end}")
        check(sink == want, "different-tokens", lambda: f"{where}: {sink} instead of {want}")
        if not failed:
            again = []
            check(drain(it, again) == "end" and not again, "not-exhausted", lambda: f"{where}: after its end it yields {again}")
    return dict(what=f"{desc}: {len(want)} samples", nontrivial=bool(want) or failed)


def token_args(w):
    return dict(chunk_reading_mixture_type="token", chunk_reading_tokenizer="tok", chunk_reading_sequence_len=(2, 3, 5, 9, 16)[w.ch(5)],
                chunk_reading_tokenization_bs=1 + w.ch(5), chunk_reading_token_at_least_one_sample=w.flip(), chunk_reading_eos=w.flip(),
                chunk_reading_bos=w.flip(), chunk_reading_token_overlapping=w.flip())


def damage(w, spec, s, fault):
    """Make the file of a sample unreadable after its registration."""
    if fault == "none":
        return
    p = spec.files[s.file]
    w.k.count(f"fault:data-{fault}")
    with K.no_preempt():
        if fault == "file":
            os.unlink(p)
            return
        with fs._real["open"](p, "rb") as f:
            data = f.read()
    if p.endswith(".jsonl") and data.count(b"\n") >= s.line:
        lines = data.split(b"\n")
        lines[s.line] = b'{"text": '
        w.write(p, b"\n".join(lines))
    else:
        w.write(p, data[: len(data) // 2])


def by_key(chunk):
    out = {}
    for _, k, x in chunk:
        out.setdefault(k, []).append(x)
    return out


def tokens_of_chunks(text, toks, kw, desc):
    """Every chunk's token sequences are those of its texts, in windows that follow the counts of the chunk."""
    kw = {k.removeprefix("chunk_reading_"): v for k, v in kw.items()}
    want = []
    for ch in c.chunks_of(text):
        ks = by_key(ch)
        n = {k: len(v) for k, v in ks.items()}
        m = {k: model(v, kw["sequence_len"], kw["tokenization_bs"], kw["token_at_least_one_sample"], kw["token_overlapping"], kw["eos"], kw["bos"])[0]
             for k, v in ks.items()}
        want.append((n, m))
    got = [by_key(ch) for ch in c.chunks_of(toks)]
    i = 0
    for n, m in want:  # a chunk whose texts are too short for a single sequence delivers nothing
        if not any(m.values()):
            continue
        g = got[i] if i < len(got) else {}
        fits = g and all(k in m and x == m[k][: len(x)] for k, x in g.items())
        if not fits and not all(m.values()):
            continue  # a window that cannot be filled may end before its first sequence
        check(fits, "different-tokens", lambda: f"{desc}: chunk {i}: {g} is not made of {m}")
        i += 1
        d = {k: len(g.get(k, ())) for k in m}
        ok = any(all(any(d[k] == min(len(m[k]), t * x) for x in range(max(0, n[k] - 1), n[k] + len(n) + (len(n) == 1) * 99)) for k in m)
                 for t in range(1, 2 + max(d.values())))
        check(ok, "token-mixture", lambda: f"{desc}: chunk {i - 1} with {n} samples per key and {({k: len(v) for k, v in m.items()})} sequences delivered {d}")
        check(any(d[k] == len(m[k]) for k in m), "ended-early", lambda: f"{desc}: chunk {i - 1} delivered {d} of {({k: len(v) for k, v in m.items()})} sequences and no key was exhausted")
    check(i == len(got), "different-tokens", lambda: f"{desc}: {len(got)} chunks instead of {i}")


def streams(w):
    """Whole token streams of a job with and without the background thread, also with unreadable data."""
    client = w.local(w.mkdir("loc"))
    specs = c.corpus(w, kinds=("jsonl", "jsonl", "parquet", "web"), lines=(3, 12), text_pool=("", "", " äöü", " long" * 9))
    c.register_all(w, client, specs)
    mix, desc = c.gen_mixture(w)
    kw = token_args(w)
    kw["chunk_reading_prefetch_first_sample"] = w.flip()
    for j in ("seq", "thr", "text"):
        c.run_query(w, client, j, copy.deepcopy(mix))
    text = c.consume(client, c.stream_args("text"))
    fault = w.pick(("none", "none", "parse", "tokenizer", "file"))
    spec = specs[w.ch(len(specs))]
    s = spec.samples[w.ch(len(spec.samples))]
    if fault == "tokenizer":
        bad = spec.out(s)
        w.k.cfg["tok_fail"] = lambda t: t == bad
    else:
        damage(w, spec, s, fault)
    res = {}
    for j, thr in (("seq", False), ("thr", True)):
        sink = []
        res[j] = (sink, drain(client.stream_results(c.stream_args(j, chunk_reading_token_separate_thread=thr, **kw)), sink, c.thinker(w, 0.05)))
    d = f"{desc} {kw} fault={fault}"
    (a, ea), (b, eb) = res["seq"], res["thr"]
    if fault == "none":
        check(ea == "end" and eb == "end", "spurious-error", lambda: f"{d}: {ea} {eb}")
        check(a == b, "different-tokens", lambda: f"{d}: {len(a)} samples without and {len(b)} with the thread; {c.diff(map(str, a), map(str, b))}")
        tokens_of_chunks(text, b, kw, d)
    else:
        # the thread reads ahead: it may find damage that the sequential reader never reaches, but not the other way round
        if ea != "end":
            check(eb != "end", "error-swallowed", lambda: f"{d}: without the thread {ea} after {len(a)}, with it a regular end after {len(b)} samples")
        m = min(len(a), len(b))
        check(a[:m] == b[:m], "different-tokens", lambda: f"{d}: streams differ before the error")
        if ea == "end" and eb == "end":
            check(a == b, "different-tokens", lambda: f"{d}: {len(a)} samples without and {len(b)} with the thread")
        if ea == "end" and eb != "end":
            check(len(b) <= len(a), "different-tokens", d)
    return dict(what=f"{d}: {len(a)} / {len(b)} samples, {ea} {eb}", nontrivial=bool(a) or fault != "none")


SCENARIOS = [Scenario("unit", unit, 6, liveness=True), Scenario("streams", streams, 2, liveness=True)]
QUICK = dict(runs=900, secs=30.0)
