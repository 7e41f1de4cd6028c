"""P16: a reader with first-sample prefetching sees what it would see without it."""
import copy

from checks import common as c
from checks.p15 import ERRORS, damage, drain, token_args
from sim.runner import Scenario
from sim.world import check

PROP = "P16"

ITEMS = ("a", "", None, 0, False, [], (), {}, 0.0, b"", "x", [1, 2], StopIteration, "END_OF_STREAM")


class Script:
    """A source that plays a script of items, delays, errors and ends; after the script it is exhausted."""

    def __init__(self, w, script):
        self.w, self.script, self.i = w, script, 0
        self.calls = 0
        self.active = False

    def __iter__(self):
        return self

    def __next__(self):
        k = self.w.k
        check(not self.active, "concurrent-source", "the source is used by two threads at once")
        self.active = True
        try:
            self.calls += 1
            k.yield_("source")
            if self.i >= len(self.script):
                raise StopIteration
            what, v, delay = self.script[self.i]
            self.i += 1
            if delay:
                k.sleep(delay, "source")
            if what == "item":
                return v
            if what == "end":
                self.i = len(self.script)
                raise StopIteration
            k.count("fault:source-error")
            raise v("simulated source failure")
        finally:
            self.active = False


def generator(script, w):
    src = Script(w, script)
    for x in src:
        yield x


def play(it, n):
    """The observable outcome of n calls of next()."""
    out = []
    for _ in range(n):
        try:
            out.append(("item", next(it)))
        except Exception as e:  # noqa: BLE001
            out.append(("raise", type(e), str(e)))
    return out


def unit(w):
    from mixtera.utils import PrefetchFirstItemIterator

    n = w.ch(7)
    script = []
    for _ in range(n):
        what = w.pick(("item", "item", "item", "item", "error", "end"))
        v = ITEMS[w.ch(len(ITEMS))] if what == "item" else ERRORS[w.ch(len(ERRORS))]
        script.append((what, v, (0, 0, 0.01, 3.0, 500.0)[w.ch(5)]))
    form = w.ch(3)

    def make():
        if form == 0:
            return Script(w, script)
        if form == 1:
            return generator(script, w)
        return iter([v for what, v, _ in script if what == "item"])

    calls = n + 3
    want = play(make(), calls)
    many = 1 + w.ch(3)
    its = [PrefetchFirstItemIterator(make()) for _ in range(many)]
    if w.flip():
        w.k.sleep((0.005, 1.0, 1000.0)[w.ch(3)], "think")
    got = [[] for _ in its]
    todo = [i for i in range(many) for _ in range(calls)]
    for i in w.k.choices.shuffle("s", todo):
        got[i] += play(its[i], 1)
    desc = f"{('iterator', 'generator', 'list')[form]} {script}"
    for g in got:
        check(g == want, "prefetch-visible", lambda: f"{desc}: with prefetching {g}, without {want}")
    # the iterator protocol: usable in a for loop
    sink = []
    end = drain(PrefetchFirstItemIterator(make()), sink)
    sink2 = []
    end2 = drain(make(), sink2)
    check((sink, end) == (sink2, end2), "prefetch-visible", lambda: f"{desc}: a loop over it sees {sink} {end} instead of {sink2} {end2}")
    return dict(what=f"{desc}: {want}", nontrivial=bool(script))


def streams(w):
    """Whole streams of a job with and without prefetching, also with unreadable data and falsy samples."""
    client = w.local(w.mkdir("loc"))
    specs = c.corpus(w, kinds=("jsonl", "jsonl", "parquet", "web"), lines=(2, 10))
    ok = w.register_parser(client)
    check(ok, "setup:parser", "")
    bare = w.flip(1, 3)  # parsing functions that return falsy values for some samples
    for s in specs:
        if bare:
            register_bare(w, client, s)
        else:
            check(w.register(client, s), "setup:register", s.name)
    mix, desc = c.gen_mixture(w)
    kind = w.ch(3)
    kw = {}
    if kind == 1:
        kw = dict(chunk_reading_mixture_type="window", chunk_reading_window_size=1 + w.ch(7), chunk_reading_window_best_effort=w.flip())
    elif kind == 2 and not bare:
        kw = token_args(w)
        kw["chunk_reading_token_separate_thread"] = w.flip()
    for j in ("off", "on"):
        c.run_query(w, client, j, copy.deepcopy(mix))
    fault = w.pick(("none", "none", "parse", "file"))
    spec = specs[w.ch(len(specs))]
    damage(w, spec, spec.samples[w.ch(len(spec.samples))], fault)
    res = {}
    for j in ("off", "on"):
        sink = []
        kw["chunk_reading_prefetch_first_sample"] = j == "on"
        res[j] = (sink, drain(client.stream_results(c.stream_args(j, **kw)), sink, c.thinker(w, 0.05)))
    (a, ea), (b, eb) = res["off"], res["on"]
    d = f"{desc} {kw} fault={fault} bare={bare}"
    if fault == "none":
        check(ea == "end" and eb == "end", "spurious-error", lambda: f"{d}: {ea} {eb}")
    threads = kw.get("chunk_reading_token_separate_thread")
    if not threads:
        check(a == b, "prefetch-visible", lambda: f"{d}: {len(a)} samples without ({ea}), {len(b)} with prefetching ({eb})")
        check(ea == eb, "different-error", lambda: f"{d}: without prefetching {ea}, with it {eb}")
    else:
        m = min(len(a), len(b))
        check(a[:m] == b[:m] and (ea != "end" or eb != "end" or len(a) == len(b)), "prefetch-visible", lambda: f"{d}: {len(a)} / {len(b)} samples {ea} {eb}")
    return dict(what=f"{d}: {len(a)} samples, {ea}", nontrivial=bool(a) or fault != "none")


_BARE = """
def parsing(x, cut={cut}):
    import json as j

    d = j.loads(x) if isinstance(x, (str, bytes)) else x
    for key in ("text", ".txt", "txt"):
        if key in d:
            t = d[key]
            break
    if isinstance(t, bytes):
        t = t.decode("utf-8")
    k = sum(map(ord, t)) % cut
    return "" if k == 0 else None if k == 1 else t
"""


def register_bare(w, client, spec):
    from mixtera.core.datacollection.datasets import JSONLDataset, ParquetDataset, WebDataset

    ns = {"__name__": "__main__"}
    exec(_BARE.format(cut=2 + w.ch(4)), ns)
    cls = {"jsonl": JSONLDataset, "parquet": ParquetDataset, "web": WebDataset}[spec.kind]
    check(client.register_dataset(spec.name, spec.loc, cls, ns["parsing"], "VP"), "setup:register", spec.name)


SCENARIOS = [Scenario("unit", unit, 6), Scenario("streams", streams, 2)]
QUICK = dict(runs=900, secs=30.0)
