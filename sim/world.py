"""Building blocks of scenarios: corpora with known content, servers and clients as simulated processes."""
import json
import os
import random
import zlib

import numpy as np

from . import fs, kernel as K

PORT = 7777
HOST = "sim"

PARSER_SRC_NAME = "VParser"


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(f"{cls}: {msg}")
        self.cls = cls
        self.msg = msg


def check(cond, cls, msg):
    if not cond:
        raise Violation(cls, msg() if callable(msg) else msg)


class Sample:
    __slots__ = ("ds", "file", "line", "props", "text")

    def __init__(self, ds, file, line, props, text):
        self.ds, self.file, self.line, self.props, self.text = ds, file, line, props, text


class DatasetSpec:
    def __init__(self, name, kind, loc, tag):
        self.name, self.kind, self.loc, self.tag = name, kind, loc, tag
        self.samples = []
        self.files = []

    def out(self, s):
        return f"{self.tag}|{s.text}"

    @property
    def outputs(self):
        return [self.out(s) for s in self.samples]


# endings of sample texts that storage formats and line splitting are sensitive to
FANCY = ("", "", "", " äöü", " \u6f22\u5b57", " \U0001f600", " a\nb", " a\r\nb\n", " tab\t", " \u2028x", " \x85x", " \x0b\x0cx", ' "q"\\', " " + "long" * 400, " \x1c",
         " a\r", "\n")

# property values with characters that separate values somewhere
ODD = ("mit", "a;b", "a;c", "a,b", "b,a", "a", "c:d", "a;lang:en", "", "'q' \"q\"", "\\", "\\;", "\u00e4 %s ?", "a,")

_FUNC_SRC = """
def parsing(x, tag={tag!r}):
    import json as j

    d = j.loads(x) if isinstance(x, (str, bytes)) else x
    for key in ("text", ".txt", "txt"):
        if key in d:
            t = d[key]
            break
    if isinstance(t, bytes):
        t = t.decode("utf-8")
    return tag + "|" + t
"""


def _client_class():
    """The client, except that the training code between two samples also draws from the global random number generators."""
    from mixtera.core.client import MixteraClient

    if not hasattr(MixteraClient.stream_results, "_sim"):
        orig = MixteraClient.stream_results

        def stream_results(self, *args, **kw):
            inner = orig(self, *args, **kw)

            def outer():
                try:
                    while True:
                        p = K.current().proc
                        p.drawn += 1
                        seed = zlib.crc32(f"{p.k.choices.seed}/{p.name}/{p.drawn}".encode())
                        random.seed(seed)
                        np.random.seed(seed)
                        try:
                            item = next(inner)
                        except StopIteration:
                            return
                        yield item
                finally:
                    inner.close()

            return outer()

        stream_results._sim = True
        MixteraClient.stream_results = stream_results
    return MixteraClient


def make_func(tag):
    """A user's parsing function; it lives in a bare namespace because it is pickled by value."""
    ns = {"__name__": "__main__"}
    exec(_FUNC_SRC.format(tag=tag), ns)
    return ns["parsing"]


class Handle:
    def __init__(self, w, proc):
        self.w, self.proc = w, proc
        self.done = False
        self.result = None
        self.exc = None
        self.tb = ""

    def __deepcopy__(self, memo):
        return self

    @property
    def alive(self):
        return self.proc.alive


class World:
    def __init__(self, k, root):
        self.k = k
        self.root = root
        self.handles = []
        self.notes = []

    def __deepcopy__(self, memo):
        return self  # the harness is not part of a process image

    # -- choices
    def ch(self, n):
        return self.k.choose("w", n)

    def pick(self, seq):
        return seq[self.k.choose("w", len(seq))]

    def flip(self, num=1, den=2):
        """True with probability num/den; 0 in a minimised replay means False."""
        return self.k.choose("w", den) >= den - num

    # -- files
    def path(self, *p):
        return os.path.join(self.root, *p)

    def mkdir(self, *p):
        d = self.path(*p)
        with K.no_preempt():
            os.makedirs(d, exist_ok=True)
        return d

    def write(self, p, data):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with fs._real["open"](p, "wb") as f:
            f.write(data)

    def dataset(self, name, kind="jsonl", nfiles=2, lines=(4, 12), langs=("en", "de", "fr"), lics=("mit", "apache"), runs=True,
                text_pool=None, multi=False, prefix="", nulls=False, fancy=False):
        """Create the files of a dataset with seeded content. Every sample's text is unique in the world."""
        k = self.k
        loc = self.mkdir("data", name)
        spec = DatasetSpec(name, kind, loc, f"T{name}")
        if fancy:
            text_pool = FANCY
        if fancy and lics == ("mit", "apache") and self.ch(3) == 0:
            lics = ODD[self.ch(len(ODD) - 3):]
        with K.no_preempt():
            for fi in range(nfiles):
                n = lines[0] + self.ch(lines[1] - lines[0] + 1)
                rows = []
                lang = self.pick(langs)
                lic = self.pick(lics)
                for li in range(n):
                    if not runs or self.ch(3) == 0:
                        lang = self.pick(langs)
                        lic = self.pick(lics)
                    extra = self.pick(text_pool) if text_pool else ""
                    text = f"{prefix}{name}.{fi}.{li}{extra}"
                    props = {"lang": lang, "lic": lic}
                    if nulls and self.ch(4) == 3:
                        props["lic"] = None
                    if multi:
                        t, form = ("x", "y", "z")[self.ch(3)], self.ch(9)
                        props["topic"] = [t] if form < 4 else [t, "w"] if form < 6 else ["w", t] if form < 8 else []
                    rows.append(Sample(name, fi, li, props, text))
                ext = {"jsonl": "jsonl", "parquet": "parquet", "web": "tar"}[kind]
                comp = ("", "", ".gz", ".bz2", ".xz")[self.ch(5)] if fancy and kind == "jsonl" else ""
                p = os.path.join(loc, f"f{fi}.{ext}{comp}")
                spec.files.append(p)
                self._write_file(p, kind, rows, comp, self.ch(6) if fancy else 0)
                spec.samples += rows
        return spec

    def _write_file(self, p, kind, rows, comp="", style=0):
        recs = [{"text": s.text, **s.props} for s in rows]
        if kind == "jsonl":
            nl = "\r\n" if style == 4 else "\n"
            data = nl.join(json.dumps(r, ensure_ascii=style == 3) for r in recs) + ("" if style == 5 or not recs else nl)
            data = data.encode()
            if comp:
                import bz2
                import gzip
                import lzma

                data = {".gz": lambda d: gzip.compress(d, mtime=0), ".bz2": bz2.compress, ".xz": lzma.compress}[comp](data)
            self.write(p, data)
        elif kind == "parquet":
            import pyarrow as pa
            import pyarrow.parquet as pq

            t = pa.Table.from_pylist(recs)
            with fs._real["open"](p, "wb") as f:
                pq.write_table(t, f, row_group_size=max(1, len(recs) // 3), compression="none")
        else:
            import io
            import tarfile

            with fs._real["open"](p, "wb") as f, tarfile.open(fileobj=f, mode="w") as tf:
                for i, r in enumerate(recs):
                    for key, v in (("json", json.dumps({kk: vv for kk, vv in r.items() if kk != "text"})), ("txt", r["text"])):
                        b = v.encode()
                        ti = tarfile.TarInfo(f"{i:05d}.{key}")
                        ti.size = len(b)
                        tf.addfile(ti, io.BytesIO(b))

    # -- processes
    def proc(self, name, fn, cpu=None, parent=None):
        h = Handle(self, None)

        def body():
            try:
                h.result = fn()
                h.done = True
            except BaseException as e:  # noqa: BLE001
                import traceback

                if isinstance(e, K.ThreadExit):
                    raise
                h.exc = e
                h.tb = traceback.format_exc()
                raise

        p = self.k.spawn_process(name, body, start=False)
        if cpu:
            p.cpu_count = cpu
        h.proc = p
        p.handle = h
        self.handles.append(h)
        p.main.start()
        self.k.yield_("spawn")
        return h

    def thread(self, fn, name="t"):
        """A thread of the calling simulated process; result / exception captured."""
        h = Handle(self, self.k.cur.proc)

        def body():
            try:
                h.result = fn()
            except BaseException as e:  # noqa: BLE001
                import traceback

                h.exc = e
                h.tb = traceback.format_exc()
            h.done = True

        t = self.k.spawn_thread(body, name)
        h.t = t
        t.start()
        self.k.yield_("thread")
        return h

    def join(self, h, timeout=None, ok_dead=False):
        """Wait for a process to finish; re-raise what it raised."""
        r = self.k.wait_until(lambda: not h.proc.alive, timeout, "join " + h.proc.name)
        if not r:
            return False
        if h.exc is not None and not ok_dead:
            raise h.exc
        return True

    def wait(self, pred, timeout=None, tag="w.wait"):
        return self.k.wait_until(pred, timeout, tag)

    def server(self, directory, port=PORT, name="server", cpu=None):
        d = directory

        def body():
            from pathlib import Path

            from mixtera.network.server import MixteraServer

            srv = MixteraServer(Path(d), HOST, port)
            self.k.cur.proc.server_obj = srv
            srv.run()

        h = self.proc(name, body, cpu=cpu)
        return h

    def wait_server(self, h, port=PORT, timeout=None):
        ok = self.k.wait_until(lambda: not h.proc.alive or any(s.port == port and s.proc is h.proc for s in self.k.net.servers),
                               timeout, "server-up")
        if not ok or not h.proc.alive:
            if h.exc is not None:
                raise h.exc
            raise Violation("server-start", f"server did not come up ({h.proc.exitcode}) {h.tb}")
        return h

    def local(self, directory):
        return _client_class().from_directory(directory)

    def remote(self, port=PORT):
        return _client_class().from_remote(HOST, port)

    # -- catalogue
    def register(self, client, spec, parser="VP"):
        from mixtera.core.datacollection.datasets import JSONLDataset, ParquetDataset, WebDataset

        cls = {"jsonl": JSONLDataset, "parquet": ParquetDataset, "web": WebDataset}[spec.kind]
        return client.register_dataset(spec.name, spec.loc if not getattr(spec, "single", False) else spec.files[0], cls, make_func(spec.tag), parser)

    def register_parser(self, client, ident="VP"):
        from . import udf

        return client.register_metadata_parser(ident, udf.WParser if ident == "WP" else udf.VParser)

    def query(self, job, conds=()):
        from mixtera.core.query import Query

        q = Query.for_job(job)
        if not conds:
            return q.select(None)
        for c in conds:
            q = q.select(c)
        return q


def props_match(spec_props, conds):
    """Reference semantics of a query: OR over selects, AND inside one select."""
    if not conds:
        return True

    def one(c):
        f, op, v = c
        if f not in spec_props:
            return None
        pv = spec_props[f]
        if v is None:
            return (pv is None) == (op == "==")
        if pv is None:
            return False  # SQL semantics: a comparison with NULL is not true
        vs = v if isinstance(v, (list, tuple)) else [v]
        if isinstance(pv, (list, tuple)):
            has = any(x in pv for x in vs)
        else:
            has = pv in vs
        return has if op == "==" else (not has)

    for c in conds:
        cs = c if isinstance(c, list) else [c]
        r = [one(x) for x in cs]
        if all(x is None or x for x in r):
            return True
    return False


def digest(x):
    return zlib.crc32(repr(x).encode())
