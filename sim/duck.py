"""DuckDB seam: real DuckDB, one thread, scheduling/fault point around every statement, crash = last committed bytes."""
import os
import re
import weakref

import duckdb as _duckdb

from . import fs, kernel as K


def _close_all(proc):
    """Process died: keep the committed bytes (database + WAL), drop the handles."""
    dbs = proc.__dict__.pop("_dbs", {})
    for path, conns in dbs.items():
        crash = proc.exitcode is None or proc.exitcode < 0
        saved = {}
        if crash:
            for p in (path, path + ".wal"):
                if os.path.exists(p):
                    with fs._real["open"](p, "rb") as f:
                        saved[p] = f.read()
        for ref in conns:
            c = ref()
            if c is not None:
                try:
                    c.close()
                except Exception:  # noqa: BLE001
                    pass
        if crash and saved:
            for p in (path, path + ".wal"):
                if p in saved:
                    with fs._real["open"](p, "wb") as f:
                        f.write(saved[p])
                elif os.path.exists(p):
                    fs._real["unlink"](p)


def _unordered(query):
    """Rows of a grouped query without a final ORDER BY come in any order (plain scans keep the insertion order)."""
    q = str(query).upper()
    g = max((m.end() for m in re.finditer(r"\bGROUP\s+BY\b|\bSELECT\s+DISTINCT\b|\bUNION\b(?!\s+ALL)", q)), default=None)
    return g is not None and not re.search(r"\bORDER\s+BY\b", q[g:])


def _shuffle(k, res):
    n = len(res) if hasattr(res, "__len__") else 0
    if n < 2:
        return res
    perm = list(range(n))
    for i in range(n - 1, 0, -1):
        j = k.choose("s", i + 1)
        perm[i], perm[j] = perm[j], perm[i]
    if hasattr(res, "take"):
        return res.take(perm)
    if isinstance(res, list):
        return [res[i] for i in perm]
    return res[perm] if hasattr(res, "clone") else res


_SEQ = re.compile(r"\s*CREATE\s+SEQUENCE\s+(\w+)\s+START\s+(?:WITH\s+)?1\s*;?\s*$", re.I)


def _history(query):
    """A catalogue with a past: failed registrations and removed datasets have used up the first ids."""
    t = K.current()
    if t is None:
        return query
    m = _SEQ.match(str(query))
    start = (t.k.cfg.get("seq") or {}).get(m.group(1).split("_")[1] if m.group(1).count("_") == 2 else "", 1) if m else 1
    return query if start == 1 else f"CREATE SEQUENCE {m.group(1)} START {start}"


class ConnProxy:
    _any = False

    def __init__(self, real, path):
        self._real = real
        self._path = path
        p = K.current().proc
        self._proc = p
        dbs = p.__dict__.setdefault("_dbs", {})
        if path not in dbs:
            dbs[path] = []
            p.on_kill.append(_close_all)
        dbs[path].append(weakref.ref(real))

    def __deepcopy__(self, memo):
        return self  # a forked child shares the file descriptor

    def _op(self, kind, sql=""):
        t = K.current()
        if t is None:
            return
        t.k.yield_("db." + kind)
        r = K.at_op("db." + kind, str(sql)[:200])
        if r is not None and r[0] == "err":
            raise _duckdb.IOException("IO Error: simulated disk error")

    def cursor(self):
        return ConnProxy(self._real.cursor(), self._path)

    duplicate = cursor

    def execute(self, query, parameters=None, *a, **kw):
        if re.match(r"\s*SET\s+threads", str(query), re.I):
            query = "SET threads TO 1"
        self._op("exec", query)
        query = _history(query)
        self._any = _unordered(query)
        if parameters is None:
            self._real.execute(query)
        else:
            self._real.execute(query, parameters)
        t = K.current()
        if t is not None:
            t.k.yield_("db.done")
        return self

    def executemany(self, query, parameters=None):
        self._op("exec", query)
        self._real.executemany(query, parameters)
        return self

    def sql(self, query, **kw):
        self._op("exec", query)
        return self._real.sql(query, **kw)

    def commit(self):
        self._op("commit")
        self._real.commit()
        return self

    def begin(self):
        self._op("begin")
        self._real.begin()
        return self

    def rollback(self):
        self._op("rollback")
        self._real.rollback()
        return self

    def register(self, name, obj):
        self._op("register")
        self._real.register(name, obj)
        return self

    def unregister(self, name):
        self._op("unregister")
        self._real.unregister(name)
        return self

    def fetchone(self):
        self._op("fetch")
        return self._real.fetchone()

    def fetchall(self):
        self._op("fetch")
        return self._rows(self._real.fetchall())

    def _rows(self, res):
        t = K.current()
        if self._any and t is not None:
            return _shuffle(t.k, res)
        return res

    def close(self):
        self._op("close")
        self._real.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        v = getattr(self._real, n)
        if callable(v) and (n.startswith("fetch") or n in ("pl", "df", "arrow", "to_arrow_table", "fetchnumpy")):
            def f(*a, **k):
                self._op("fetch")
                return self._rows(v(*a, **k))

            return f
        return v


def connect(database=":memory:", read_only=False, config=None, **kw):
    t = K.current()
    if t is None:
        return _duckdb.connect(database, read_only=read_only, **({"config": config} if config else {}), **kw)
    t.k.yield_("db.connect")
    path = str(database)
    for p in t.k.procs:
        if p.alive and p is not t.proc and path in p.__dict__.get("_dbs", {}):
            raise _duckdb.IOException(
                f'IO Error: Could not set lock on file "{path}": Conflicting lock is held in PID {p.pid}'
            )
    cfg = dict(config or {})
    cfg["threads"] = 1
    real = _duckdb.connect(path, read_only=read_only, config=cfg, **kw)
    try:
        real.execute("SET python_scan_all_frames=true")
    except Exception:  # noqa: BLE001
        pass
    return ConnProxy(real, path)
