"""Warm-up: build the chunker extension from the working tree, install the seams, import the code under test."""
import contextlib
import fcntl
import hashlib
import importlib.util
import os
import subprocess
import sys
import types

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CH = os.path.join(REPO, "mixtera/core/query/chunker")


def build_chunker():
    """Compile chunker.cpp of the working tree (cached by content). Returns (path or None, error text)."""
    import pyarrow

    h = hashlib.sha256()
    files = []
    for d, _, fs in sorted(os.walk(CH)):
        for f in sorted(fs):
            if f.endswith((".cpp", ".cc", ".h", ".hpp")):
                files.append(os.path.join(d, f))
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fp:
            h.update(fp.read())
    h.update((pyarrow.__version__ + "v2").encode())
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, f"chunker_extension_{h.hexdigest()[:16]}.so")
    if os.path.exists(out):
        return out, ""
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out, ""
        pa = os.path.dirname(pyarrow.__file__)
        so = lambda n: next(f for f in sorted(os.listdir(pa)) if f.startswith(n + ".so."))  # noqa: E731
        import pybind11

        src = [f for f in files if f.endswith((".cpp", ".cc"))]
        tmp = out + f".{os.getpid()}.tmp"
        import sysconfig

        cmd = ["g++", "-std=c++20", "-O1", "-fPIC", "-shared", "-w", f"-I{VERIF}/native/shim", f"-I{CH}/include",
               f"-I{pa}/include", f"-I{pybind11.get_include()}", f"-I{sysconfig.get_paths()['include']}", *src, "-o", tmp,
               f"-L{pa}", f"-l:{so('libarrow')}", f"-l:{so('libarrow_python')}", f"-Wl,-rpath,{pa}",
               "-Wl,--no-as-needed", "-labsl_raw_hash_set", "-labsl_hash", "-labsl_raw_logging_internal", "-labsl_city", "-labsl_low_level_hash", "-lspdlog", "-lfmt"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            return None, r.stderr[-4000:]
        for f in os.listdir(BUILD):
            if f.endswith(".so") and f.startswith("chunker_extension_"):
                try:
                    if len([x for x in os.listdir(BUILD) if x.endswith(".so")]) > 12:
                        os.unlink(os.path.join(BUILD, f))
                except OSError:
                    pass
        os.rename(tmp, out)
    return out, ""


def _canon(index):
    """The C++ map order depends on address-space layout; make it canonical, then a seeded order (a seam)."""
    from . import kernel as K

    keys = sorted(index.keys(), key=lambda k: repr(k))
    if K.current() is not None:
        keys = K.KERNEL.choices.shuffle("d", keys)

    def inner(d):
        ks = sorted(d.keys())
        if K.current() is not None:
            ks = K.KERNEL.choices.shuffle("d", ks)
        return ks

    return {k: {d: {f: index[k][d][f] for f in inner(index[k][d])} for d in inner(index[k])} for k in keys}


def _small_batches():
    """Arrow documents batch sizes as upper bounds; small ones make small files behave like large ones."""
    import pyarrow.parquet as pq

    from . import kernel as K

    real = pq.ParquetFile.iter_batches

    def iter_batches(self, batch_size=65536, *args, **kwargs):
        if K.current() is not None:
            batch_size = min(batch_size, (batch_size, 1, 2, 3)[K.KERNEL.choose("d", 4)])
        return real(self, batch_size, *args, **kwargs)

    pq.ParquetFile.iter_batches = iter_batches


def shrink(n):
    """Batch sizes of the registration and of the file readers become n, so that few files and rows fill several batches."""
    if not n:
        return

    def small(code):
        return code.replace(co_consts=tuple(small(c) if isinstance(c, types.CodeType) else n if type(c) is int and 1000 <= c <= 100_000 else c for c in code.co_consts))

    for name in ("mixtera.core.datacollection.mixtera_data_collection", "mixtera.core.datacollection.datasets.parquet_dataset"):
        mod = sys.modules.get(name)
        for holder in [mod] + [v for v in vars(mod).values() if isinstance(v, type) and v.__module__ == name] if mod else []:
            for key, v in list(vars(holder).items()):
                f = getattr(v, "__func__", v)
                if isinstance(f, types.FunctionType) and f.__module__ == name:
                    f.__code__ = small(f.__code__)
                elif holder is mod and type(v) is int and 1000 <= v <= 100_000:
                    setattr(mod, key, n)


class Harness(Exception):
    pass


INFO = {}


def boot():
    if INFO:
        return INFO
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    os.environ.pop("PYTEST_CURRENT_TEST", None)
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    os.environ.setdefault("RUST_MIN_STACK", "4194304")
    os.environ.setdefault("POLARS_MAX_THREADS", "1")
    os.environ.setdefault("TOKENIZERS_PARALLELISM", "false")
    from . import kernel as K, seams

    seams.install(REPO)
    so, err = build_chunker()
    if so is None:
        raise Harness("chunker.cpp does not compile:\n" + err)
    import importlib

    importlib.import_module("mixtera.core.datacollection")
    spec = importlib.util.spec_from_file_location("mixtera.core.query.chunker.chunker_extension", so)
    ext = importlib.util.module_from_spec(spec)
    real_stdout = os.dup(1)
    spec.loader.exec_module(ext)
    # The real package directory is imported first so that the extension is found under its own name.
    wrap = types.ModuleType("mixtera.core.query.chunker.chunker_extension")
    wrap.__dict__.update({k: v for k, v in vars(ext).items() if not k.startswith("__")})
    orig = ext.create_chunker_index_cpp
    K.EXT = orig

    def create_chunker_index_cpp(table, num_threads=1):
        from . import kernel as K2

        if K2.current() is not None:
            K2.KERNEL.yield_("chunker")
            K2.KERNEL.count("chunker-calls")
        dn = os.open(os.devnull, os.O_WRONLY)
        sys.stdout.flush()
        sv = os.dup(1)
        os.dup2(dn, 1)
        try:
            r = orig(table, num_threads)
        finally:
            os.dup2(sv, 1)
            os.close(sv)
            os.close(dn)
        return _canon(r)

    wrap.create_chunker_index_cpp = create_chunker_index_cpp
    sys.modules["mixtera.core.query.chunker.chunker_extension"] = wrap
    os.close(real_stdout)
    mods = ["mixtera.core.query", "mixtera.core.query.chunk_distributor", "mixtera.core.query.query_cache",
            "mixtera.core.client", "mixtera.core.client.local", "mixtera.core.client.server", "mixtera.network.server",
            "mixtera.network.connection", "mixtera.network.network_utils", "mixtera.network.client",
            "mixtera.torch", "mixtera.utils", "mixtera.utils.checkpoint", "mixtera.utils.feedback",
            "mixtera.utils.dataset_utils", "mixtera.utils.webdataset_utils", "mixtera.utils.tokenizing_iterator",
            "mixtera.core.algo.ado.ado", "mixtera.core.query.mixture.dynamic_mixture",
            "mixtera.core.datacollection.index.parser.parser_collection", "torch", "datasets", "dill", "pyarrow.parquet",
            "mixtera.hf"]
    for m in mods:
        importlib.import_module(m)
    _small_batches()
    INFO["ok"] = True
    return INFO


def warm():
    """Exercise lazily-imported machinery once outside any simulation (encodings, pandas/arrow, duckdb)."""
    import duckdb
    import polars as pl

    c = duckdb.connect()
    c.execute("select 1").fetchall()
    c.register("x", pl.DataFrame({"a": [1]}))
    c.execute("select * from x").fetchall()
    c.execute("select 1").fetchall()
    c.close()
