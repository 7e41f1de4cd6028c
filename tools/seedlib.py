"""Helpers for the demonstrations: the pure Python part of the code with a stand-in for the compiled chunker extension."""
import json
import os
import shutil
import sys
import tempfile
import types

os.environ.pop("PYTEST_CURRENT_TEST", None)
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True


def create_chunker_index_cpp(table, num_threads=1):
    from mixtera.core.query.mixture import MixtureKey

    skip = {"dataset_id", "file_id", "group_id", "interval_start", "interval_end"}
    out = {}
    for row in table.to_pylist():
        props = {}
        for k, v in row.items():
            if k in skip or v is None:
                continue
            v = v if isinstance(v, list) else [v]
            if v:
                props[k] = [str(x) for x in v]
        key = MixtureKey(props)
        d = out.setdefault(key, {}).setdefault(row["dataset_id"], {}).setdefault(row["file_id"], [])
        d.append((row["interval_start"], row["interval_end"]))
    for ds in out.values():
        for fs in ds.values():
            for iv in fs.values():
                iv.sort()
    return out


def stub():
    m = types.ModuleType("mixtera.core.query.chunker.chunker_extension")
    m.create_chunker_index_cpp = create_chunker_index_cpp
    sys.modules["mixtera.core.query.chunker.chunker_extension"] = m
    from loguru import logger

    logger.remove()


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="demo")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def jsonl(path, rows):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        for r in rows:
            f.write(json.dumps(r) + "\n")


def parser(name, props):
    """props: {property: multiple}"""
    from mixtera.core.datacollection.index.parser import MetadataParser
    from mixtera.core.datacollection.index.parser.metadata_parser import MetadataProperty

    class P(MetadataParser):
        @classmethod
        def get_properties(cls):
            return [MetadataProperty(name=p, dtype="STRING", multiple=m, nullable=True, enum_options=set()) for p, m in props.items()]

        def parse(self, line_number, payload, **kw):
            self.add_metadata(sample_id=line_number, **{p: payload.get(p) for p in props})

    P.__name__ = name
    return P


class TestMode:
    """Registration parses files in this process instead of a pool."""

    def __enter__(self):
        os.environ["PYTEST_CURRENT_TEST"] = "1"

    def __exit__(self, *a):
        os.environ.pop("PYTEST_CURRENT_TEST", None)


def local(directory):
    from mixtera.core.client import MixteraClient

    return MixteraClient.from_directory(directory)


def register(client, name, loc, props=None, dtype=None):
    from mixtera.core.datacollection.datasets import JSONLDataset

    with TestMode():
        client.register_metadata_parser("P", parser("P", props or {"lang": False, "lic": False}))
        assert client.register_dataset(name, loc, dtype or JSONLDataset, lambda s: json.loads(s)["text"], "P")


def run(client, job, mixture, *conds, dp=1, nodes=1, workers=0):
    from mixtera.core.client.mixtera_client import QueryExecutionArgs
    from mixtera.core.query import Query

    q = Query.for_job(job)
    for c in conds or (None,):
        q = q.select(c)
    assert client.execute_query(q, QueryExecutionArgs(mixture=mixture, dp_groups=dp, nodes_per_group=nodes, num_workers=workers))
    return q


def stream(client, job, dp=0, node=0, worker=0, **kw):
    from mixtera.core.client.mixtera_client import ResultStreamingArgs

    kw.setdefault("chunk_reading_prefetch_first_sample", False)
    return client.stream_results(ResultStreamingArgs(job_id=job, dp_group_id=dp, node_id=node, worker_id=worker, **kw))


def fail(msg):
    print("BROKEN:", msg)
    sys.exit(1)
