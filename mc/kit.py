"""
Shared pieces of the checks: a picklable in-memory corpus, plain Python
reference models, ways to build, copy and dump index databases.
"""

import contextlib
import html as html_module
import os
import shutil
import sqlite3
from collections import defaultdict

from pyroaring import BitMap

from mc import env
from mc.env import CTL, MCPool, HarnessError, workdir, fresh_dir, orig_connect

import hyperreal
from hyperreal.index import Index
from hyperreal.corpus import BaseCorpus


# ------------------------------------------------------------------ corpus ----
class MemCorpus(BaseCorpus):
    """A corpus held in memory: {key: {field: list or set of values}}."""

    CORPUS_TYPE = "MemCorpus"
    table_fields = ["text"]

    def __init__(self, docs):
        self.data = dict(docs)

    def docs(self, doc_keys=None):
        for key in self.keys() if doc_keys is None else doc_keys:
            yield key, {"key": key, "features": self.data[key]}

    def keys(self):
        return iter(self.data)

    def index(self, doc):
        return {
            field: (list(v) if isinstance(v, (list, tuple)) else set(v))
            for field, v in doc["features"].items()
        }

    def _text(self, key):
        return " ".join(
            str(v)
            for field, values in sorted(self.data[key].items())
            for v in (values if isinstance(values, (list, tuple)) else sorted(values, key=str))
        )

    def render_docs_html(self, doc_keys):
        return [(key, self._text(key)) for key in doc_keys]

    def render_docs_table(self, doc_keys):
        return [(key, {"text": self._text(key), "extra": "dropped"}) for key in doc_keys]


# --------------------------------------------------------------- reference ----
class Ref:
    """What the corpus says, in dictionaries keyed by document key."""

    def __init__(self, docs):
        self.docs = dict(docs)
        self.postings = defaultdict(set)
        self.seqs = defaultdict(dict)  # field -> key -> list of values
        for key, fields in self.docs.items():
            for field, values in fields.items():
                for v in values:
                    if v is not None:
                        self.postings[(field, v)].add(key)
                if isinstance(values, (list, tuple)):
                    self.seqs[field][key] = list(values)

    @property
    def features(self):
        return dict(self.postings)

    def field_summary(self, positions):
        out = {}
        for field in {f for f, _ in self.postings}:
            values = [v for f, v in self.postings if f == field]
            n = sum(len(s) for s in self.seqs.get(field, {}).values()) if positions else 0
            out[field] = (len(values), sqlite_min(values), sqlite_max(values), n)
        return out


def sqlite_order(v):
    """Sort key of SQLite's ordering of values."""
    if v is None:
        return (0, 0)
    if isinstance(v, (int, float)):
        return (1, v)
    if isinstance(v, str):
        return (2, v.encode())
    return (3, bytes(v))


def sqlite_min(values):
    return min(values, key=sqlite_order)


def sqlite_max(values):
    return max(values, key=sqlite_order)


def jaccard(a, b):
    return len(a & b) / len(a | b) if a or b else 0.0


# ------------------------------------------------------------------- index ----
def open_index(path, corpus=None, workers=None, seed=0, pool=None):
    return Index(
        path, corpus=corpus, pool=pool or MCPool(workers), random_seed=seed
    )


@contextlib.contextmanager
def opened(path, corpus=None, workers=None, seed=0, pool=None):
    idx = open_index(path, corpus, workers, seed, pool)
    try:
        yield idx
    finally:
        with contextlib.suppress(sqlite3.Error):
            idx.close()


def build(path, docs, positions=True, batch=2, clusters=None):
    """Index docs at path; clusters: list of lists of (field, value) keys."""
    corpus = docs if isinstance(docs, BaseCorpus) else MemCorpus(docs)
    with opened(path, corpus) as idx:
        idx.index(doc_batch_size=batch, index_positions=positions)
        if clusters:
            for features in clusters:
                idx.create_cluster_from_features(
                    [idx.lookup_feature_id(f) for f in features]
                )
    return corpus


_templates = {}


def template(name, builder):
    """Bytes of a single database file made once per process by builder(path)."""
    key = (os.getpid(), name)
    if key not in _templates:
        with workdir("tpl") as d:
            path = os.path.join(d, "t.db")
            builder(path)
            checkpoint(path)
            with open(path, "rb") as f:
                _templates[key] = f.read()
    return _templates[key]


def checkpoint(path):
    c = orig_connect(path, isolation_level=None)
    try:
        c.execute("pragma wal_checkpoint(truncate)").fetchall()
    finally:
        c.close()


def write_db(path, data):
    # a new file: connections left open keep the old one
    for suffix in ("", "-wal", "-shm", "-journal"):
        with contextlib.suppress(FileNotFoundError):
            os.unlink(path + suffix)
    with open(path, "wb") as f:
        f.write(data)
    return path


def read_db(path):
    """Committed content of the database as bytes of a single file."""
    c = orig_connect(path, isolation_level=None)
    try:
        return c.serialize()
    finally:
        c.close()


@contextlib.contextmanager
def raw(path):
    c = orig_connect(path, isolation_level=None, timeout=0)
    try:
        yield c
    finally:
        c.close()


def crash_copy(path, target):
    """Copy the database files as a killed process would leave them."""
    path = os.fspath(path)
    shutil.copyfile(path, target)
    for suffix in ("-wal", "-journal"):
        with contextlib.suppress(FileNotFoundError):
            os.unlink(target + suffix)
        if os.path.exists(path + suffix):
            shutil.copyfile(path + suffix, target + suffix)
    with contextlib.suppress(FileNotFoundError):
        os.unlink(target + "-shm")
    return target


def dump(path_or_conn):
    """Logical content of every table: {table: sorted rows}."""
    if isinstance(path_or_conn, sqlite3.Connection):
        return _dump(path_or_conn)
    with raw(path_or_conn) as c:
        return _dump(c)


def _bm(b):
    if b is None:
        return None
    return tuple(BitMap.deserialize(b))


BITMAP_COLUMNS = {"doc_ids", "positions", "doc_boundaries"}


def _dump(c):
    out = {}
    c.execute("begin")
    try:
        out["user_version"] = c.execute("pragma user_version").fetchone()[0]
        tables = [
            r[0]
            for r in c.execute(
                "select name from sqlite_master where type='table' and name not like 'sqlite_%' order by name"
            )
        ]
        for t in tables:
            cur = c.execute(f'select * from "{t}"')
            names = [d[0] for d in cur.description]
            rows = [
                tuple(
                    _bm(v) if n in BITMAP_COLUMNS and isinstance(v, bytes) else v
                    for n, v in zip(names, row)
                )
                for row in cur
            ]
            out[t] = sorted(rows, key=repr)
    finally:
        c.execute("rollback")
    return out


def doc_keys(idx_or_path):
    """{doc_id: key} of the stored index."""
    with raw(path_of(idx_or_path)) as c:
        return dict(c.execute("select doc_id, doc_key from doc_key"))


def path_of(x):
    return x.db_path if isinstance(x, Index) else x


def features_of(path):
    """{feature_id: (field, value)}"""
    with raw(path_of(path)) as c:
        return {
            f: (field, value)
            for f, field, value in c.execute(
                "select feature_id, field, value from inverted_index"
            )
        }


def model_of(path):
    """
    The stored model: ({cluster: {feature ids}}, pinned features, pinned clusters)
    """
    with raw(path_of(path)) as c:
        return _model(c)


def _model(c):
    c.execute("begin")
    try:
        clusters = defaultdict(set)
        pf, pc = set(), set()
        for f, k, p in c.execute(
            "select feature_id, cluster_id, pinned from feature_cluster"
        ):
            clusters[k].add(f)
            if p:
                pf.add(f)
        for k, p in c.execute("select cluster_id, pinned from cluster"):
            if p:
                pc.add(k)
    finally:
        c.execute("rollback")
    return (
        tuple(sorted((k, tuple(sorted(v))) for k, v in clusters.items())),
        tuple(sorted(pf)),
        tuple(sorted(pc)),
    )


def summary_errors(path, detailed=True):
    """
    Check the stored summaries of clusters against their features.

    Returns a list of disagreements (empty if all is well).
    """
    errors = []
    with raw(path_of(path)) as c:
        c.execute("begin")
        docs = {
            f: (n, set(_bm(b)))
            for f, n, b in c.execute(
                "select feature_id, docs_count, doc_ids from inverted_index"
            )
        }
        members = defaultdict(dict)
        for f, k, n in c.execute(
            "select feature_id, cluster_id, docs_count from feature_cluster"
        ):
            members[k][f] = n
            if f not in docs:
                errors.append(f"feature {f} of cluster {k} is not in the index")
            elif n != len(docs[f][1]) or docs[f][0] != len(docs[f][1]):
                errors.append(
                    f"feature {f} has {len(docs[f][1])} documents, counts say {docs[f][0]} and {n} in its cluster"
                )
        rows = {
            r[0]: r[1:]
            for r in c.execute(
                "select cluster_id, feature_count, docs_count, weight, doc_ids from cluster"
            )
        }
        c.execute("rollback")
    for k in set(members) - set(rows):
        errors.append(f"cluster {k} has features but is not listed")
    for k, (fc, dc, w, b) in rows.items():
        m = members.get(k, {})
        if not m:
            errors.append(f"cluster {k} is listed without features")
        union = set().union(*(docs[f][1] for f in m if f in docs)) if m else set()
        weight = sum(len(docs[f][1]) for f in m if f in docs)
        got = set(_bm(b)) if b is not None else None
        if got != union:
            errors.append(f"cluster {k} documents are {got and sorted(got)}, union is {sorted(union)}")
        if fc != len(m):
            errors.append(f"cluster {k} feature count {fc}, has {len(m)}")
        if dc != len(union):
            errors.append(f"cluster {k} document count {dc}, is {len(union)}")
        if w != weight:
            errors.append(f"cluster {k} weight {w}, is {weight}")
    return errors


# ---------------------------------------------------------------- fixtures ----
# Documents with features that overlap, coincide, repeat, are missing, and
# values of several types.
DOCS_A = {
    "d1": {"text": ["a", "b", "a", "c"], "tag": {"x"}},
    "d2": {"text": ["b", "c"], "tag": {"x", "y"}},
    "d3": {"text": ["c"], "tag": set()},
    "d4": {"text": [], "tag": {"y"}},
    "d5": {"text": ["d", "a", "b"], "tag": {"z"}},
}

DOCS_B = {
    "d1": {"text": ["a", "e"], "tag": {"x"}},
    "d3": {"text": ["c", "c", "a"], "tag": {"y"}},
    "d6": {"text": ["b"], "tag": {"w", "x"}},
}


def spread(d, n):
    return [list(d)[i::n] for i in range(n)]


# ---------------------------------------------------- constructed model states ----
def set_model(c, assignment, pinned_features=(), pinned_clusters=()):
    """
    Write a model state with correct summaries through a raw connection.

    assignment: {feature id: cluster id}
    """
    c.execute("begin immediate")
    c.execute("delete from feature_cluster")
    c.execute("delete from cluster")
    docs = {
        f: set(_bm(b))
        for f, b in c.execute("select feature_id, doc_ids from inverted_index")
        if f in assignment
    }
    members = defaultdict(list)
    for f, k in sorted(assignment.items()):
        members[k].append(f)
        c.execute(
            "insert into feature_cluster(feature_id, cluster_id, docs_count, pinned) values(?, ?, ?, ?)",
            [f, k, len(docs[f]), int(f in pinned_features)],
        )
    for k, fs in members.items():
        union = set().union(*(docs[f] for f in fs))
        c.execute(
            "update cluster set feature_count=?, docs_count=?, weight=?, doc_ids=?, pinned=? where cluster_id=?",
            [
                len(fs),
                len(union),
                sum(len(docs[f]) for f in fs),
                BitMap(union).serialize(),
                int(k in pinned_clusters),
                k,
            ],
        )
    c.execute("delete from changed_cluster")
    c.execute("commit")


def assignments(features, cluster_ids, partial=True):
    """Every way to put each feature in one of the clusters (or in none)."""
    import itertools

    options = ([None] if partial else []) + list(cluster_ids)
    for choice in itertools.product(options, repeat=len(features)):
        yield {f: k for f, k in zip(features, choice) if k is not None}


def subsets(items):
    import itertools

    items = list(items)
    for n in range(len(items) + 1):
        yield from itertools.combinations(items, n)


def model_tuple(assignment, pf, pc):
    clusters = defaultdict(set)
    for f, k in assignment.items():
        clusters[k].add(f)
    return (
        tuple(sorted((k, tuple(sorted(v))) for k, v in clusters.items())),
        tuple(sorted(set(pf) & set(assignment))),
        tuple(sorted(set(pc) & set(clusters))),
    )
