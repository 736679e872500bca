"""
C05 Cluster summaries always match the features in the clusters.

Breadth first exploration of the stored states reachable by model operations
and indexing runs; the summaries are recomputed from the documents in every
state.
"""

import os

from pyroaring import BitMap

from mc import kit, wide
from mc.env import CTL, workdir
from mc.explore import explore
from mc.positions import occurrences  # noqa: F401

TECHNIQUE = "explicit-state breadth-first exploration of histories of model operations on the real index, summaries recomputed in every state"
NOTE = (
    "All histories to the stated depth over 30 operations (including no-ops, unknown ids, emptied and recreated clusters, "
    "reindexing), equal stored states merged; the completion order of the summary tasks is explored for single operations."
)
LEVEL = "model_checking"
BOUNDS = {
    "quick": "histories of up to 3 operations out of 30 from 3 starting models over 7 features and 5 documents; every completion order of the refresh for single operations; 10 operations in a row on thousands of features",
    "thorough": "histories of up to 4 operations",
}
ASSUMPTIONS = ["refinement inside histories uses a fixed seed; its random outcomes are explored for C10-C12"]

DOCS = kit.DOCS_A
ALL = list(range(12))


def ids(fs, which):
    return [fs[i] for i in which if i < len(fs)]


OPS = {
    "initialise 2": lambda i, f: i.initialise_clusters(2),
    "initialise 4 tags": lambda i, f: i.initialise_clusters(4, include_fields=["tag"]),
    "initialise 9, 2 docs": lambda i, f: i.initialise_clusters(9, min_docs=2),
    "initialise none": lambda i, f: i.initialise_clusters(2, min_docs=99),
    "create": lambda i, f: i.create_cluster_from_features(ids(f, (0, 4))),
    "create rest": lambda i, f: i.create_cluster_from_features(ids(f, (1, 2, 3, 5, 6))),
    "create twice": lambda i, f: i.create_cluster_from_features(ids(f, (2, 2))),
    "create nothing": lambda i, f: i.create_cluster_from_features([]),
    "create all": lambda i, f: i.create_cluster_from_features(f),
    "create unknown": lambda i, f: i.create_cluster_from_features([f[1], 9999]),
    "merge 1 2": lambda i, f: i.merge_clusters([1, 2]),
    "merge last first": lambda i, f: i.merge_clusters(i.cluster_ids[::-1][:2] or [3]),
    "merge all": lambda i, f: i.merge_clusters(i.cluster_ids or [1]),
    "merge into unknown": lambda i, f: i.merge_clusters([77, 1]),
    "merge self": lambda i, f: i.merge_clusters([1, 1]),
    "merge unknown": lambda i, f: i.merge_clusters([1, 98, 99]),
    "delete cluster 1": lambda i, f: i.delete_clusters([1]),
    "delete last": lambda i, f: i.delete_clusters(i.cluster_ids[-1:]),
    "delete unknown": lambda i, f: i.delete_clusters([99]),
    "delete feature": lambda i, f: i.delete_features(ids(f, (0,))),
    "delete features": lambda i, f: i.delete_features(ids(f, (1, 4, 6)) + [9999]),
    "delete all": lambda i, f: i.delete_features(f),
    "pin": lambda i, f: i.pin_features(ids(f, (0, 3))),
    "pin cluster": lambda i, f: i.pin_clusters(i.cluster_ids[:1] + [99]),
    "refine": lambda i, f: i.refine_clusters(iterations=2, tolerance=0),
    "split": lambda i, f: i.refine_clusters(iterations=1, target_clusters=len(i.cluster_ids) + 2),
    "dissolve": lambda i, f: i.refine_clusters(iterations=1, target_clusters=max(1, len(i.cluster_ids) - 1)),
    "refine part": lambda i, f: i.refine_clusters(
        iterations=1, cluster_ids=i.cluster_ids[:2], target_clusters=3, minimum_cluster_features=2
    ),
    "index other": lambda i, f: other(i, kit.DOCS_B),
    "index none": lambda i, f: other(i, {}),
}


def other(idx, docs):
    idx.corpus = kit.MemCorpus(docs)
    idx.index(doc_batch_size=2)


STARTS = {
    "none": {},
    "three": {0: 1, 1: 1, 2: 2, 3: 2, 4: 5, 5: 0},
    "one": {0: 3, 1: 3, 2: 3, 3: 3, 4: 3, 5: 3, 6: 3},
}


def starting(name):
    def make(path):
        kit.build(path, DOCS)
        fs = sorted(kit.features_of(path))
        with kit.raw(path) as c:
            kit.set_model(c, {fs[i]: k for i, k in STARTS[name].items()}, (fs[0],), (2,))

    return kit.template("c05" + name, make)


def jobs(tier, seed):
    depth = 3 if tier == "quick" else 4
    out = [("histories", s, op, depth) for s in STARTS for op in OPS]
    out += [("wide", s) for s in (slice(0, 10), slice(10, None))]
    out += [("orders", op) for op in OPS if "unknown" not in op or "merge" in op]
    return out


WIDE = [
    lambda i, f: i.create_cluster_from_features(f[500:2000]),
    lambda i, f: i.delete_features(f[600:1900]),
    lambda i, f: i.merge_clusters(i.cluster_ids[20:]),
    lambda i, f: i.delete_clusters(i.cluster_ids[3:]),
    lambda i, f: i.initialise_clusters(700, min_docs=2),
    lambda i, f: i.refine_clusters(iterations=1, target_clusters=650),
    lambda i, f: i.merge_clusters(i.cluster_ids[1:]),
    lambda i, f: other(i, wide.docs(n=1500, shift=1000)),
    lambda i, f: i.initialise_clusters(1, include_fields=["own", "text"]),
    lambda i, f: i.refine_clusters(iterations=1, target_clusters=12),
    lambda i, f: i.initialise_clusters(3000),
    lambda i, f: i.delete_clusters(i.cluster_ids[:1200]),
    lambda i, f: other(i, wide.docs(n=1200, shift=300)),
    lambda i, f: i.merge_clusters(i.cluster_ids[3:]),
]


def job_wide(R, ops):
    """Thousands of features at once."""
    with workdir() as d:
        path = kit.write_db(os.path.join(d, "i.db"), wide.base())
        fs = sorted(kit.features_of(path))
        with kit.raw(path) as c:
            kit.set_model(c, wide.model(fs, wide.SIZES))
        with kit.opened(path, seed=1) as idx:
            for n, op in list(enumerate(WIDE))[ops]:
                R.context = {"wide": n}
                R.run()
                R.step()
                op(idx, fs)
                judge(R, idx, path)
                R.state(("wide", n))


def public(R, idx):
    """The same through the public interface."""
    listed = {k: (n, fs) for k, n, fs in idx.top_cluster_features(top_k=2**31)}
    R.equal(sorted(listed), sorted(idx.cluster_ids), "the listings of clusters differ")
    seen = set()
    for k in idx.cluster_ids:
        features = idx.cluster_features(k)
        R.check(features, "a listed cluster is empty", k)
        union, weights = set(), {}
        for fid, field, value, n in features:
            docs = set(idx[fid])
            R.check(fid not in seen, "a feature is in two clusters")
            seen.add(fid)
            R.equal(n, len(docs), "the document count of a feature in its cluster is wrong")
            union |= docs
            for x in docs:
                weights[x] = weights.get(x, 0) + 1
        R.equal(set(idx.cluster_docs(k)), union, "the documents of a cluster are not the union of its features'")
        R.equal(listed[k][0], len(union), "the document count of a cluster is wrong")
        docs, slices = idx.cluster_query(k)
        got = {x: sum(1 << b for b, s in enumerate(slices) if x in s) for x in docs}
        R.equal(got, weights, "the accumulated matches of a cluster are wrong")


def judge(R, idx, path):
    errors = kit.summary_errors(path)
    R.check(not errors, "cluster summaries do not match the features", errors)
    public(R, idx)
    with kit.raw(path) as c:
        bad = c.execute("pragma foreign_key_check").fetchall()
    R.check(not bad, "dangling references in the model", [tuple(b) for b in bad])


def job_histories(R, start, first, depth):
    with workdir() as d:
        path = os.path.join(d, "i.db")
        frontier = [((), starting(start))]
        for level in range(depth):
            following = []
            for history, data in frontier:
                for name in [first] if level == 0 else OPS:
                    kit.write_db(path, data)
                    R.context = {"start": start, "history": history + (name,)}
                    R.run()
                    R.step()
                    with kit.opened(path) as idx:
                        fs = sorted(kit.features_of(path))
                        try:
                            OPS[name](idx, fs)
                        except Exception as e:
                            if name != "create unknown":
                                raise
                        state = kit.dump(path)
                        if not R.state(state):
                            continue
                        judge(R, idx, path)
                        R.outcome(state["cluster"])
                        if level + 1 < depth:
                            following.append((history + (name,), kit.read_db(path)))
            frontier = following
        R.sample({"start": start, "first": first})


def job_orders(R, name):
    """Every completion order of the background tasks of one operation."""
    with workdir() as d:
        path = os.path.join(d, "i.db")
        for start in STARTS:

            def run(ch):
                kit.write_db(path, starting(start))
                R.context = {"start": start, "operation": name}
                R.run()
                R.step()
                with kit.opened(path, workers=3) as idx:
                    fs = sorted(kit.features_of(path))
                    CTL.order = lambda n, tag: ch.choose(n, tag)
                    try:
                        OPS[name](idx, fs)
                    finally:
                        CTL.order = None
                    R.context["order"] = ch.choices
                    R.state((start, name, ch.choices))
                    judge(R, idx, path)
                    R.outcome(kit.dump(path)["cluster"])

            explore(run, bound=2)
