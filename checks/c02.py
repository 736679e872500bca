"""
C02 Reindexing equals a fresh index and keeps feature ids, clusters and pins.

Breadth first exploration of the stored states reachable by model edits,
corpus replacements and reindexing runs; every reindexing run is compared with
a brand new index over the same corpus, and with the model before it.
"""

import os

from mc import kit, wide
from mc.env import CTL, workdir
from mc.positions import stored_positions, wanted_positions

TECHNIQUE = "explicit-state breadth-first exploration of histories of reindexing runs and edits on the real index"
NOTE = (
    "All histories to the stated depth over five corpora, two settings and eight edits, "
    "with equal stored states merged; compared with a new index after every reindexing run."
)
LEVEL = "model_checking"
BOUNDS = {
    "quick": "histories of up to 3 operations out of 15 (7 reindexing runs over 5 corpora, 8 model edits), from 4 starting indexes; "
    "4 reindexing runs in a row of a 95 cluster model over 2300 documents",
    "thorough": "histories of up to 4 operations, from 6 starting indexes",
}
ASSUMPTIONS = ["refinement inside histories uses a fixed seed; its random outcomes are explored for C10-C12"]

CORPORA = {
    "A": kit.DOCS_A,
    "B": dict(kit.DOCS_B, d7={"title": ["c", "a", "x"], "tag": {"a"}}),
    "none": {},
    "blank": {"d1": {}, "d2": {"text": []}},
    # same features as A in other documents, other order and keys
    "C": {
        "d9": {"text": ["c", "a"], "tag": {"z", "x"}},
        "d2": {"text": ["b", "b", "d"], "new": {1, 2}},
        "d1": {"text": ["a"], "tag": {"y", "a"}},
    },
}

# (operation, corpus or None)
INDEX = [
    ("index", "A", 2, True),
    ("index", "B", 1, True),
    ("index", "B", 2, False),
    ("index", "C", 1, True),
    ("index", "C", 5, False),
    ("index", "none", 2, True),
    ("index", "blank", 1, True),
]
EDITS = [
    ("initialise", 2, 1),
    ("initialise", 3, 0),
    ("create", (0, 1, 4)),
    ("create", (2, 5)),
    ("pin", (0, 2, 5)),
    ("pin clusters",),
    ("delete cluster",),
    ("refine",),
]

STARTS = ["A", "C", "none", "B"]


def jobs(tier, seed):
    depth = 3 if tier == "quick" else 4
    out = []
    for start in STARTS if tier == "quick" else STARTS + ["blank", "A2"]:
        for i in range(len(INDEX) + len(EDITS)):
            out.append(("histories", start, i, depth))
    out.append(("wide",))
    return out


def starting(name):
    def build(p):
        kit.build(p, CORPORA[name[0] if name == "A2" else name], positions=name != "B")
        if name == "A2":
            with kit.opened(p, kit.MemCorpus(CORPORA["C"])) as idx:
                idx.initialise_clusters(3)
                idx.index(doc_batch_size=1)

    return kit.template("c02" + name, build)


def answers(idx, positions):
    """Everything the index says about the documents, in terms of their keys."""
    out = {}
    fields = {row[0]: row[1:] for row in idx.indexed_field_summary()}
    out["summary"] = fields
    out["features"] = {}
    for field in ["text", "tag", "new", "title", "own"]:
        for value, n, docs in idx.iter_field_docs(field):
            keys = set(idx.convert_query_to_keys(docs))
            out["features"][(field, value)] = (n, keys)
    out["positions"] = stored_positions(idx)
    out["keys"] = sorted(kit.doc_keys(idx).values())
    for group in ([("text", "a"), ("text", "b")], [("tag", "x"), ("tag", "y"), ("text", "a")]):
        docs, weights = idx.union_bitslice(group)
        out[str(group)] = (
            sorted(idx.convert_query_to_keys(docs)),
            [sorted(idx.convert_query_to_keys(w)) for w in weights if w],
        )
    if fields.get("text", (0, 0, 0, 0))[3]:
        known = {v: k for k, v in kit.features_of(idx).items()}
        a = known.get(("text", "a"))
        if a is not None:
            counts, q, w = idx.count_collocations("text", [a], 1)
            names = {k: v for v, k in known.items()}
            out["collocations"] = ({names[k]: tuple(v) for k, v in counts.items()}, q, w)
    return out


_fresh = {}


def fresh_answers(d, op):
    key = op
    if key not in _fresh:
        path = os.path.join(d, "fresh.db")
        kit.write_db(path, kit.template("empty", lambda p: kit.opened(p).__enter__().close()))
        with kit.opened(path, kit.MemCorpus(CORPORA[op[1]])) as idx:
            idx.index(doc_batch_size=op[2], index_positions=op[3])
            _fresh[key] = answers(idx, op[3])
    return _fresh[key]


def apply(idx, op, path):
    name = op[0]
    if name == "initialise":
        idx.initialise_clusters(op[1], min_docs=op[2])
    elif name == "create":
        ids = sorted(kit.features_of(path))
        idx.create_cluster_from_features([ids[i] for i in op[1] if i < len(ids)])
    elif name == "pin":
        ids = sorted(kit.features_of(path))
        idx.pin_features([ids[i] for i in op[1] if i < len(ids)])
    elif name == "pin clusters":
        idx.pin_clusters(idx.cluster_ids[:1])
    elif name == "delete cluster":
        idx.delete_clusters(idx.cluster_ids[-1:])
    elif name == "refine":
        idx.refine_clusters(iterations=2)
    else:
        raise ValueError(op)


def reindex(R, idx, op, path, d):
    features = kit.features_of(path)
    model = kit.model_of(path)
    pins = idx.pinned_cluster_ids
    idx.corpus = kit.MemCorpus(CORPORA[op[1]])
    idx.index(doc_batch_size=op[2], index_positions=op[3])
    now = kit.features_of(path)
    R.check(
        all(now.get(f) == v for f, v in features.items()),
        "a feature did not keep its id",
        lambda: {"before": features, "after": now},
    )
    R.equal(kit.model_of(path), model, "reindexing changed clusters or pins")
    R.equal(idx.pinned_cluster_ids, pins, "reindexing changed the pinned clusters")
    errors = kit.summary_errors(path)
    R.check(not errors, "cluster summaries do not follow the new documents", errors)
    for k in idx.cluster_ids:
        union = set()
        for fid, field, value, n in idx.cluster_features(k):
            docs = idx[fid]
            R.check(n == len(docs), "the document count of a cluster feature is not of the new documents")
            union |= set(docs)
        R.equal(set(idx.cluster_docs(k)), union, "the documents of a cluster are not of the new corpus")
    for f in set(features.values()) - set(kit.Ref(CORPORA[op[1]]).features):
        R.check(not idx[f], "a value that vanished still matches documents")
    got, want = answers(idx, op[3]), fresh_answers(d, op)
    for what in want:
        R.equal(got[what], want[what], f"a reindexed index differs from a new one: {what}")


WIDE = {
    "wide": wide.docs(words=100),
    "moved": wide.docs(n=1700, words=100, shift=900),
    "few": wide.docs(n=70, words=100, shift=2000),
}


def job_wide(R):
    """Thousands of documents and features, batches of the default size."""
    CORPORA.update(WIDE)
    with workdir() as d:
        path = os.path.join(d, "i.db")
        kit.write_db(path, wide.base(words=100))
        fs = kit.features_of(path)
        with kit.raw(path) as c:
            model = wide.model(fs, wide.SIZES)
            kit.set_model(c, model, sorted(model)[::3], sorted(set(model.values()))[::4])
        with kit.opened(path) as idx:
            for op in (
                ("index", "moved", 1000, True), ("index", "moved", 37, False), ("index", "few", 1000, True), ("index", "wide", 400, True)
            ):
                R.context = {"wide": op}
                R.run()
                R.step()
                reindex(R, idx, op, path, d)
                R.state(op)


def job_histories(R, start, first, depth):
    ops = INDEX + EDITS
    with workdir() as d:
        path = os.path.join(d, "i.db")
        frontier = [((), starting(start))]
        seen = set()
        for level in range(depth):
            following = []
            for history, data in frontier:
                for op in [ops[first]] if level == 0 else ops:
                    kit.write_db(path, data)
                    R.context = {"start": start, "history": history + (op,)}
                    R.run()
                    R.step()
                    with kit.opened(path) as idx:
                        if op[0] == "index":
                            reindex(R, idx, op, path, d)
                        else:
                            apply(idx, op, path)
                    state = kit.dump(path)
                    if R.state(state) and level + 1 < depth:
                        kit.checkpoint(path)
                        with open(path, "rb") as f:
                            following.append((history + (op,), f.read()))
                    R.outcome(state["inverted_index"])
            frontier = following
        R.sample({"start": start, "first": ops[first]})
