"""
A seeded sequence of model operations, and what came out as plain data. Also run
as a program, with the real process pool, in a process of its own:

    python -m mc.seeded_run REPO DATABASE SEED WORKERS
"""

import json
import os
import sys

DOCS = {
    f"d{i}": {
        "text": [w for j, w in enumerate("apple berry cedar dogwood elder fig grape hazel ivy".split()) if (i * (j + 3) + j) % 4 == 0],
        "tag": {"xyz"[i % 3], i % 4, "longer tag %d" % (i % 2)},
    }
    for i in range(14)
}

PARTS = ("initialise", "refine", "grouped", "split", "dissolve", "partial", "sample", "passages", "index", "many")


def run(idx, corpus, parts=PARTS):
    """Returns a list of JSON-able results."""
    from pyroaring import BitMap

    out = []

    def model():
        return [
            [k, sorted([f, field, value] for f, field, value, _ in idx.cluster_features(k))]
            for k in idx.cluster_ids
        ]

    def plain(samples):
        return [[[k, sorted(v)] for k, v in sorted(part.items())] for part in samples]

    for part in parts:
        if part == "index":
            idx.corpus = corpus
            idx.index(doc_batch_size=3, index_positions=True)
        elif part == "initialise":
            idx.initialise_clusters(4, min_docs=2, include_fields=["tag", "text"])
        elif part == "refine":
            idx.refine_clusters(iterations=2, tolerance=0, group_test_batches=0)
        elif part == "grouped":
            idx.refine_clusters(iterations=2, tolerance=0, group_test_batches=2, group_test_top_k=1)
        elif part == "split":
            idx.refine_clusters(iterations=2, target_clusters=7)
        elif part == "dissolve":
            idx.refine_clusters(iterations=2, target_clusters=3)
        elif part == "many":
            # more than ten clusters: groups are tested by default
            idx.initialise_clusters(13)
            idx.refine_clusters(iterations=2, tolerance=0)
            idx.refine_clusters(iterations=1, target_clusters=11)
        elif part == "partial":
            idx.pin_features([f for f, *_ in idx.cluster_features(idx.cluster_ids[0])][:1])
            idx.refine_clusters(
                iterations=2, cluster_ids=idx.cluster_ids[:2], target_clusters=4, probe_query=BitMap(range(0, 14, 2))
            )
        elif part == "sample":
            out.append(plain(idx.structured_doc_sample(2)))
            out.append(sorted(idx.sample_bitmap(BitMap(range(14)), 3)))
            out.append(sorted(k for k, _, _ in idx.extract_matching_feature_windows(BitMap(range(14)), [("text", "cedar")], 1, 4)))
        elif part == "passages":
            found = idx.score_passages_dnf([[("text", "apple"), ("text", "cedar"), ("text", "grape")]], 3)
            for k in (1, 4):
                rows = idx.render_passages_table(dict(found), 1, batch_size=3, random_sample_size=k)
                out.append(sorted([doc_id, key] for doc_id, key, _ in rows))
            # the later operations on this index draw on the same generator
            out.append(sorted(idx.sample_bitmap(BitMap(range(14)), 3)))
        out.append([part, model()])
    return json.loads(json.dumps(out))


class Corpus:
    pass


def corpus_class():
    from hyperreal.corpus import BaseCorpus

    class SeededCorpus(BaseCorpus):
        CORPUS_TYPE = "seeded"

        def docs(self, doc_keys=None):
            for key in self.keys() if doc_keys is None else doc_keys:
                yield key, {"key": key, **DOCS[key]}

        def keys(self):
            return iter(DOCS)

        def index(self, doc):
            return {"text": list(doc["text"]), "tag": set(doc["tag"])}

        def __reduce__(self):
            return (make_corpus, ())

    return SeededCorpus


def make_corpus():
    if os.environ.get("MC_REPO") and os.environ["MC_REPO"] not in sys.path:
        sys.path.insert(0, os.environ["MC_REPO"])
    return corpus_class()()


if __name__ == "__main__":
    # the module that background processes can import, not __main__
    from mc import seeded_run

    repo, path, seed, workers = sys.argv[1:]
    sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    import concurrent.futures as cf
    import multiprocessing as mp

    from hyperreal.index import Index

    corpus = seeded_run.make_corpus()
    pool = cf.ProcessPoolExecutor(int(workers), mp_context=mp.get_context("spawn"))
    try:
        idx = Index(path, corpus=corpus, pool=pool, random_seed=json.loads(seed))
        print(json.dumps(seeded_run.run(idx, corpus)))
        idx.close()
    finally:
        pool.shutdown(cancel_futures=True)
