"""
C18 Weighted matching and top-k ranking of documents are exact.
"""

import itertools
import os
from collections import Counter

from pyroaring import BitMap, FrozenBitMap

from mc import kit, wide
from mc.env import workdir

from hyperreal import utilities

TECHNIQUE = "exhaustive enumeration of feature collections, count vectors and cut-offs on the real accumulation and ranking, against counting in plain Python"
NOTE = (
    "Ranking depends on the collection only through the matching count of each document: all count vectors of the stated size are tried, "
    "and accumulation is tried with all sequences of document sets, through the functions and through a stored index."
)
LEVEL = "model_checking"
BOUNDS = {
    "quick": "11 sets of up to 2000 features over 2300 documents, 7 cut-offs; all sequences of up to 5 subsets of 3 documents and every third of 6; all count vectors 0..8 of 4 documents and 0..3 of 6, every cut-off 1..7; all triples of counts around the powers of two up to 257; "
    "in an index: all sequences of up to 4 of 9 features by id, key or mixed; clusters of all subsets of 8 features",
    "thorough": "sequences of 6 and every third of 7, count vectors 0..17 of 4 documents, 0..5 of 6; sequences of up to 5 features in an index",
}
ASSUMPTIONS = []


def jobs(tier, seed):
    deep = tier == "thorough"
    n = 8 if not deep else 32
    out = [("sequences", i, n, deep) for i in range(n)]
    out += [("vectors", i, n, 4, 17 if deep else 8, 6) for i in range(n)]
    out += [("vectors", i, n, 6, 5 if deep else 3, 7) for i in range(n)]
    out += [("large", i, n) for i in range(n)]
    out += [("stored", i, n, deep) for i in range(n)]
    out += [("wide",)]
    out += [("clusters", i, 4) for i in range(4)]
    return out


def threshold(counts, k):
    """Documents of the top k, all of those tied at the end included."""
    counts = {d: n for d, n in counts.items() if n}
    if len(counts) <= k:
        return set(counts)
    t = sorted(counts.values(), reverse=True)[k - 1]
    return {d for d, n in counts.items() if n >= t}


def compare(R, matching, bitslice, counts, cutoffs):
    counts = {d: n for d, n in counts.items() if n}
    R.equal(set(matching), set(counts), "the matching documents are not the union")
    R.equal(
        list(utilities.weight_bitslice(bitslice)),
        sorted(counts.items()),
        "documents have other weights than the number of features they match",
    )
    before = [set(b) for b in bitslice]
    for k in cutoffs:
        got = set(utilities.bstm(matching, bitslice, k))
        R.step()
        R.equal(got, threshold(counts, k), "not the top documents", {"k": k, "counts": counts})
        R.outcome(sorted(got))
    R.equal(
        ([set(b) for b in bitslice], set(matching)), (before, set(counts)), "ranking changes what it ranks"
    )


def job_sequences(R, part, parts, deep):
    subsets = [{d for d in range(3) if m >> d & 1} for m in range(8)]
    for length in range(8 if deep else 7):
        step = 3 if length == (7 if deep else 6) else 1
        for i, chosen in enumerate(itertools.product(range(8), repeat=length)):
            if i % (parts * step) != part * step:
                continue
            kind = FrozenBitMap if i % 2 else BitMap
            # the same object several times, as lookups of one feature would be
            objects = {m: kind(subsets[m]) for m in chosen}
            R.context = {"sets": [sorted(subsets[m]) for m in chosen]}
            matching, bitslice = utilities.compute_bitslice(objects[m] for m in chosen)
            R.run()
            R.state(chosen)
            compare(R, matching, bitslice, Counter(d for m in chosen for d in subsets[m]), (1, 2, 3))
            R.equal(
                {m: set(o) for m, o in objects.items()}, {m: subsets[m] for m in objects}, "accumulating changes the sets"
            )


def job_vectors(R, part, parts, docs, top, cutoff):
    for i, counts in enumerate(itertools.product(range(top + 1), repeat=docs)):
        if i % parts != part:
            continue
        # documents far apart use several containers of the bitmaps
        ids = [0, 1, 65536, 65537, 200000, 2**31][:docs]
        sets = [BitMap(d for d, n in zip(ids, counts) if n > j) for j in range(max(counts))]
        if i % 3 == 1:
            sets.reverse()
        R.context = {"counts": counts}
        matching, bitslice = utilities.compute_bitslice(sets)
        R.run()
        R.state(counts)
        compare(R, matching, bitslice, dict(zip(ids, counts)), range(1, cutoff + 1))


def job_large(R, part, parts):
    """Counts around every power of two, for every number of bits up to nine."""
    edges = [0, 1, 2, 3, 7, 8, 9, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 257]
    for i, counts in enumerate(itertools.product(edges, repeat=3)):
        if i % parts != part:
            continue
        sets = [BitMap(d for d in range(3) if counts[d] > j) for j in range(max(counts))]
        R.context = {"counts": counts}
        matching, bitslice = utilities.compute_bitslice(sets)
        R.run()
        R.state(counts)
        compare(R, matching, bitslice, dict(enumerate(counts)), (1, 2, 3))


DOCS = {
    "a": {"f": ["x", "y"], "tag": {1}},
    "b": {"f": ["x", "y", "z"], "tag": {1, 2}},
    "c": {"f": ["z", "z"], "tag": {2, "x"}},
    "d": {"f": [], "tag": {"x"}},
    "e": {"f": ["w"], "tag": set()},
}


def index(path):
    kit.write_db(path, kit.template("c18", lambda p: kit.build(p, DOCS, batch=2)))


def job_stored(R, part, parts, deep):
    ref = kit.Ref(DOCS)
    with workdir() as d:
        path = os.path.join(d, "i.db")
        index(path)
        with kit.opened(path) as idx:
            known = {v: k for k, v in kit.features_of(idx).items()}
            docs = {v: k for k, v in kit.doc_keys(idx).items()}
            keys = sorted(known, key=repr) + [("f", "unknown")]
            before = kit.dump(path)
            for length in range(6 if deep else 5):
                for i, chosen in enumerate(itertools.product(range(len(keys)), repeat=length)):
                    if i % parts != part:
                        continue
                    wanted = [keys[j] for j in chosen]
                    how = i // parts % 3
                    asked = [
                        known[k] if k in known and (how == 1 or how == 2 and n % 2) else k for n, k in enumerate(wanted)
                    ]
                    R.context = {"features": asked}
                    matching, bitslice = idx.union_bitslice(asked)
                    R.run()
                    R.state((chosen, how))
                    counts = Counter(docs[key] for k in wanted for key in ref.postings.get(k, ()))
                    compare(R, matching, bitslice, counts, (1, 2, 4))
            R.equal(kit.dump(path), before, "ranking changed the index")
            for key, i in known.items():
                R.equal({docs[k] for k in ref.postings[key]}, set(idx[i]), "ranking changed a feature", key)


def job_clusters(R, part, parts):
    ref = kit.Ref(DOCS)
    with workdir() as d:
        path = os.path.join(d, "i.db")
        index(path)
        known = {v: k for k, v in kit.features_of(path).items()}
        keys = sorted(known, key=repr)
        data = kit.read_db(path)
        for i, chosen in enumerate(kit.subsets(keys)):
            if i % parts != part:
                continue
            kit.write_db(path, data)
            with kit.raw(path) as c:
                kit.set_model(c, {known[k]: 1 if k in chosen else 2 for k in keys})
                c.commit()
            with kit.opened(path) as idx:
                docs = {v: k for k, v in kit.doc_keys(idx).items()}
                for cluster, part_of in ((1, set(chosen)), (2, set(keys) - set(chosen))):
                    R.context = {"cluster": sorted(part_of, key=repr)}
                    matching, bitslice = idx.cluster_query(cluster)
                    R.run()
                    R.state((chosen, cluster))
                    counts = Counter(docs[key] for k in part_of for key in ref.postings[k])
                    compare(R, matching, bitslice, counts, (1, 2, 3, 5))
                    if part_of:
                        R.equal(set(idx.cluster_docs(cluster)), set(counts), "wrong documents of a cluster")


def job_wide(R):
    """Thousands of features and documents."""
    ref = kit.Ref(wide.docs())
    with workdir() as d:
        path = kit.write_db(os.path.join(d, "i.db"), wide.base())
        known = kit.features_of(path)
        fs = sorted(known)
        docs = {v: k for k, v in kit.doc_keys(path).items()}
        model = wide.model(fs[::3] + fs[1::3] + fs[2::3], [2000, 300, 257, 256, 129, 5, 1])
        with kit.raw(path) as c:
            kit.set_model(c, model)
        cutoffs = (1, 2, 20, 500, 1000, 2200, 5000)
        count = lambda chosen: Counter(docs[k] for f in chosen for k in ref.postings[known[f]])
        with kit.opened(path) as idx:
            for i, chosen in enumerate([fs[:2000], fs[::2] * 2, fs[5:9] * 400, fs[::-7]]):
                R.context = {"wide": i}
                R.run()
                R.state(i)
                compare(R, *idx.union_bitslice([known[f] if n % 2 else f for n, f in enumerate(chosen)]), count(chosen), cutoffs)
            for k in sorted(set(model.values())):
                R.context = {"wide cluster": k}
                R.run()
                R.state(("cluster", k))
                compare(R, *idx.cluster_query(k), count([f for f in model if model[f] == k]), cutoffs)
