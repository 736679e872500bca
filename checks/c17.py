"""
C17 Concordances show every match with its exact context.
"""

import itertools
import math
import os

from pyroaring import BitMap, FrozenBitMap

from mc import kit, wide
from mc.env import CTL, workdir
from mc.explore import RandomChoices, explore
from mc.positions import sequences

TECHNIQUE = "exhaustive enumeration of documents, requested features, windows and random outcomes on the real extraction, against slicing of token lists"
NOTE = "Every token sequence of the stated length, with gaps (None), duplicated tokens and a set-valued field, asked for by id, by key and mixed."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all sequences up to length 5 over {a,b,gap} and up to length 3 over {a,0,the text 0,the empty text,2.5,gap} as lists and tuples, two sequence fields and a set field per document; 15 feature selections x 3 spellings; windows 0..3 and 9; "
    "wide: 6 feature selections x windows 0, 5 and 300 over 2300 documents, samples of 1 to 2000; all queries over 4 documents; all random outcomes of samples of 1..5 of 5 documents",
    "thorough": "all sequences up to length 7 over {a,b,c,gap}, windows 0..7",
}
ASSUMPTIONS = []


def jobs(tier, seed):
    deep = tier == "thorough"
    n = 8 if not deep else 48
    return (
        [("texts", i, n, deep) for i in range(n)]
        + [("texts", i, 4, deep, True) for i in range(4)]
        + [("queries", i, 4) for i in range(4)]
        + [("wide",)]
        + [("samples", i) for i in range(6)]
    )


class RawCorpus(kit.MemCorpus):
    """Lists stay lists, tuples stay tuples."""

    def index(self, doc):
        return dict(doc["features"])


FEATURES = [
    [("text", "a")],
    [("text", "a"), ("text", "b")],
    [("title", "a"), ("text", "b")],
    [("tag", 1), ("text", "a")],
    [("tag", "s"), ("tag", 1)],
    [("tag", "1"), ("tag", 2.5)],
    [("text", "a"), ("text", "a"), ("title", "b")],
    [("text", "never"), ("nofield", "a"), ("text", "b")],
    [("title", "a"), ("text", "a"), ("tag", "s"), ("tag", 2.5)],
    [],
    [("nofield", 3)],
    [("tag", "a"), ("text", 1)],
    [("text", "0"), ("title", 2.5), ("text", 0)],
    [("text", ""), ("tag", 0), ("title", 0)],
    [("tag", ""), ("title", ""), ("tag", 2.5)],
]


def reference(fields, wanted, window):
    out = {}
    for field, value in wanted:
        values = fields.get(field, ())
        if isinstance(values, (list, tuple)):
            hits = [
                [values[j] for j in range(len(values)) if abs(i - j) <= window]
                for i, v in enumerate(values)
                if v == value
            ]
            if hits:
                out.setdefault(field, {})[value] = hits
        elif value in values:
            out.setdefault(field, {})[value] = []
    return out


def plain(matches):
    return {
        field: {v: [w if isinstance(w, str) else list(w) for w in windows] for v, windows in found.items()}
        for field, found in matches.items()
        if found
    }


def spell(wanted, known, how):
    """By key, by id, or mixed."""
    return [
        known[k] if k in known and (how == 1 or how == 2 and i % 2) else k for i, k in enumerate(wanted)
    ]


def ask(R, idx, docs, keys, known, query, wanted, window, how=0, sample=None, join=None):
    asked = spell(wanted, known, how)
    R.context = {
        "documents": repr({k: docs[k] for k in query}), "features": asked, "window": window, "sample": sample
    }
    bitmap = (FrozenBitMap if how == 1 else BitMap)(keys[k] for k in query)
    got = list(idx.extract_matching_feature_windows(bitmap, asked, window, *([sample] if sample is not None else [])))
    R.step()
    found = [key for key, _, _ in got]
    size = len(query) if sample is None else min(sample, len(query))
    R.check(
        len(found) == len(set(found)) == size and set(found) <= set(query),
        "not exactly the requested documents",
        {"got": found, "query": query},
    )
    for key, doc_id, matches in got:
        R.equal(doc_id, keys[key], "a document comes with another document's id")
        R.equal(plain(matches), reference(docs[key], wanted, window), "windows differ from the document", key)
    R.outcome([plain(m) for _, _, m in got])
    if sample is None:
        more = {} if join is None else {"join_character": join}
        texts = list(idx.concordances(bitmap, asked, window, **more))
        R.equal([k for k, _, _ in texts], found, "concordances list other documents")
        for key, doc_id, matches in texts:
            want = {
                field: {
                    v: [(" " if join is None else join).join(str(t) for t in w if t is not None) for w in windows]
                    for v, windows in hits.items()
                }
                for field, hits in reference(docs[key], wanted, window).items()
            }
            R.equal((doc_id, plain(matches)), (keys[key], want), "concordances differ from the document", key)
    return found


def job_texts(R, part, parts, deep, values=False):
    if values:
        alphabet, top = ["a", 0, "0", "", 2.5, None], 4 if deep else 3
    else:
        alphabet, top = (["a", "b", "c", None], 7) if deep else (["a", "b", None], 5)
    texts = [t for n in range(top + 1) for t in itertools.product(alphabet, repeat=n)]
    docs = {}
    for i, t in enumerate(texts[part::parts]):
        # the empty text is a key as well
        key = f"k{i:05d}" if i else ""
        docs[key] = {
            "text": list(t) if i % 2 else t,
            "title": list(texts[(i * 7) % len(texts)])[::-1],
            "tag": {1, "s", "1"} if i % 3 == 0 else {2.5, "a"} if i % 3 == 1 else {0, ""} if i % 2 else set(),
        }
        if i % 5 == 4:
            del docs[key]["title"]
    with workdir() as d:
        path = os.path.join(d, "i.db")
        with kit.opened(path, RawCorpus(docs)) as idx:
            idx.index(doc_batch_size=1000)
            known = {v: k for k, v in kit.features_of(idx).items()}
            keys = {v: k for k, v in kit.doc_keys(idx).items()}
            order = sorted(docs)
            for i, wanted in enumerate(FEATURES):
                for window in (0, 1, 2, 3, 9) if not deep else range(8):
                    for how in range(3):
                        R.run()
                        R.state((part, i, window, how))
                        ask(R, idx, docs, keys, known, order, wanted, window, how, join="_" if how == 2 else None)
        R.note("documents", len(docs))


SMALL = {
    "b": {"text": ["a", "b", "a"], "tag": {1}},
    "a": {"text": ["b"], "tag": {"s"}},
    "d": {"text": ["a", None, "b", "b"], "tag": {1, "1"}, "title": ["a"]},
    "c": {"text": [], "tag": set()},
    "e": {"text": ["a"] * 4, "tag": {2.5}},
}


def job_queries(R, part, parts):
    with workdir() as d:
        path = os.path.join(d, "i.db")
        with kit.opened(path, kit.MemCorpus(SMALL)) as idx:
            idx.index(doc_batch_size=2)
            known = {v: k for k, v in kit.features_of(idx).items()}
            keys = {v: k for k, v in kit.doc_keys(idx).items()}
            for i, query in enumerate(kit.subsets(sorted(SMALL))):
                if i % parts == part:
                    for j, wanted in enumerate(FEATURES):
                        for window in (0, 1, 5):
                            R.run()
                            R.state((query, j, window))
                            ask(R, idx, SMALL, keys, known, list(query), wanted, window, (i + j) % 3)


def job_samples(R, size):
    with workdir() as d:
        path = os.path.join(d, "i.db")
        with kit.opened(path, kit.MemCorpus(SMALL)) as idx:
            idx.index(doc_batch_size=2)
            known = {v: k for k, v in kit.features_of(idx).items()}
            keys = {v: k for k, v in kit.doc_keys(idx).items()}
            for query in ("abcde", "bde", "c", ""):
                for concordance in (False, True):
                    seen = set()

                    def once(ch):
                        R.run()
                        R.state((size, query, concordance, ch.choices))
                        CTL.random = RandomChoices(ch)
                        try:
                            if concordance:
                                R.context = {"query": query, "sample": size}
                                rows = list(
                                    idx.concordances(BitMap(keys[k] for k in query), [("text", "a")], 1, random_sample_size=size)
                                )
                                R.step()
                                found = [k for k, _, _ in rows]
                                R.check(
                                    len(set(found)) == len(found) == min(size, len(query)) and set(found) <= set(query),
                                    "not the requested number of documents",
                                    found,
                                )
                            else:
                                found = ask(
                                    R, idx, SMALL, keys, known, list(query), FEATURES[1], 1, 2, sample=size
                                )
                        finally:
                            CTL.random = None
                        seen.add(tuple(sorted(found)))

                    explore(once)
                    R.equal(
                        len(seen),
                        math.comb(len(query), min(size, len(query))),
                        "some documents can never be in a sample together",
                        {"query": query, "size": size},
                    )


def job_wide(R):
    """Thousands of documents, a long one, hundreds of features."""
    docs = wide.docs()
    with workdir() as d:
        path = kit.write_db(os.path.join(d, "i.db"), wide.base())
        with kit.opened(path, kit.MemCorpus(docs)) as idx:
            known = {v: k for k, v in kit.features_of(idx).items()}
            keys = {v: k for k, v in kit.doc_keys(idx).items()}
            everything = sorted(docs)
            for i, wanted in enumerate(
                [
                    [("text", "w1")],
                    [("text", f"w{i}") for i in range(0, 1500, 4)],
                    [("tag", 3), ("text", "w33"), ("title", "t7")],
                    [("own", i) for i in range(2300)],
                    [("title", f"t{i}") for i in range(50)] + [("text", "w2")],
                    sorted(known, key=repr)[::11],
                ]
            ):
                for query, window, sample in (
                    (everything, 0, None), (everything[100:1500], 5, None), (["d40", "d41", "d5"], 300, None),
                    (everything, 1, 1), (everything, 1, 60), (everything[:1300], 1, 1299), (everything, 1, 2000), (everything[:1200], 1, 2000),
                ):
                    R.run()
                    R.state((i, len(query), window, sample))
                    ask(R, idx, docs, keys, known, query, wanted, window, i % 3, sample=sample)
