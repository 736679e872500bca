"""
C16 Collocation counts are exact and stay within documents and fields.
"""

import itertools
import os

from mc import kit, wide
from mc.env import CTL, workdir
from mc.explore import explore
from mc.positions import UNTITLED, collocations, corpus_of, sequences

TECHNIQUE = "exhaustive enumeration of small corpora, features, windows, batch sizes and completion orders on the real counts, against a reference on token lists"
NOTE = "All corpora of the stated sizes over a three letter alphabet, in two fields holding different text."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all pairs of sequences up to length 3 over {a,b,x} in one batch and in two, 3 feature sets x windows 0..3; "
    "wide: 5 feature sets x 4 windows over 2300 documents; every 7th triple up to length 2, some without a second positional field, with batch size 1 and 2; all completion orders of 3 batches",
    "thorough": "pairs up to length 4 (every second), all triples up to length 2, windows 0..4",
}
ASSUMPTIONS = ["token values beyond a three letter alphabet behave alike"]


def jobs(tier, seed):
    deep = tier == "thorough"
    n = 16 if not deep else 96
    out = [("pairs", i, n, deep) for i in range(n)]
    out += [("triples", i, 8, deep) for i in range(8)]
    out += [("orders", i, deep) for i in range(3)]
    out += [("wide", w) for w in (0, 1, 5, 60)]
    return out


def ask(R, idx, docs, known, field, wanted, window):
    ids = {known[(field, v)]: v for v in wanted if (field, v) in known}
    if not ids:
        return None
    R.context = {"docs": repr(docs), "field": field, "features": wanted, "window": window}
    counts, query, covered = idx.count_collocations(field, list(ids), window)
    R.step()
    features = {i: k for k, i in known.items()}
    got = ({features[i]: tuple(c) for i, c in counts.items()}, query, covered)
    want, q, c = collocations(docs, field, set(ids.values()), window)
    R.equal(
        got, ({(field, v): n for v, n in want.items()}, q, c), "collocations differ from the documents"
    )
    R.outcome(got)
    return got


def every(R, idx, docs, windows):
    known = {v: k for k, v in kit.features_of(idx).items()}
    for field in ("text", "title"):
        for wanted in ("a", "b", "ab"):
            for window in windows:
                ask(R, idx, docs, known, field, wanted, window)


def job_pairs(R, part, parts, deep):
    corpora = list(itertools.product(sequences("abx", 4 if deep else 3), repeat=2))[:: 2 if deep else 1]
    with workdir() as d:
        empty = kit.template("empty", lambda p: kit.opened(p).__enter__().close())
        path = os.path.join(d, "i.db")
        for texts in corpora[part::parts]:
            docs = corpus_of(texts)
            kit.write_db(path, empty)
            with kit.opened(path, kit.MemCorpus(docs)) as idx:
                idx.index(doc_batch_size=1 if len(texts[0]) == 2 else 10, index_positions=True)
                R.run()
                R.state(texts)
                every(R, idx, docs, range(5 if deep else 4))
        R.sample({"texts": corpora[part]})


def job_triples(R, part, parts, deep):
    corpora = list(itertools.product(sequences("abx", 2), repeat=3))[:: 1 if deep else 7]
    with workdir() as d:
        empty = kit.template("empty", lambda p: kit.opened(p).__enter__().close())
        path = os.path.join(d, "i.db")
        for n, texts in enumerate(corpora[part::parts]):
            docs = corpus_of(texts, texts[1:] + texts[:1], UNTITLED[n % 4])
            for batch in (1, 2):
                kit.write_db(path, empty)
                with kit.opened(path, kit.MemCorpus(docs)) as idx:
                    idx.index(doc_batch_size=batch, index_positions=True)
                    R.run()
                    R.state((texts, batch))
                    every(R, idx, docs, (1, 2))
        R.sample({"texts": corpora[part]})


def job_orders(R, part, deep):
    texts = [["ab", "ba", "aab"], ["axb", "", "bab"], ["a", "xxa", "b", "abx"]][part]
    with workdir() as d:
        docs = corpus_of([list(t) for t in texts])
        path = os.path.join(d, "i.db")
        kit.build(path, docs, batch=1)
        with kit.opened(path) as idx:
            known = {v: k for k, v in kit.features_of(idx).items()}
            for wanted in ("a", "ab", "x"):
                for window in (0, 1, 3):

                    def run(ch):
                        R.run()
                        CTL.order = lambda n, tag: ch.choose(n, tag)
                        try:
                            ask(R, idx, docs, known, "text", wanted, window)
                        finally:
                            CTL.order = None
                        R.state((part, ch.choices))

                    explore(run, bound=None if deep else 2)


def job_wide(R, window):
    """Thousands of documents in batches of the default size; a long document."""
    docs = wide.docs()
    with workdir() as d:
        path = kit.write_db(os.path.join(d, "i.db"), wide.base())
        with kit.opened(path) as idx:
            known = {v: k for k, v in kit.features_of(idx).items()}
            for field, wanted in (
                ("text", ["w1"]),
                ("text", [f"w{i}" for i in range(0, 1500, 5)]),
                ("text", ["w77", "w1200"]),
                ("title", ["t3", "t4"]),
                ("title", [f"t{i}" for i in range(1, 49)]),
            ):
                R.run()
                R.state((window, field, len(wanted)))
                ids = {known[(field, v)]: v for v in wanted if (field, v) in known}
                R.context = {"wide": wanted[:3], "window": window}
                counts, query, covered = idx.count_collocations(field, list(ids), window)
                R.step()
                features = {i: k[1] for k, i in known.items() if k[0] == field}
                want, q, c = collocations(docs, field, set(ids.values()), window)
                got = {features.get(i): tuple(n) for i, n in counts.items()}
                R.check(
                    got == want and (query, covered) == (q, c), "collocations differ from the documents",
                    lambda: [(v, got.get(v), want.get(v)) for v in {*got, *want} if got.get(v) != want.get(v)][:5] + [query, covered, q, c],
                )
