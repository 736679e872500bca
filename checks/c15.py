"""
C15 Passage search finds exactly the passages in each document.

Every corpus of short token sequences within the bound, every query of the
alphabet, every window, against a direct reading of the token lists.
"""

import itertools
import os

from mc import kit, wide
from mc.env import CTL, workdir
from mc.explore import explore
from mc.positions import UNTITLED, by_field, corpus_of, passages, sequences, sound, together

TECHNIQUE = "exhaustive enumeration of small corpora, queries, windows, batch sizes and completion orders on the real search, against a reference on token lists"
NOTE = (
    "All corpora of the stated sizes over a three letter alphabet. With more than two clauses the ends of the passages and the "
    "matches they must contain are checked, as the statement says."
)
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all pairs of sequences up to length 3 over {a,b,x} (1600 corpora) in one batch, 7 queries (one of three clauses) x windows 0..3; "
    "three documents up to length 2, some of them without a second positional field, with batch sizes 1 and 2 (every 7th corpus); all completion orders of 3 batches; "
    "wide: 7 queries x windows 0..300 over 2300 documents and one of 2600 tokens, rendered; rendering with overhang 0..3",
    "thorough": "pairs up to length 4 (every second corpus), windows 0..4; all triples up to length 2 with batch sizes 1, 2 and 3",
}
ASSUMPTIONS = ["token values beyond a three letter alphabet behave alike"]

POSITIONAL = {"text", "title"}


def T(*values):
    return [("text", v) for v in values]


QUERIES = [
    [T("a")],
    [T("a", "b")],
    [T("a"), T("b")],
    [T("a", "x"), T("b")],
    [T("a", "b"), T("b")],
    [T("a") + [("title", "x")], T("b") + [("tag", "a"), ("title", "b")]],
    [T("a"), T("b"), T("x")],
]


def jobs(tier, seed):
    deep = tier == "thorough"
    out = []
    n = 16 if not deep else 96
    for i in range(n):
        out.append(("pairs", i, n, deep))
    for i in range(8 if not deep else 32):
        out.append(("triples", i, 8 if not deep else 32, deep))
    for i in range(4):
        out.append(("orders", i, deep))
    out += [("wide", i) for i in range(4)]
    for i in range(6):
        out.append(("render", i, deep))
    return out


def ask(R, idx, docs, query, window, ids=False):
    known = {v: k for k, v in kit.features_of(idx).items()}
    query = [[f for f in clause if f in known] for clause in query]
    if not all(query):
        return None
    keys = kit.doc_keys(idx)
    given = [[known[f] if ids else f for f in clause] for clause in query]
    got = idx.score_passages_dnf(given, window)
    R.step()
    got = {
        keys[d]: sorted(tuple(p) for p in found) for d, found in got.items() if found
    }
    fields = by_field(query, idx.positional_fields)
    R.context = {"docs": repr(docs), "query": query, "window": window}
    if any(len(c) > 2 for c in fields.values()):
        for key, found in got.items():
            for field, start, end, count in found:
                R.check(
                    sound(docs[key][field], fields[field], window, start, end, count),
                    "a passage of three clauses starts or ends far from one of them",
                    repr(got),
                )
        for key, doc in docs.items():
            for field, clauses in fields.items():
                for p in set(together(doc.get(field, ()), clauses, window)):
                    R.check(
                        any(f == field and start <= p <= end for f, start, end, _ in got.get(key, ())),
                        "matches of three clauses next to each other are not in a passage",
                        (key, field, p, repr(got)),
                    )
        return got
    want = {}
    for key, doc in docs.items():
        found = [
            (field, *p)
            for field, clauses in fields.items()
            for p in passages(doc.get(field, ()), clauses, window)
        ]
        if found:
            want[key] = sorted(found)
    R.equal(got, want, "passages differ from the documents")
    R.outcome((query, window, got))
    return got


def job_pairs(R, part, parts, deep):
    longest = 4 if deep else 3
    seqs = list(sequences("abx", longest))
    corpora = list(itertools.product(seqs, repeat=2))[:: 2 if deep else 1]
    with workdir() as d:
        empty = kit.template("empty", lambda p: kit.opened(p).__enter__().close())
        path = os.path.join(d, "i.db")
        for texts in corpora[part::parts]:
            docs = corpus_of(texts)
            kit.write_db(path, empty)
            with kit.opened(path, kit.MemCorpus(docs)) as idx:
                idx.index(doc_batch_size=10, index_positions=True)
                R.run()
                R.state(texts)
                for query in QUERIES:
                    for window in range(5 if deep else 4):
                        ask(R, idx, docs, query, window)
        R.sample({"texts": corpora[part], "queries": QUERIES[:6]})


def job_triples(R, part, parts, deep):
    seqs = list(sequences("abx", 2))
    corpora = list(itertools.product(seqs, repeat=3))[:: 1 if deep else 7]
    with workdir() as d:
        empty = kit.template("empty", lambda p: kit.opened(p).__enter__().close())
        path = os.path.join(d, "i.db")
        for n, texts in enumerate(corpora[part::parts]):
            # the titles are those of the next document
            docs = corpus_of(texts, texts[1:] + texts[:1], UNTITLED[n % 4])
            for batch in (1, 2) if not deep else (1, 2, 3):
                kit.write_db(path, empty)
                with kit.opened(path, kit.MemCorpus(docs)) as idx:
                    idx.index(doc_batch_size=batch, index_positions=True)
                    R.run()
                    R.state((texts, batch))
                    for query in QUERIES[2:7]:
                        for window in (0, 2):
                            ask(R, idx, docs, query, window, ids=True)
        R.sample({"texts": corpora[part]})


def job_orders(R, part, deep):
    """The order in which partitions complete makes no difference."""
    texts = [
        ["ab", "ba", "aab"],
        ["axb", "", "bab"],
        ["a", "xx", "b"],
        ["abab", "bx", "xa"],
    ][part]
    with workdir() as d:
        docs = corpus_of([list(t) for t in texts])
        path = os.path.join(d, "i.db")
        kit.build(path, docs, batch=1)
        with kit.opened(path) as idx:
            for query in QUERIES:
                for window in (0, 1, 3):
                    default = ask(R, idx, docs, query, window)

                    def run(ch):
                        R.run()
                        CTL.order = lambda n, tag: ch.choose(n, tag)
                        try:
                            got = ask(R, idx, docs, query, window)
                        finally:
                            CTL.order = None
                        R.equal(got, default, "the order of completion changes the passages")
                        R.state((part, ch.choices))

                    explore(run, bound=None if deep else 2)


def job_render(R, part, deep):
    texts = [
        ["abxab", "b", "xaxbx"],
        ["", "ab", "ba"],
        ["bbbb", "aaba", "x"],
        ["xxaxx", "axxxb", "bxxxa"],
        ["abxab", "xaxbx"],
        ["axb", "bba", ""],
    ][part]
    # tokens may be any value
    token = {"b": 0, "x": ""}.get if part > 3 else lambda v, _: v
    with workdir() as d:
        docs = corpus_of([[token(v, v) for v in t] for t in texts])
        path = os.path.join(d, "i.db")
        corpus = kit.build(path, docs, batch=2)
        with kit.opened(path, corpus) as idx:
            keys = kit.doc_keys(idx)
            for query in QUERIES[:6]:
                known = set(kit.features_of(idx).values())
                q = [[f for f in ((n, token(v, v)) for n, v in c) if f in known] for c in query]
                if not all(q):
                    continue
                for window in (0, 1, 2):
                    found = idx.score_passages_dnf(q, window)
                    for overhang in range(4):
                        for batch in (1, 2, 1000):
                            R.run()
                            R.step()
                            R.context = {
                                "texts": texts, "query": q, "window": window, "overhang": overhang, "batch": batch,
                            }
                            got = {}
                            for doc_id, key, fields in idx.render_passages_table(
                                found, passage_overhang=overhang, batch_size=batch
                            ):
                                R.check(keys[doc_id] == key and key not in got, "wrong or repeated document", key)
                                got[key] = fields
                            want = {}
                            for doc_id, ps in found.items():
                                if not ps:
                                    continue
                                doc = docs[keys[doc_id]]
                                fields = {"tag": set(doc["tag"])}
                                for field, start, end, *_ in ps:
                                    fields.setdefault(field, []).append(
                                        " ".join(str(v) for v in doc[field][max(0, start - overhang) : end + 1 + overhang])
                                    )
                                want[keys[doc_id]] = fields
                            R.equal(got, want, "rendered passages are not the passages' text")
                            R.state((part, q, window, overhang))
                    for size in (0, 1, 2, 5):
                        rows = list(idx.render_passages_table(found, random_sample_size=size))
                        R.run()
                        R.check(
                            len(rows) == min(size, len(found))
                            and len({r[1] for r in rows}) == len(rows)
                            and {r[0] for r in rows} <= set(found),
                            "a sample of passages has the wrong documents",
                            [r[:2] for r in rows],
                        )


WIDE = [
    [T("w1")],
    [T("w1", "w2", "w3", "w17", "w40")],
    [T("w1"), T("w2")],
    [T(*(f"w{i}" for i in range(0, 900, 2))), T(*(f"w{i}" for i in range(1, 900, 7)))],
    [T("w5") + [("title", "t3")], T("w6") + [("title", f"t{i}") for i in range(10)]],
    [[("title", f"t{i}") for i in range(50)]],
    [T("w3") + [("tag", 3)], T("w1000", "w33")],
]


def job_wide(R, part):
    """Thousands of documents in batches of the default size; a long document."""
    docs = wide.docs()
    with workdir() as d:
        path = kit.write_db(os.path.join(d, "i.db"), wide.base())
        with kit.opened(path, kit.MemCorpus(docs)) as idx:
            keys = kit.doc_keys(idx)
            known = set(kit.features_of(idx).values())
            fields = idx.positional_fields
            for i, query in enumerate(WIDE):
                query = [[f for f in c if f in known] for c in query]
                for window in ((0, 300), (1, 50), (3,), (10,))[part]:
                    R.context = {"wide": i, "window": window}
                    R.run()
                    R.step()
                    R.state((i, window))
                    found = idx.score_passages_dnf(query, window)
                    want = {}
                    for field, clauses in by_field(query, fields).items():
                        for key, doc in docs.items():
                            for p in passages(doc.get(field, ()), clauses, window):
                                want.setdefault(key, []).append((field, *p))
                    got = {keys[x]: sorted(map(tuple, v)) for x, v in found.items() if v}
                    R.equal({k: sorted(v) for k, v in want.items()} == got, True, "passages differ from the documents", lambda: [
                        (k, want.get(k), got.get(k)) for k in docs if sorted(want.get(k, ())) != got.get(k, [])
                    ][:3])
                    rows = {k: (x, f) for x, k, f in idx.render_passages_table(found, passage_overhang=2)}
                    R.equal(
                        {k: {f: v for f, v in fields.items() if isinstance(v, list)} for k, (_, fields) in rows.items()},
                        {k: {f: [" ".join(docs[k][f][max(0, s - 2) : e + 3]) for g, s, e, _ in v if g == f] for f in {p[0] for p in v}} for k, v in got.items()},
                        "rendered passages are not the passages' text",
                    )
