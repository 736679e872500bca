"""
C26 Reading an index never changes it or later answers.
"""

import copy
import itertools
import os
import pickle

from pyroaring import BitMap, FrozenBitMap

from hyperreal.index import CorpusMissingError, UnsupportedCorpusOperation
from mc import kit
from mc.env import CTL, workdir

TECHNIQUE = "exhaustive enumeration of sequences of reads, in-place changes of their results and edits by another connection on the real index, comparing every answer with that of a fresh index"
NOTE = (
    "About 60 reads with their arguments (including failing and abandoned ones) in every order up to the depth; what they return is "
    "cleared and extended in place before the next read."
)
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all sequences of 2 of 60 reads followed by a comparison of the stored content; the same with an edit or a reindexing run by another object, or (also failing) by the same one, between the two; copies through pickling and reopening; 10 requests needing documents with every sequence of two of 5 absent or reduced corpora",
    "thorough": "all sequences of 3 reads, every pair around each of 5 edits",
}
ASSUMPTIONS = ["random choices are fixed to one outcome, so that answers can be compared (C19 and C13 cover them)"]

DOCS = {
    "d1": {"text": ["a", "b", "a", "c"], "tag": {"x"}},
    "d2": {"text": ["b", "c"], "tag": {"x", "y"}},
    "d3": {"text": ["c"], "tag": set()},
    "d4": {"text": [], "tag": {"y"}},
    "d5": {"text": ["d", "a", "b"], "tag": {"z"}},
    "d6": {"text": ["a", "d"], "tag": {"x", "z"}},
}
NEWER = {
    "d1": {"text": ["a", "e"], "tag": {"x"}},
    "d2": {"text": ["b", "c", "c"], "tag": {"x", "y"}},
    "d7": {"text": ["c", "a"], "tag": {"y"}},
    "d5": {"text": ["d"], "tag": {"z"}},
    "d6": {"text": ["b", "d"], "tag": {"x", "z"}},
}


class Corpus(kit.MemCorpus):
    """Hands out copies, so that a changed document is not the corpus's."""

    def docs(self, doc_keys=None):
        for key, doc in super().docs(doc_keys):
            yield key, copy.deepcopy(doc)


class Fixed:
    def random(self):
        return 0.25

    def randbelow(self, n):
        return 0


def spoil(x, depth=0):
    """Change everything in a result in place."""
    if isinstance(x, BitMap):
        x.clear()
        x.update([0, 1, 77])
    elif isinstance(x, dict):
        for v in list(x.values()):
            spoil(v, depth + 1)
        x.clear()
    elif isinstance(x, list):
        for v in x:
            spoil(v, depth + 1)
        x.clear()
    elif isinstance(x, tuple):
        for v in x:
            spoil(v, depth + 1)
    elif isinstance(x, set):
        x.clear()


def freeze(x):
    """A comparable copy of a result."""
    if isinstance(x, (BitMap, FrozenBitMap)):
        return ("bitmap", tuple(x))
    if isinstance(x, dict):
        return ("dict", tuple(sorted(((repr(k), freeze(v)) for k, v in x.items()), key=repr)))
    if isinstance(x, (list, tuple)):
        return tuple(freeze(v) for v in x)
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, x))))
    if isinstance(x, (str, int, float, bytes, type(None))):
        return x
    return str(x)


def partly(it, n):
    """The first n results of an iterator that is then given up."""
    it = iter(it)
    out = list(itertools.islice(it, n))
    if hasattr(it, "close"):
        it.close()
    return out


def some_docs(idx):
    return BitMap(idx[("tag", "x")]) | idx[("text", "d")]


class Disturbed:
    """Stands for the result of a read that changes the query it is given."""

    def __str__(self):
        return DISTURBED


DISTURBED = "the query it is given is changed"


def given(idx, f):
    """Call f with a query; what it returns and whether the query is unchanged."""
    query = some_docs(idx)
    before = tuple(query)
    result = f(query)
    if not isinstance(result, (list, dict, tuple, BitMap)):
        result = list(result)
    if tuple(query) != before:
        return Disturbed()
    return result


def apart(result):
    """Change a result while the query it was made from is still in use."""
    kept = result.copy()
    spoil(result)
    return kept


def ids(idx, *keys):
    return [idx.lookup_feature_id(k) for k in keys]


A, B, C, D, X, Y = ("text", "a"), ("text", "b"), ("text", "c"), ("text", "d"), ("tag", "x"), ("tag", "y")

READS = {
    "feature": lambda i: i[A],
    "feature b": lambda i: i[B],
    "feature by id": lambda i: i[i.lookup_feature_id(A)],
    "unknown feature": lambda i: i[("text", "nope")],
    "unknown id": lambda i: i[12345],
    "lookup": lambda i: i.lookup_feature(i.lookup_feature_id(X)),
    "failing lookup": lambda i: i.lookup_feature(12345),
    "failing lookup id": lambda i: i.lookup_feature_id(("text", "nope")),
    "keys": lambda i: i.convert_query_to_keys(some_docs(i)),
    "failing keys": lambda i: i.convert_query_to_keys(BitMap([999])),
    "values": lambda i: list(i.iter_field_docs("text")),
    "some values": lambda i: partly(i.iter_field_docs("text"), 1),
    "intersect": lambda i: i.intersect_queries_with_field({"q": some_docs(i), "r": i[B]}, "tag"),
    "docs": lambda i: given(i, lambda q: [(n, k, d) for n, k, d in i.docs(q)]),
    "a doc": lambda i: partly(i.docs(some_docs(i)), 1),
    "windows": lambda i: given(i, lambda q: i.extract_matching_feature_windows(q, [A, Y], 1)),
    "windows by id": lambda i: given(i, lambda q: i.extract_matching_feature_windows(q, ids(i, A, X), 2, random_sample_size=2)),
    "failing windows": lambda i: given(i, lambda q: i.extract_matching_feature_windows(q, ["a"], 1)),
    "a window": lambda i: partly(i.extract_matching_feature_windows(some_docs(i), [A], 1), 1),
    "concordances": lambda i: given(i, lambda q: i.concordances(q, [A, B], 1)),
    "sample": lambda i: given(i, lambda q: i.sample_bitmap(q, 2)),
    "sample all": lambda i: given(i, lambda q: i.sample_bitmap(q, 99)),
    "sample apart": lambda i: given(i, lambda q: apart(i.sample_bitmap(q, 99))),
    "passages": lambda i: i.score_passages_dnf([[A, B], [C]], 2),
    "passages one": lambda i: i.score_passages_dnf([ids(i, A)], 1),
    "passage table": lambda i: sorted(map(repr, i.render_passages_table(i.score_passages_dnf([[A]], 1), 1))),
    "a passage": lambda i: len(partly(i.render_passages_table(i.score_passages_dnf([[A]], 1), 1, batch_size=1), 1)),
    "collocations": lambda i: i.count_collocations("text", ids(i, A), 1),
    "html": lambda i: given(i, lambda q: i.render_docs_html(q)),
    "html sample": lambda i: given(i, lambda q: i.render_docs_html(q, random_sample_size=1)),
    "table": lambda i: given(i, lambda q: i.render_docs_table(q)),
    "structured": lambda i: i.structured_doc_sample(docs_per_cluster=1),
    "structured all": lambda i: i.structured_doc_sample(docs_per_cluster=0),
    "export": lambda i: exported(i),
    "fields": lambda i: i.indexed_field_summary(),
    "positional": lambda i: i.positional_fields,
    "next id": lambda i: i.next_cluster_id(),
    "clusters": lambda i: i.cluster_ids,
    "pinned": lambda i: i.pinned_cluster_ids,
    "top": lambda i: i.top_cluster_features(top_k=2),
    "top none": lambda i: i.top_cluster_features(top_k=0),
    "cluster": lambda i: i.cluster_features(2),
    "cluster missing": lambda i: i.cluster_features(77),
    "union": lambda i: i.union_bitslice([A, A, B]),
    "union by id": lambda i: i.union_bitslice(ids(i, B, C)),
    "query": lambda i: i.cluster_query(2),
    "query 5": lambda i: i.cluster_query(5),
    "cluster docs": lambda i: i.cluster_docs(2),
    "failing cluster docs": lambda i: i.cluster_docs(77),
    "pivot": lambda i: given(i, lambda q: i.pivot_clusters_by_query(q, top_k=2)),
    "pivot one": lambda i: given(i, lambda q: i.pivot_clusters_by_query(q, cluster_ids=[5])),
    "a pivot": lambda i: partly(i.pivot_clusters_by_query(some_docs(i)), 1),
    "failing pivot": lambda i: list(i.pivot_clusters_by_query(some_docs(i), scoring="nope")),
    "graph": lambda i: (lambda g: (sorted(g.nodes(data="label")), sorted((min(a, b), max(a, b), w) for a, b, w in g.edges(data="weight"))))(
        i.create_cluster_cooccurrence_graph()
    ),
    "settings": lambda i: dict(i.settings),
}


def exported(idx):
    with workdir("export") as d:
        path = os.path.join(d, "e.csv")
        idx.export_document_sample(*idx.structured_doc_sample(docs_per_cluster=1), path)
        with open(path, newline="") as f:
            return f.read()


EDITS = {
    "cluster": lambda i: i.create_cluster_from_features(ids(i, C, Y)),
    "reindex": None,  # the corpus changes and another object indexes it
    "delete": lambda i: i.delete_clusters([2]),
    "merge": lambda i: i.merge_clusters([5, 2]),
    "pin": lambda i: i.pin_clusters([5]),
}


def jobs(tier, seed):
    deep = tier == "thorough"
    n = 8 if not deep else 32
    out = [("sequences", i, n, deep) for i in range(n)]
    out += [("edits", i, n, deep) for i in range(n)]
    out += [("own", i, n, deep) for i in range(n)]
    out += [("missing",), ("copies",), ("held", 0), ("held", 1)]
    return out


def base():
    def builder(path):
        corpus = kit.build(path, Corpus(DOCS), batch=2)
        with kit.opened(path, corpus) as idx:
            f = {v: k for k, v in kit.features_of(path).items()}
        with kit.raw(path) as c:
            kit.set_model(c, {f[A]: 2, f[X]: 2, f[B]: 5, f[C]: 5, f[("tag", "z")]: 9}, [f[A]], [9])

    return kit.template("c26", builder)


def answer(idx, name):
    """(what the read returns, frozen result)"""
    try:
        result = READS[name](idx)
    except Exception as e:
        return None, ("raises", type(e).__name__)
    return result, freeze(result)


def fresh_answers(path, corpus):
    out = {}
    for name in READS:
        with kit.opened(path, corpus) as idx:
            out[name] = answer(idx, name)[1]
    return out


def job_sequences(R, part, parts, deep):
    CTL.random = Fixed()
    corpus = Corpus(DOCS)
    with workdir() as d:
        path = kit.write_db(os.path.join(d, "i.db"), base())
        content = kit.dump(path)
        fresh = fresh_answers(path, corpus)
        for name, value in fresh.items():
            R.check(value != DISTURBED, "a read changes the query it is given", name)
            R.check("failing" in name or not (isinstance(value, tuple) and value and value[0] == "raises"), "a read fails", (name, value))
        names = list(READS)
        n = 0
        for first, second in itertools.product(names, repeat=2):
            n += 1
            if n % parts != part:
                continue
            for third in names if deep else (None,):
                R.context = {"reads": [first, second, third]}
                R.run()
                with kit.opened(path, corpus) as idx:
                    for name in (first, second) if third is None else (first, second, third):
                        result, got = answer(idx, name)
                        R.step()
                        R.equal(got, fresh[name], "an answer depends on earlier reads", name)
                        spoil(result)
                    R.check(not idx.db.in_transaction, "a read leaves a transaction open")
                R.state((first, second, third))
            R.equal(kit.dump(path), content, "reading changes the stored index")


def change(path, edit, corpus):
    with kit.opened(path, corpus) as other:
        if edit == "reindex":
            corpus.data.clear()
            corpus.data.update(NEWER)
            other.index(doc_batch_size=3)
        else:
            EDITS[edit](other)


def own(idx, edit, corpus):
    """The edit by the object that answers, perhaps a failing one."""
    if edit == "failed reindex":
        corpus.data.clear()
        corpus.data.update(NEWER)
        corpus.data["d8"] = 1
        try:
            idx.index(doc_batch_size=3, index_positions=True)
        except Exception:
            corpus.data.clear()
            corpus.data.update(DOCS)
        else:
            raise AssertionError("indexing a broken document succeeded")
    elif edit == "reindex":
        corpus.data.clear()
        corpus.data.update(NEWER)
        idx.index(doc_batch_size=3)
    else:
        EDITS[edit](idx)


def job_own(R, part, parts, deep):
    """Answers follow the edits of the same object."""
    CTL.random = Fixed()
    with workdir() as d:
        path = os.path.join(d, "i.db")
        for edit in [*EDITS, "failed reindex"]:
            corpus = Corpus(DOCS)
            kit.write_db(path, base())
            if edit in EDITS:
                change(path, edit, corpus)
            content = kit.dump(path)
            fresh = fresh_answers(path, corpus)
            firsts = list(READS)
            for first in firsts[part::parts]:
                corpus = Corpus(DOCS)
                kit.write_db(path, base())
                with kit.opened(path, corpus) as idx:
                    R.context = {"read": first, "own edit": edit}
                    result, _ = answer(idx, first)
                    own(idx, edit, corpus)
                    R.run()
                    for second in READS if deep or first == firsts[part] else [first] + firsts[len(edit) % 7 :: 7]:
                        later, got = answer(idx, second)
                        R.step()
                        R.equal(got, fresh[second], "an answer is not that of a fresh index after an edit by the same object", second)
                        spoil(later)
                    spoil(result)
                R.equal(kit.dump(path), content, "reading changes the stored index")
                R.state((first, edit))


def job_edits(R, part, parts, deep):
    """Answers follow the edits of others."""
    CTL.random = Fixed()
    with workdir() as d:
        path = os.path.join(d, "i.db")
        for edit in EDITS:
            corpus = Corpus(DOCS)
            kit.write_db(path, base())
            change(path, edit, corpus)
            after = kit.read_db(path)
            content = kit.dump(path)
            fresh = fresh_answers(path, corpus)
            firsts = list(READS)
            for first in firsts[part::parts]:
                corpus = Corpus(DOCS)
                kit.write_db(path, base())
                with kit.opened(path, corpus) as idx:
                    R.context = {"read": first, "edit": edit}
                    result, _ = answer(idx, first)
                    change(path, edit, corpus)
                    R.run()
                    for second in READS if deep or edit in ("cluster", "reindex") else firsts[len(edit) % 3 :: 3]:
                        later, got = answer(idx, second)
                        R.step()
                        R.equal(got, fresh[second], "an answer is not that of a fresh index after an edit by somebody else", second)
                        spoil(later)
                    spoil(result)
                R.equal(kit.dump(path), content, "reading changes the stored index")
                R.state((first, edit))


def job_copies(R):
    """Reopening, and sending to another process."""
    CTL.random = Fixed()
    corpus = Corpus(DOCS)
    with workdir() as d:
        path = kit.write_db(os.path.join(d, "i.db"), base())
        content = kit.dump(path)
        fresh = fresh_answers(path, corpus)
        for protocol in range(pickle.HIGHEST_PROTOCOL + 1):
            with kit.opened(path, corpus) as idx:
                sent = pickle.loads(pickle.dumps(idx, protocol))
                again = pickle.loads(pickle.dumps(sent, protocol))
                for order in (list(READS), list(READS)[::-1]):
                    for name in order:
                        for which in (idx, sent, again):
                            result, got = answer(which, name)
                            R.run()
                            R.step()
                            R.equal(got, fresh[name], "a copy answers differently", (name, protocol))
                            spoil(result)
                sent.close()
                again.close()
            R.equal(kit.dump(path), content, "reading changes the stored index")
            R.state(protocol)


class Plain:
    """The least a corpus has to be, without inheriting anything."""

    CORPUS_TYPE = "plain"

    def __init__(self, docs):
        self.all = Corpus(docs)

    def keys(self):
        return self.all.keys()

    def docs(self, doc_keys=None):
        return self.all.docs(doc_keys)

    def index(self, doc):
        return self.all.index(doc)

    def __getitem__(self, key):
        return self.docs([key])

    def __iter__(self):
        return self.docs()

    def close(self):
        pass


class Pages(Plain):
    def render_docs_html(self, doc_keys):
        return self.all.render_docs_html(doc_keys)


class Tables(Plain):
    table_fields = ["text"]

    def render_docs_table(self, doc_keys):
        return self.all.render_docs_table(doc_keys)


def needing(out):
    """Everything that needs documents: (what it needs, the call)."""

    def exported(idx):
        idx.export_document_sample(*idx.structured_doc_sample(2), out)
        with open(out) as f:
            return sorted(f.read().splitlines())

    return {
        "docs": ("docs", lambda i: list(i.docs(some_docs(i)))),
        "windows": ("docs", lambda i: list(i.extract_matching_feature_windows(some_docs(i), [A, Y], 1))),
        "concordances": ("docs", lambda i: list(i.concordances(some_docs(i), [A, B], 1))),
        "passages": ("docs", lambda i: sorted(i.render_passages_table(i.score_passages_dnf([[A]], 1), 1))),
        "pages": ("pages", lambda i: i.render_docs_html(some_docs(i))),
        "some pages": ("pages", lambda i: i.render_docs_html(some_docs(i), random_sample_size=2)),
        "tables": ("tables", lambda i: list(i.render_docs_table(some_docs(i)))),
        "some rows": ("tables", lambda i: list(i.render_docs_table(some_docs(i), random_sample_size=2))),
        "export": ("tables", exported),
        "index": ("index", lambda i: i.index(doc_batch_size=2, index_positions=True)),
    }


def job_missing(R):
    """What needs documents is refused without a corpus, or with one that lacks the ability, and works otherwise."""
    corpora = {
        "none": (None, ()),
        "thing": (object(), ()),
        "plain": (Plain(DOCS), ("docs", "index")),
        "pages": (Pages(DOCS), ("docs", "pages", "index")),
        "tables": (Tables(DOCS), ("docs", "tables", "index")),
    }
    CTL.random = Fixed()
    with workdir() as d:
        path, out = kit.write_db(os.path.join(d, "i.db"), base()), os.path.join(d, "out.csv")
        content = kit.dump(path)
        work = needing(out)
        with kit.opened(path, Corpus(DOCS)) as idx:
            full = {name: freeze(call(idx)) for name, (_, call) in work.items() if name != "index"}
        for history in itertools.product(corpora, repeat=2):
            with kit.opened(path) as idx:
                for which in history:
                    idx.corpus, able = corpora[which]
                    for name, (needs, call) in work.items():
                        R.context = {"history": history, "corpus": which, "asked": name}
                        with open(out, "w") as f:
                            f.write("kept")
                        R.run()
                        R.step()
                        R.state((history, which, name))
                        if needs in able:
                            result = call(idx)
                            if name != "index":
                                R.equal(freeze(result), full[name], "a reduced corpus gives another answer")
                        else:
                            expected = CorpusMissingError if which == "none" else UnsupportedCorpusOperation
                            try:
                                call(idx)
                            except expected:
                                pass
                            except Exception as e:
                                R.violation("a request without the corpus for it fails in another way", repr(e))
                            else:
                                R.violation("a request without the corpus for it is answered")
                            with open(out) as f:
                                R.equal(f.read(), "kept", "a refused export replaces the file")
                        R.equal(kit.dump(path), content, "a request changes the stored index")


ITERATORS = {
    "docs": lambda i: i.docs(some_docs(i)),
    "pivot": lambda i: i.pivot_clusters_by_query(some_docs(i)),
    "windows": lambda i: i.extract_matching_feature_windows(some_docs(i), [A, Y], 1),
    "concordances": lambda i: i.concordances(some_docs(i), [A, B], 1),
    "values": lambda i: i.iter_field_docs("text"),
    "passages": lambda i: i.render_passages_table(i.score_passages_dnf([[A]], 1), 1, batch_size=1),
}


def job_held(R, taken):
    """Reads while another result is still being consumed."""
    CTL.random = Fixed()
    corpus = Corpus(DOCS)
    with workdir() as d:
        path = kit.write_db(os.path.join(d, "i.db"), base())
        content = kit.dump(path)
        fresh = fresh_answers(path, corpus)
        for (outer, make), name in itertools.product(ITERATORS.items(), READS):
            R.context = {"consuming": outer, "taken": taken, "read": name}
            with kit.opened(path, corpus) as idx:
                whole = [freeze(x) for x in make(idx)]
                it = iter(make(idx))
                got = [freeze(x) for x in itertools.islice(it, taken)]
                result, inner = answer(idx, name)
                R.run()
                R.step()
                R.equal(inner, fresh[name], "an answer depends on a result that is still being read", name)
                spoil(result)
                got += [freeze(x) for x in it]
                R.equal(sorted(got, key=repr), sorted(whole, key=repr), "a read disturbs a result that is still being read")
            R.state((outer, name))
        R.equal(kit.dump(path), content, "reading changes the stored index")
