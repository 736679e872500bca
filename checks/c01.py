"""
C01 An index answers every feature lookup exactly as its corpus does.
"""

import itertools
import os

from pyroaring import BitMap

from mc import env, kit, wide
from mc.env import CTL, workdir
from mc.explore import explore
from mc.positions import stored_positions, wanted_positions
from mc.sched import Scheduler, SchedSqlHook

TECHNIQUE = (
    "exhaustive enumeration of small corpora x batch sizes x workers x positions, and of completion orders and "
    "statement interleavings of the background batches, on the real indexing code against a dictionary"
)
NOTE = (
    "All corpora of up to three documents over eight document shapes; completion orders complete, interleavings up to a "
    "preemption bound for larger corpora."
)
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all corpora of 0-3 documents over 8 shapes x batch size 1,2,10 x positions on/off; 5 documents in batches of 1 and 2 "
    "with 1-3 workers under every completion order; 3 concurrent batches under every interleaving with at most 2 preemptions; "
    "all pairs of 48 odd values, of 16 odd fields, 19 odd document keys; corpora answering in every order of up to 4 documents or missing some; absent values among words; 16 corpora of up to 70000 documents or positions",
    "thorough": "additionally all corpora of 4 documents over 8 shapes, 6 documents under every completion order, and 3 preemptions",
}
ASSUMPTIONS = ["values and fields beyond the alphabet behave alike", "documents beyond a batch boundary behave alike"]

SHAPES = [
    {},
    {"text": []},
    {"text": ["a"]},
    {"text": ["a", "b", "a"]},
    {"text": ["b"], "tag": {"a"}},
    {"text": ["c", "a"], "tag": {1, "1", 2.5}},
    {"tag": set(), "text": ["B", "b"]},
    {"tag": {"a", "x'\"\n"}, "é": ["a", "a"]},
]


def corpus(shapes, int_keys=False):
    # keys in an order different from sorted
    keys = [7, 3, 11, 5, 2, 13] if int_keys else ["k2", "k0", "k9", "k1", "k5", "k3"]
    return {k: SHAPES[s] for k, s in zip(keys, shapes)}


def jobs(tier, seed):
    deep = tier == "thorough"
    out = [("small", n, i, parts) for n, parts in ((0, 1), (1, 1), (2, 1), (3, 14)) for i in range(parts)]
    if deep:
        out += [("small", 4, i, 64) for i in range(64)]
    out += [("orders", i, deep, part, parts) for i, parts in enumerate((1, 4, 1, 1, 12, 1)) for part in range(parts)]
    out += [("threads", i, part, 8, 3 if deep else 2) for i in range(2) for part in range(8)]
    out += [("unordered", i, 4, deep) for i in range(4)]
    out += [("nothing", i, 2) for i in range(2)]
    out += [("reopen",), ("values",), ("keys",), ("sizes",)]
    out += [("wide", i) for i in range(len(WIDE))]
    return out


def unknown(R, lookup, what):
    try:
        R.violation("an unknown feature is found", {"feature": repr(what), "got": repr(lookup(what))})
    except KeyError:
        pass


def compare(R, idx, docs, positions):
    """Every lookup of the index against the documents."""
    ref = kit.Ref(docs)
    everything = BitMap()
    by_field = {}
    for field, value in ref.features:
        by_field.setdefault(field, []).append(value)
    got_fields = {row[0]: row[1:] for row in idx.indexed_field_summary()}
    R.equal(got_fields, ref.field_summary(positions), "the field summary differs from the documents")
    known = {}
    for field in sorted(set(by_field) | {"text", "tag", "none"}):
        got = [v for v, n, d in idx.iter_field_docs(field)]
        want = sorted(by_field.get(field, []), key=kit.sqlite_order)
        R.equal(
            [(type(v), v) for v in got], [(type(v), v) for v in want], "the values of a field differ from the documents"
        )
    for feature in {**ref.features, ("text", "absent"): 0, ("none", "a"): 0, ("tag", 3): 0}:
        docs_found = idx[feature]
        R.step()
        keys = idx.convert_query_to_keys(docs_found)
        R.equal(set(keys), ref.features.get(feature, set()), "a lookup returns other documents", repr(feature))
        R.check(len(keys) == len(docs_found), "documents without their own key")
        if feature in ref.features:
            fid = idx.lookup_feature_id(feature)
            R.equal(idx.lookup_feature(fid), feature, "the feature id stands for another feature")
            R.equal(idx[fid], docs_found, "lookups by id and by value differ", repr(feature))
            R.check(fid not in known, "two features share an id")
            known[fid] = feature
        else:
            unknown(R, idx.lookup_feature_id, feature)
        for key, doc_id in keys.items():
            everything.add(doc_id)
    for fid in (10**6, max(known, default=0) + 1, 0, -1):
        R.equal(idx[fid], BitMap(), "an unknown feature id matches documents")
        unknown(R, idx.lookup_feature, fid)
    # ids and keys are one to one, also for documents without features
    ids = [d for d in range(len(docs) + 2)]
    mapping = kit.doc_keys(idx)
    R.equal(sorted(mapping.values(), key=repr), sorted(docs, key=repr), "document keys differ from the corpus")
    keys = idx.convert_query_to_keys(BitMap(mapping))
    R.equal({v: k for k, v in keys.items()}, mapping, "document ids do not map one to one")
    found = list(idx.docs(BitMap(mapping)))
    R.equal(
        sorted((i, k, doc["key"]) for i, k, doc in found),
        sorted((i, k, k) for i, k in mapping.items()),
        "retrieved documents are not the ones asked for",
    )
    if positions:
        R.equal(stored_positions(idx), wanted_positions(docs), "positions differ from the documents")
    else:
        R.check(not idx.positional_fields, "positions recorded without being asked for")


def job_small(R, n, part, parts):
    combos = list(itertools.product(range(len(SHAPES)), repeat=n))[part::parts]
    with workdir() as d:
        empty = kit.template("empty", lambda p: kit.opened(p).__enter__().close())
        path = os.path.join(d, "i.db")
        for shapes in combos:
            docs = corpus(shapes, sum(shapes) % 2 == 1)
            for batch, positions in (
                [(1, True), (2, False), (2, True), (10, True), (10, False), (1, False)]
                if n != 4
                else [(2, True), (3, True), (1, False)]
            ):
                if n == 3 and batch == 10 and not positions:
                    continue
                R.context = {"docs": repr(docs), "batch": batch, "positions": positions}
                kit.write_db(path, empty)
                with kit.opened(path, kit.MemCorpus(docs), workers=1 + len(shapes) % 2) as idx:
                    idx.index(doc_batch_size=batch, index_positions=positions)
                    R.run()
                    R.state((shapes, batch, positions))
                    compare(R, idx, docs, positions)
                R.outcome(kit.Ref(docs).features)
        if combos:
            R.sample({"docs": repr(corpus(combos[0]))})


LARGER = [(3, 5, 7, 4, 2), (0, 3, 1, 6, 5), (7, 7, 2, 0, 3), (4, 2, 5, 3, 6)]


# Values and fields that are easily mistaken for nothing or for each other.
ODD_VALUES = [
    0, 1, -1, 2**62, -(2**63), 0.5, 1e300, float("inf"), "", " ", "  ", "0", "1", "1.0", "0.5", "-1", "a", "A", "a ", " a", "Á", "á",
    "a\u0301", "\u00e1", "\u212b", "\u00c5", "a\0b", "a\0c", "\0", "\n", "\r\n", "'", '"', "''", "%", "_", "?", "?1", ":a", "null", "NULL",
    "None", "true", "\U0001f600", "\ufffd", "x" * 5000, "x" * 5000 + "y", b"", b"a", b"A", b"\0", b"a\0b", "select 1",
]
ODD_FIELDS = ["", " ", "text", "Text", "TEXT", "text ", "0", "1", "field", "value", "a'b", 'a"b', "é", "e\u0301", "f\0g", "x" * 300]


def job_values(R):
    """Values and fields that could be dropped or mixed up: each alone, all pairs, and all together."""
    pairs = list(itertools.combinations(range(len(ODD_VALUES)), 2))
    corpora = [{i: {"f": [v]} for i, v in enumerate(ODD_VALUES)}, {0: {"f": set(ODD_VALUES)}, 1: {"f": ["a"]}}]
    corpora += [{i: {"f": [ODD_VALUES[a], ODD_VALUES[b]], "g": {ODD_VALUES[b]}} for i, (a, b) in enumerate(pairs)}]
    corpora += [{i: {f: ["a"], g: {"a", "b"}} for i, (f, g) in enumerate(itertools.permutations(ODD_FIELDS, 2))}]
    with workdir() as d:
        empty = kit.template("empty", lambda p: kit.opened(p).__enter__().close())
        path = os.path.join(d, "i.db")
        for n, docs in enumerate(corpora):
            for batch, positions in ((1000, False), (1000, True), (7, True)):
                if batch == 7 and n == 2:
                    batch = 100
                R.context = {"corpus": n, "batch": batch, "positions": positions}
                kit.write_db(path, empty)
                with kit.opened(path, kit.MemCorpus(docs)) as idx:
                    idx.index(doc_batch_size=batch, index_positions=positions)
                    R.run()
                    R.state(R.context)
                    compare(R, idx, docs, positions)
            R.outcome(n)
            R.case(n)
        R.sample({"values": repr(ODD_VALUES)[:300]})


ODD_KEYS = [0, -1, 5, 2**40, "", " ", "0", "5", "a", "A", "a ", "é", "x'y", "a\0b", "\n", 0.5, b"a", b"", "z" * 1000]


def job_keys(R):
    """Document keys of every kind, in several orders."""
    with workdir() as d:
        empty = kit.template("empty", lambda p: kit.opened(p).__enter__().close())
        path = os.path.join(d, "i.db")
        orders = [ODD_KEYS[i:] + ODD_KEYS[:i] for i in range(len(ODD_KEYS))] + [ODD_KEYS[::-1]]
        for order in orders:
            docs = {k: {"f": [str(i % 3), repr(k)]} for i, k in enumerate(order)}
            for batch in (1, 4, 100):
                R.context = {"keys": repr(order)[:300], "batch": batch}
                kit.write_db(path, empty)
                with kit.opened(path, kit.MemCorpus(docs)) as idx:
                    idx.index(doc_batch_size=batch, index_positions=True)
                    R.run()
                    R.state((repr(order), batch))
                    check_keys(R, idx, docs)
            R.outcome(repr(order))


def check_keys(R, idx, docs):
    """Lookups through keys alone (keys of several types can't be sorted for retrieval)."""
    ref = kit.Ref(docs)
    mapping = kit.doc_keys(idx)
    R.equal([mapping[i] for i in sorted(mapping)], list(docs), "document keys differ from the corpus")
    for feature, want in ref.features.items():
        found = idx.convert_query_to_keys(idx[feature])
        R.equal(set(found), want, "a lookup returns other documents", repr(feature))
        for key, doc_id in found.items():
            [(i, k, doc)] = list(idx.docs(BitMap([doc_id])))
            R.equal((i, k, doc["key"]), (doc_id, key, key), "retrieved documents are not the ones asked for")


NOTHING = [{"tag": {None}}, {"tag": {None, "a"}}, {"tag": {"a", 0}}, {"text": [None]}, {"text": ["a", None, "b"]}, {"text": [None, None, "a"]}, {"text": ["a"]}]


def job_nothing(R, part, parts):
    """None among the values of a document is no value; it has no place among positions."""
    with workdir() as d:
        empty = kit.template("empty", lambda p: kit.opened(p).__enter__().close())
        path = os.path.join(d, "i.db")
        for shapes in list(itertools.product(range(len(NOTHING)), repeat=3))[part::parts]:
            docs = {k: NOTHING[s] for k, s in zip(("k2", "k0", "k9"), shapes)}
            for batch, positions in ((1, False), (2, False), (9, False), (2, True)):
                if positions and not all(s < 3 or s == 6 for s in shapes):
                    continue
                R.context = {"docs": repr(docs), "batch": batch, "positions": positions}
                kit.write_db(path, empty)
                with kit.opened(path, kit.MemCorpus(docs)) as idx:
                    idx.index(doc_batch_size=batch, index_positions=positions)
                    R.run()
                    R.state((shapes, batch, positions))
                    compare(R, idx, docs, positions)


class Unordered(kit.MemCorpus):
    """Returns the documents it is asked for in an order of its own."""

    def __init__(self, docs, order, missing=None):
        super().__init__(docs)
        self.order, self.missing = order, missing

    def docs(self, doc_keys=None):
        asked = list(self.keys() if doc_keys is None else doc_keys)
        found = list(super().docs([asked[i] for i in self.order if i < len(asked)] + asked[len(self.order) :]))
        return iter([pair for pair in found if pair[0] != self.missing])


def job_unordered(R, part, parts, deep):
    """Corpora that return documents in an order of their own, or not all of them."""
    n = 5 if deep else 4
    with workdir() as d:
        empty = kit.template("empty", lambda p: kit.opened(p).__enter__().close())
        path = os.path.join(d, "i.db")
        for order in list(itertools.permutations(range(n)))[part::parts]:
            for shapes, batch, positions in itertools.product(LARGER + [(3, 3, 2, 4, 1)], (1, 3, n, 9), (True, False)):
                docs = corpus(shapes)
                R.context = {"docs": repr(docs), "order": order, "batch": batch, "positions": positions}
                kit.write_db(path, empty)
                with kit.opened(path, Unordered(docs, order)) as idx:
                    idx.index(doc_batch_size=batch, index_positions=positions)
                    R.run()
                    R.state((order, shapes, batch, positions))
                    compare(R, idx, docs, positions)
                # A document that is not there any more must not give its place to another one.
                before = kit.dump(path)
                for missing in docs:
                    R.context = {"docs": repr(docs), "order": order, "batch": batch, "positions": positions, "missing": missing}
                    with kit.opened(path, Unordered(docs, order, missing)) as idx:
                        try:
                            idx.index(doc_batch_size=batch, index_positions=positions)
                        except Exception:
                            R.equal(kit.dump(path), before, "a failing run changes the index")
                        else:
                            ref = kit.Ref({k: v for k, v in docs.items() if k != missing})
                            for feature in {**kit.Ref(docs).features}:
                                R.equal(
                                    set(idx.convert_query_to_keys(idx[feature])), ref.features.get(feature, set()), "a lookup returns other documents", repr(feature)
                                )
                            before = kit.dump(path)
                    R.run()
                    R.step()


def job_sizes(R):
    """Numbers of documents and positions around the default batch size and the sizes at which bitmaps change shape."""
    with workdir() as d:
        empty = kit.template("empty", lambda p: kit.opened(p).__enter__().close())
        path = os.path.join(d, "i.db")
        for n, each, kwargs in (
            (999, 1, {}), (1000, 1, {}), (1001, 1, {}), (2000, 2, {"index_positions": True}),
            (3, 30000, {"index_positions": True, "doc_batch_size": 10}),
            (4, 65536, {"index_positions": True, "doc_batch_size": 2}),
            (70000, 1, {"doc_batch_size": 30000, "index_positions": True}),
        ):
            docs = {k: {"f": [("a", "b", "c")[(k + p * p) % 3] for p in range(each)], "g": {k // 5000}} for k in range(n)}
            R.context = {"documents": n, "tokens each": each, **kwargs}
            kit.write_db(path, empty)
            with kit.opened(path, kit.MemCorpus(docs)) as idx:
                idx.index(**kwargs)
                R.run()
                R.state(R.context)
                compare(R, idx, docs, kwargs.get("index_positions", False))
            R.outcome(n)
            R.sample(R.context)


WIDE = [
    # documents, batch size, positions, workers, which pending batch completes next
    (2300, 1000, True, None, 0),
    (2300, 37, False, 3, 1),
    (2300, 41, False, 3, 0),
    (2300, 100, False, 8, 2),
    (5200, 5000, True, 2, 0),
    (1200, 1, False, 1, 1),
    (1400, 233, True, 3, 1),
    (60, 1, True, 2, 2),
    (1200, 3, False, 40, 2),
]


def job_wide(R, case):
    """Thousands of documents and features in one to hundreds of batches."""
    n, batch, positions, workers, order = WIDE[case]
    docs = {
        k: {f: v for f, v in doc.items() if f != "own" or i % 3 == 0} for i, (k, doc) in enumerate(wide.docs(n=n, words=200).items())
    }
    with workdir() as d:
        path = os.path.join(d, "i.db")
        R.context = {"wide": case}
        R.run()
        R.state(case)
        calls = itertools.count()
        with kit.opened(path, kit.MemCorpus(docs), workers=workers) as idx:
            CTL.order = lambda n, tag: 0 if tag == "also-done" and order < 2 else (0, n - 1, next(calls) * 7 % n)[order]
            try:
                idx.index(doc_batch_size=batch, index_positions=positions)
            finally:
                CTL.order = None
            compare(R, idx, docs, positions)


def job_orders(R, part, deep, shard, shards):
    """Every completion order of the batches, with different numbers of workers."""
    shapes = LARGER[part % 4] + ((6,) if deep else ())
    batch, workers = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (2, None)][part]
    docs = corpus(shapes)
    with workdir() as d:
        empty = kit.template("empty", lambda p: kit.opened(p).__enter__().close())
        path = os.path.join(d, "i.db")

        def run(ch):
            kit.write_db(path, empty)
            R.context = {"docs": repr(docs), "batch": batch, "workers": workers, "order": ch.choices}
            with kit.opened(path, kit.MemCorpus(docs), workers=2) as idx:
                CTL.order = lambda n, tag: ch.choose(n, tag)
                try:
                    idx.index(doc_batch_size=batch, workers=workers, index_positions=True)
                finally:
                    CTL.order = None
                R.run()
                R.context["order"] = ch.choices
                R.state((part, ch.choices))
                R.outcome(kit.dump(path)["inverted_index"])
                compare(R, idx, docs, True)

        explore(run, bound=None, shard=(shard, shards))
        R.sample({"docs": repr(docs), "batch": batch, "workers": workers})


def job_threads(R, part, shard, shards, bound):
    """The batches as concurrent threads that interleave at their database statements."""
    shapes = LARGER[part][:3]
    docs = corpus(shapes)
    with workdir() as d:
        empty = kit.template("empty", lambda p: kit.opened(p).__enter__().close())
        path = os.path.join(d, "i.db")

        def run(ch):
            kit.write_db(path, empty)
            R.context = {"docs": repr(docs), "schedule": None}
            with kit.opened(path, kit.MemCorpus(docs), workers=3) as idx:
                sched = Scheduler(ch, threads_for_tasks=True)
                CTL.sql_hook = SchedSqlHook(sched, ch, give_up=False)
                failed = []

                def main():
                    try:
                        idx.index(doc_batch_size=1, workers=3, index_positions=True)
                    except Exception as e:
                        failed.append(repr(e))

                sched.spawn(main, "main")
                try:
                    sched.run()
                finally:
                    CTL.sql_hook = None
                R.run()
                R.step(sched.points)
                R.context["schedule"] = ch.choices
                if failed:
                    R.violation("indexing fails when batches overlap", failed)
                    return
                R.state((part, ch.choices))
                R.outcome(kit.dump(path)["inverted_index"])
                compare(R, idx, docs, True)

        explore(run, bound=bound, shard=(shard, shards))


def job_reopen(R):
    """A new object on the same files answers alike, with the default pool and batch size."""
    with workdir() as d:
        for n, shapes in enumerate(LARGER):
            docs = corpus(shapes)
            path = os.path.join(d, f"r{n}.db")
            from hyperreal.index import Index

            idx = Index(path, corpus=kit.MemCorpus(docs))
            idx.index()
            idx.close()
            R.run()
            R.step()
            R.context = {"docs": repr(docs)}
            with kit.opened(path, kit.MemCorpus(docs)) as idx:
                compare(R, idx, docs, False)
