"""
C19 Structured samples and their export are faithful to the model.
"""

import csv
import itertools
import os

from pyroaring import BitMap

from mc import env, kit, wide
from mc.env import CTL, workdir
from mc.explore import Chooser, RandomChoices, explore

from hyperreal.corpus import PlainTextSqliteCorpus

TECHNIQUE = "exhaustive enumeration of model states, sample sizes, selections and all random outcomes on the real sampling, and reading back exports of adversarial texts"
NOTE = (
    "Every model of the stated block; complete trees of random outcomes, whose results must be exactly the possible samples. "
    "Clusters with equally many documents may be visited in any order."
)
LEVEL = "model_checking"
BOUNDS = {
    "quick": "models: all assignments of 5 features to 3 clusters or none x sizes 0..3 and 9 x 5 selections; choices: complete random outcomes of 6 models x 4 sizes x 3 selections; "
    "wide: 40 clusters of 2300 documents, 7 sizes; export: all pairs of 17 texts in 3 models, samples of 2 sizes, tables in another order than asked for, through the library and the command line",
    "thorough": "models: all assignments of 6 features; all 8 selections; export: all triples of texts",
}
ASSUMPTIONS = ["random outcomes matter only through the bounded integers drawn"]

# document sets of different sizes, nested, crossing and disjoint
DOCS = {
    "a": {"w": ["p", "q"], "t": {1}},
    "b": {"w": ["p", "r", "s"]},
    "c": {"w": ["p", "q"], "t": {1}},
    "d": {"w": ["r", "u"]},
    "e": {"w": ["u", "p"]},
    "f": {"w": ["s"], "t": {1}},
    "g": {"w": []},
}


def jobs(tier, seed):
    deep = tier == "thorough"
    n = 8 if not deep else 48
    out = [("models", i, n, deep) for i in range(n)]
    out += [("choices", i, deep) for i in range(len(LAYOUTS))]
    m = 6 if not deep else 32
    out += [("export", i, m, deep) for i in range(m)]
    out.append(("wide",))
    out += [("command", i, 2) for i in range(2)]
    return out


def fixture(d):
    path = kit.write_db(os.path.join(d, "i.db"), kit.template("c19", lambda p: kit.build(p, DOCS)))
    with kit.raw(path) as c:
        sets = {f: set(kit._bm(b)) for f, b in c.execute("select feature_id, doc_ids from inverted_index")}
    return path, sets


def clusters_of(assignment, sets):
    out = {}
    for f, k in assignment.items():
        out.setdefault(k, set()).update(sets[f])
    return out


def orders(clusters):
    """Every order from fewest to most documents."""
    by_size = {}
    for k, docs in clusters.items():
        by_size.setdefault(len(docs), []).append(k)
    for groups in itertools.product(*(itertools.permutations(by_size[n]) for n in sorted(by_size))):
        yield [k for g in groups for k in g]


def check_sample(R, clusters, chosen, k, got, what=None):
    samples, memberships = got
    samples = {c: set(v) for c, v in samples.items() if v}
    R.check(set(samples) <= chosen, "a cluster that was not asked for was sampled", what)
    everything = [x for v in samples.values() for x in v]
    R.check(len(everything) == len(set(everything)), "a document was sampled twice", samples)
    for c, v in samples.items():
        R.check(v <= clusters[c], "a sampled document is not in its cluster", {"cluster": c, "sample": sorted(v)})

    def fits(order):
        seen = set()
        for c in order:
            if c not in chosen:
                continue
            left = clusters[c] - seen
            want = len(left) if k == 0 else min(k, len(left))
            if len(samples.get(c, ())) != want:
                return False
            seen |= samples.get(c, set())
        return True

    R.check(any(map(fits, orders(clusters))), "the clusters are not sampled as requested, from fewest to most documents", samples)
    R.equal(
        {c: set(v) for c, v in memberships.items() if v},
        {c: v for c, docs in clusters.items() if (v := docs & set(everything))},
        "wrong clusters reported for the sampled documents",
        what,
    )


def selections(deep):
    out = [None, (), (0,), (2, 7), (7, 0), (2,), (7,), (0, 2), (0, 2, 7), (99,), (7, 99)]
    return out if deep else out[:5] + out[-1:]


def job_models(R, part, parts, deep):
    with workdir() as d:
        path, sets = fixture(d)
        fs = sorted(sets)[: 6 if deep else 5]
        with kit.opened(path) as idx:
            for i, a in enumerate(kit.assignments(fs, (0, 2, 7))):
                if i % parts != part or not a:
                    continue
                with kit.raw(path) as c:
                    kit.set_model(c, a)
                clusters = clusters_of(a, sets)
                for k in (0, 1, 2, 3, 9):
                    for selection in selections(deep):
                        R.context = {"model": a, "size": k, "clusters": selection}
                        R.run()
                        R.step()
                        R.state((a, k, selection))
                        CTL.random = RandomChoices(Chooser())
                        try:
                            got = idx.structured_doc_sample(k, selection and list(selection))
                        finally:
                            CTL.random = None
                        check_sample(R, clusters, set(selection) if selection else set(clusters), k, got)
                        R.outcome(sorted((c, tuple(v)) for c, v in got[0].items()))
        R.sample({"models": i + 1})


# indices of features: clusters with different numbers of documents
LAYOUTS = [
    {0: 1},
    {0: 1, 1: 2},
    {0: 3, 1: 1, 2: 1, 4: 2},
    {0: 0, 1: 0, 2: 2, 3: 3, 4: 4},
    {0: 5, 2: 4, 3: 4, 5: 4, 4: 1},
    {1: 9, 5: 9, 0: 2},
]


def possible(clusters, chosen, k):
    """All possible samples, as a set; clusters differ in size or all ties are tried."""
    out = set()

    def go(order, i, seen, acc):
        if i == len(order):
            out.add(frozenset((c, v) for c, v in acc if v))
            return
        left = sorted(clusters[order[i]] - seen)
        n = len(left) if k == 0 else min(k, len(left))
        for v in itertools.combinations(left, n):
            go(order, i + 1, seen | set(v), acc + [(order[i], v)])

    for order in orders(clusters):
        out.clear()
        go([c for c in order if c in chosen], 0, set(), [])
        yield set(out)


def job_choices(R, case, deep):
    with workdir() as d:
        path, sets = fixture(d)
        fs = sorted(sets)
        a = {fs[i]: k for i, k in LAYOUTS[case].items()}
        clusters = clusters_of(a, sets)
        with kit.opened(path) as idx:
            with kit.raw(path) as c:
                kit.set_model(c, a)
            ids = sorted(clusters)
            for k in (0, 1, 2, 4) if not deep else (0, 1, 2, 3, 4, 5):
                for selection in (None, ids[:1], ids[1:] or ids):
                    found = set()

                    def once(ch):
                        R.context = {"model": a, "size": k, "clusters": selection, "choices": ch.prefix}
                        R.run()
                        R.step()
                        R.state((case, k, selection, ch.choices))
                        CTL.random = RandomChoices(ch)
                        try:
                            got = idx.structured_doc_sample(k, selection)
                        finally:
                            CTL.random = None
                        check_sample(R, clusters, set(selection or ids), k, got)
                        found.add(frozenset((c, tuple(sorted(v))) for c, v in got[0].items() if v))

                    n, capped = explore(once, cap=20000)
                    if capped:
                        R.capped = True
                    R.note("random outcomes", n)
                    R.outcome(sorted(map(sorted, found)))
                    R.context = {"model": a, "size": k, "clusters": selection}
                    if not capped:
                        R.check(
                            any(found == p for p in possible(clusters, set(selection or ids), k)),
                            "the random outcomes do not give exactly the possible samples",
                            {"found": len(found)},
                        )


# ----------------------------------------------------------------- export ----
TEXTS = [
    "plain",
    "",
    " leading and trailing ",
    'a "quoted" text',
    '"',
    '""',
    "comma, separated,",
    "line\nbreak",
    "windows\r\nbreak",
    "old\rbreak",
    "\n",
    "\r\n\"\r\n,\n",
    "semicolon;\ttab",
    "é ☃ 😀 \u2028 \ufeff",
    "=1+1",
    "1",
    "doc_key\\",
]


class TextCorpus(kit.MemCorpus):
    table_fields = ["text", "other"]

    order = None

    def render_docs_table(self, doc_keys):
        doc_keys = list(doc_keys)
        if self.order is not None:
            # an order of its own
            doc_keys = [doc_keys[i] for i in self.order if i < len(doc_keys)]
        return [(k, {"text": self.data[k]["raw"], "other": f"<{k}>", "unknown": "x"}) for k in doc_keys]

    def index(self, doc):
        return {"w": doc["features"]["w"]}


def check_export(R, path, idx_path, samples, memberships, fields, want):
    with open(path, encoding="utf-8", newline="") as f:
        rows = list(csv.reader(f))
    header = rows[0]
    R.equal(len(header), len(set(header)), "a column is there twice")
    expected = {"doc_key", "sampled_cluster", *fields, *(f"cluster_{c}" for c in memberships)}
    R.equal(set(header), expected, "wrong columns in the export")
    keys = kit.doc_keys(idx_path)
    where = {x: c for c, v in samples.items() for x in v}
    got = []
    for row in rows[1:]:
        R.equal(len(row), len(header), "a row has another number of cells than the header")
        row = dict(zip(header, row))
        got.append(
            (
                row["doc_key"],
                row["sampled_cluster"],
                tuple(row[f] for f in fields),
                tuple(c for c in sorted(memberships) if row[f"cluster_{c}"].strip() not in ("", "0")),
            )
        )
    reference = [
        (str(keys[x]), str(c), want(keys[x]), tuple(m for m in sorted(memberships) if x in memberships[m])) for x, c in where.items()
    ]
    R.equal(sorted(got), sorted(reference), "the exported rows are not the sampled documents with their text and clusters")
    R.outcome(sorted(got))


def job_export(R, part, parts, deep):
    work = list(itertools.product(range(len(TEXTS)), repeat=3 if deep else 2))
    with workdir() as d:
        path, out = os.path.join(d, "i.db"), os.path.join(d, "o.csv")
        for i, case in enumerate(work):
            if i % parts != part:
                continue
            docs = {[0, "", "key 2"][j]: {"raw": TEXTS[t], "w": {f"f{j}", "all" if j != 1 else "rest"}} for j, t in enumerate(case)}
            docs["odd, \"key\"\n"] = {"raw": "more", "w": {"rest", "f1"}}
            corpus = TextCorpus(docs)
            if i < parts or i % 9 == 0:
                data = None
            if data is None:
                with kit.opened(path, corpus) as idx:
                    idx.index()
                kit.checkpoint(path)
                data = kit.read_db(path)
                fs = sorted(kit.features_of(path))
            for layout in ({0: 0, 1: 0, 2: 2}, {i: i for i in range(4)}, {0: 12, 2: 12, 1: 3}):
                with kit.raw(path) as c:
                    kit.set_model(c, {fs[i % len(fs)]: k for i, k in layout.items()})
                with kit.opened(path, corpus) as idx:
                    for k, selection in ((0, None), (1, None), (2, [max(layout.values())])):
                        R.context = {"texts": [TEXTS[t] for t in case], "model": layout, "size": k, "clusters": selection}
                        R.run()
                        R.step()
                        R.state((case, layout, k))
                        CTL.random = RandomChoices(Chooser())
                        try:
                            got = idx.structured_doc_sample(k, selection)
                        finally:
                            CTL.random = None
                        samples = {c: list(v) for c, v in got[0].items()}
                        memberships = {c: set(v) for c, v in got[1].items()}
                        for corpus.order in (None, *(itertools.permutations(range(4)) if i % 48 == 0 else ())):
                            R.context["order"] = corpus.order
                            idx.export_document_sample(*got, out)
                            check_export(
                                R, out, path, samples, memberships, ["text", "other"], lambda key: (docs[key]["raw"], f"<{key}>")
                            )
                        corpus.order = None


def job_command(R, part, parts):
    """The same through the command line, with a plain text corpus."""
    from click.testing import CliRunner

    from hyperreal import cli

    texts = [t for t in TEXTS for _ in range(2)]
    with workdir() as d:
        corpus_db, path, out = (os.path.join(d, n) for n in ("c.db", "i.db", "o.csv"))
        corpus = PlainTextSqliteCorpus(corpus_db)
        corpus.replace_docs(texts)
        with kit.opened(path, corpus) as idx:
            idx.index()
        kit.checkpoint(path)
        fs = sorted(kit.features_of(path))
        sets = {}
        with kit.raw(path) as c:
            sets = {f: set(kit._bm(b)) for f, b in c.execute("select feature_id, doc_ids from inverted_index")}
        stored = {k: doc["text"] for k, doc in corpus.docs()}
        for i, n in enumerate((1, 2, 3, 5)):
            a = {f: j % n for j, f in enumerate(fs)}
            with kit.raw(path) as c:
                kit.set_model(c, a)
            clusters = clusters_of(a, sets)
            for k in (0, 1, 2, 3, 50):
                if (i + k) % parts != part:
                    continue
                R.context = {"clusters": n, "size": k, "command": "sample"}
                R.run()
                R.step()
                R.state(("command", n, k))
                result = CliRunner().invoke(
                    cli.cli, ["plaintext-corpus", "sample", corpus_db, path, out, "--docs-per-cluster", str(k)]
                )
                if not R.check(result.exit_code == 0, "the command fails", repr(result.exception)):
                    continue
                with open(out, encoding="utf-8", newline="") as f:
                    rows = list(csv.DictReader(f))
                ids = {key: x for x, key in kit.doc_keys(path).items()}
                samples = {}
                for row in rows:
                    samples.setdefault(int(row["sampled_cluster"]), set()).add(ids[int(row["doc_key"])])
                everything = set().union(*samples.values())
                memberships = {c: v for c, docs in clusters.items() if (v := docs & everything)}
                check_sample(R, clusters, set(clusters), k, (samples, memberships))
                check_export(R, out, path, samples, memberships, ["text"], lambda key: (stored[key],))
        corpus.close()


class WideCorpus(kit.MemCorpus):
    table_fields = ["text", "other"]

    def render_docs_table(self, doc_keys):
        return [(k, {"text": " ".join(self.data[k]["text"]), "other": k * 2}) for k in doc_keys]


def job_wide(R):
    """Thousands of documents, clusters much larger and much smaller than the default sample."""
    docs = wide.docs()
    with workdir() as d:
        path, out = kit.write_db(os.path.join(d, "i.db"), wide.base()), os.path.join(d, "o.csv")
        corpus = WideCorpus(docs)
        with kit.raw(path) as c:
            sets = {f: set(kit._bm(b)) for f, b in c.execute("select feature_id, doc_ids from inverted_index")}
            model = wide.model(sets, [900, 300, 200, *range(2, 50)])
            # one order of clusters only: no two with equally many documents
            seen, kept = set(), set()
            for k, v in clusters_of(model, sets).items():
                if len(v) not in seen:
                    seen.add(len(v))
                    kept.add(k)
            model = {f: k for f, k in model.items() if k in kept}
            clusters = clusters_of(model, sets)
            kit.set_model(c, model)
        R.note("clusters", len(clusters))
        with kit.opened(path, corpus) as idx:
            for kwargs in (
                {}, {"docs_per_cluster": 0}, {"docs_per_cluster": 1}, {"docs_per_cluster": 20}, {"docs_per_cluster": 500}, {"docs_per_cluster": 3000},
                {"docs_per_cluster": 7, "cluster_ids": sorted(clusters)[1:15]},
            ):
                R.context = {"wide": kwargs}
                R.run()
                R.step()
                R.state(sorted(kwargs.items(), key=repr))
                got = idx.structured_doc_sample(**kwargs)
                check_sample(R, clusters, set(kwargs.get("cluster_ids", clusters)), kwargs.get("docs_per_cluster", 100), got)
                idx.export_document_sample(*got, out)
                check_export(
                    R, out, path, {c: list(v) for c, v in got[0].items()}, {c: set(v) for c, v in got[1].items()}, ["text", "other"],
                    lambda key: (" ".join(docs[key]["text"]), key * 2),
                )
