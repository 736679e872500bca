"""
C25 Reports about the model agree with the model.
"""

import csv
import io
import itertools
import os

import networkx as nx
from click.testing import CliRunner
from pyroaring import BitMap

from mc import kit, web
from mc.env import CTL, MCPool, workdir
from mc.explore import explore

from hyperreal import cli, server

TECHNIQUE = "exhaustive enumeration of clusterings, cut-offs, fields, queries and completion orders of background work on the real reports and exports, against the stored index read on its own"
NOTE = (
    "Reports and exported files are compared entry by entry with the feature and cluster tables; the order of equal counts is left open."
)
LEVEL = "model_checking"
BOUNDS = {
    "quick": "every assignment of 6 features (text, numbers, 0, the empty text, separators in values) to up to 3 clusters or none; cut-offs 0,1,2,3,all; the graph with all completion "
    "orders up to 2 departures; exports of every 11th assignment; 5 corpora x every field x all queries over 5 documents; 6 models with up to 1300 features in a cluster or 130 clusters",
    "thorough": "exports of all these assignments, unbounded completion orders",
}
ASSUMPTIONS = []

DOCS = {
    "d1": {"t": ["a", 'b,"c"\n', "ü"], "n": {0, 2.5}, "x": {"<&>"}},
    "d2": {"t": ["a"], "n": {0}, "x": {"<&>", "lone"}},
    "d3": {"t": ['b,"c"\n', "a"], "n": {-7}, "x": set()},
    "d4": {"t": [], "n": {2.5}, "x": {"<&>"}},
    "d5": {"t": ["", "z"], "n": {10}, "x": {"last"}},
    "d6": {},
}
# the features that get clusters
CHOSEN = [("t", "a"), ("t", 'b,"c"\n'), ("n", 0), ("n", 2.5), ("x", "<&>"), ("t", "")]
IDS = [0, 8, 21]


def jobs(tier, seed):
    deep = tier == "thorough"
    n = 16 if not deep else 48
    out = [("listings", i, n, deep) for i in range(n)]
    out += [("orders", w, i, deep) for w in (1, 2, 3) for i in range(3)]
    out += [("exports", i, n, deep) for i in range(n)]
    out += [("large", sizes) for sizes in ((1, 11, 70), (30, 9, 10, 12, 21), (100,), (3,) * 30, (1300, 260, 120, 40), (4,) * 130)]
    out += [("fields", i) for i in range(len(CORPORA))]
    return out


def base():
    return kit.template("c25", lambda p: kit.build(p, DOCS, batch=4))


class World:
    """The stored index, read without hyperreal."""

    def __init__(self, path):
        with kit.raw(path) as c:
            rows = c.execute("select feature_id, field, value, docs_count, doc_ids from inverted_index").fetchall()
        self.features = {f: (field, value, n, set(BitMap.deserialize(b))) for f, field, value, n, b in rows}
        self.ids = {(field, value): f for f, (field, value, _, _) in self.features.items()}
        self.clusters = {}

    def set(self, path, assignment):
        with kit.raw(path) as c:
            kit.set_model(c, {self.ids[k]: v for k, v in assignment.items()})
        self.clusters = {}
        for k, v in assignment.items():
            self.clusters.setdefault(v, set()).add(self.ids[k])
        self.docs = {c: set().union(*(self.features[f][3] for f in fs)) for c, fs in self.clusters.items()}

    def row(self, f):
        return (f, *self.features[f][:3])


def listed(R, rows, members, world, top_k, what):
    """Is this a right list of the top_k features of a cluster?"""
    rows = [tuple(r) for r in rows]
    R.check(all(r == world.row(r[0]) for r in rows), f"{what}: an entry differs from the index", rows)
    R.check(len({r[0] for r in rows}) == len(rows) and {r[0] for r in rows} <= members, f"{what}: repeated features or features of other clusters", rows)
    counts = [r[3] for r in rows]
    want = sorted((world.features[f][2] for f in members), reverse=True)[:top_k]
    R.equal(counts, want, f"{what}: not the most frequent features in descending order", (rows, top_k))


def judge_listings(R, idx, world, cuts):
    ids = list(idx.cluster_ids)
    R.equal(ids, sorted(world.clusters), "the list of clusters is not that of the model")
    for top_k in cuts:
        got = list(idx.top_cluster_features(top_k=top_k))
        R.step()
        R.equal(sorted(c for c, _, _ in got), sorted(world.clusters), "the overview lists other clusters", top_k)
        R.equal([n for _, n, _ in got], sorted((len(d) for d in world.docs.values()), reverse=True), "the overview is not ordered by documents", top_k)
        for c, n, rows in got:
            if c in world.clusters:
                R.equal(n, len(world.docs[c]), "the overview has another number of documents", (c, top_k))
                listed(R, rows, world.clusters[c], world, top_k, "overview")
        for c in world.clusters:
            listed(R, idx.cluster_features(c, top_k=top_k), world.clusters[c], world, top_k, "cluster")
    for c in world.clusters:
        listed(R, idx.cluster_features(c), world.clusters[c], world, 10**6, "cluster")
        R.equal(set(idx.cluster_docs(c)), world.docs[c], "documents of a cluster", c)
        matching, bits = idx.cluster_query(c)
        R.equal(set(matching), world.docs[c], "query of a cluster", c)
    R.equal(list(idx.cluster_features(99)), [], "features of a missing cluster")


def edges(world):
    out = {}
    for a, b in itertools.combinations(sorted(world.clusters), 2):
        s = kit.jaccard(world.docs[a], world.docs[b])
        if s > 0:
            out[a, b] = s
    return out


def judge_graph(R, graph, world, top_k, with_field, number=int):
    R.equal(sorted(number(n) for n in graph.nodes), sorted(world.clusters), "the nodes of the graph are not the clusters")
    want = edges(world)
    got = {tuple(sorted((number(a), number(b)))): w for a, b, w in graph.edges(data="weight")}
    R.equal(sorted(got), sorted(want), "the edges of the graph are not the pairs of clusters sharing documents")
    for pair in set(got) & set(want):
        R.check(abs(got[pair] - want[pair]) < 1e-9, "an edge has another weight than the similarity", (pair, got[pair], want[pair]))
    for node, data in graph.nodes(data=True):
        c = number(node)
        if c not in world.clusters:
            continue
        R.equal(data["document_count"], len(world.docs[c]), "a node has another number of documents", c)
        members = world.clusters[c]
        show = lambda f: f"{world.features[f][0]}:{world.features[f][1]}" if with_field else str(world.features[f][1])
        ranked = sorted(members, key=lambda f: -world.features[f][2])
        if len(members) > len(CHOSEN):
            shown = data["label"].split(", ")
            known = {show(f): world.features[f][2] for f in members}
            R.check(
                len(set(shown)) == len(shown) and [known.get(x) for x in shown] == [world.features[f][2] for f in ranked[:top_k]],
                "the label of a node is not its most frequent features", (c, data["label"]),
            )
            continue
        # any order of equal counts
        allowed = set()
        for order in itertools.permutations(ranked):
            if all(world.features[x][2] >= world.features[y][2] for x, y in zip(order, order[1:])):
                allowed.add(", ".join(show(f) for f in order[:top_k]))
        R.check(data["label"] in allowed, "the label of a node is not its most frequent features", (c, data["label"], sorted(allowed)[:3]))


def assignments(step):
    every = list(itertools.product([None, *IDS], repeat=len(CHOSEN)))
    # clusters are interchangeable apart from their ids: the first feature with a
    # cluster takes any, so nothing is lost by a step coprime to their number
    return [{k: v for k, v in zip(CHOSEN, a) if v is not None} for a in every[::step]]


def job_listings(R, part, parts, deep):
    with workdir() as d:
        path = kit.write_db(os.path.join(d, "i.db"), base())
        world = World(path)
        for assignment in assignments(1)[part::parts]:
            world.set(path, assignment)
            R.context = {"assignment": {str(k): v for k, v in assignment.items()}}
            R.run()
            R.state(str(R.context))
            with kit.opened(path, workers=2) as idx:
                judge_listings(R, idx, world, (0, 1, 2, 3, 20))
                for top_k, with_field in ((2, True), (1, False)):
                    judge_graph(R, idx.create_cluster_cooccurrence_graph(top_k=top_k, include_field_in_label=with_field), world, top_k, with_field)
                    R.step()


def job_orders(R, workers, which, deep):
    assignment = [
        {CHOSEN[0]: 0, CHOSEN[1]: 0, CHOSEN[2]: 8, CHOSEN[4]: 21, CHOSEN[5]: 8},
        {CHOSEN[0]: 21, CHOSEN[3]: 8, CHOSEN[4]: 3, CHOSEN[5]: 4},
        {k: 30 + i for i, k in enumerate(CHOSEN)},
    ][which]
    with workdir() as d:
        path = kit.write_db(os.path.join(d, "i.db"), base())
        world = World(path)
        world.set(path, assignment)
        R.context = {"assignment": {str(k): v for k, v in assignment.items()}}

        def run(ch):
            CTL.order = lambda n, tag: ch.choose(n, tag)
            try:
                with kit.opened(path, workers=workers) as idx:
                    graph = idx.create_cluster_cooccurrence_graph()
                    R.run()
                    R.step()
                    R.context["order"] = ch.choices
                    R.state((which, workers, ch.choices))
                    judge_graph(R, graph, world, 5, True)
            finally:
                CTL.order = None

        _, capped = explore(run, bound=None if deep and which < 2 else 2, cap=20000)
        if capped:
            R.capped.append(f"graph {workers} {which}")


HEADER = ["cluster_id", "feature_id", "field", "value", "docs_count"]


def judge_table(R, text, world, top_k, what):
    rows = list(csv.reader(io.StringIO(text, newline="")))
    R.equal(rows[0] if rows else None, HEADER, f"{what}: wrong header")
    got = {}
    order = []
    for row in rows[1:]:
        if len(row) != 5:
            R.violation(f"{what}: a row has another number of cells", row)
            continue
        c, f = int(row[0]), int(row[1])
        if f not in world.features or row[2:] != [str(x) for x in world.row(f)[1:]]:
            R.violation(f"{what}: an entry differs from the index", row)
            continue
        if not order or order[-1] != c:
            order.append(c)
        got.setdefault(c, []).append(world.row(f))
    R.equal(sorted(order), sorted(world.clusters) if top_k else [], f"{what}: the clusters are not those of the model, each once")
    for c in set(got) & set(world.clusters):
        listed(R, got[c], world.clusters[c], world, top_k, what)


def job_large(R, sizes):
    """Clusters larger than every default cut-off, and many clusters."""
    docs = {f"d{i:02d}": {"t": [f"w{w}" for w in range(max(100, sum(sizes))) if (w * 37 + 11) % (i + 2) == 0]} for i in range(60)}
    runner = CliRunner()
    with workdir() as d:
        path = os.path.join(d, "i.db")
        target = os.path.join(d, "out")
        kit.build(path, docs)
        world = World(path)
        features = sorted(world.ids)
        assignment, at = {}, 0
        for n, size in enumerate(sizes):
            assignment.update({k: n * 2 for k in features[at : at + size]})
            at += size
        world.set(path, assignment)
        R.context = {"sizes": sizes}
        R.run()
        R.state(sizes)
        with kit.opened(path, workers=2) as idx:
            judge_listings(R, idx, world, (0, 1, 10, 20, 1000))
            for top_k, with_field in ((5, True), (40, False)):
                judge_graph(R, idx.create_cluster_cooccurrence_graph(top_k=top_k, include_field_in_label=with_field), world, top_k, with_field)
        for option, top_k in (("0", 10**6), ("1", 1), ("15", 15), ("1100", 1100), (None, 10)):
            args = [] if option is None else ["--top-k-features", option]
            result = runner.invoke(cli.cli, ["export", "clusters", path, target, *args])
            R.equal((result.exit_code, result.exception), (0, None), "the command fails", option)
            R.step()
            with open(target, newline="", encoding="utf-8") as f:
                judge_table(R, f.read(), world, top_k, f"exported table, top {option}")
        with web.application(server.SingleIndexServer(path, pool=MCPool(2))) as ask:
            response = ask("GET", "/index/0/export_clusters")
            R.equal((response.status, response.error), (200, None), "the page fails")
            judge_table(R, response.text, world, 10**6, "exported page")
            R.step()


def job_exports(R, part, parts, deep):
    runner = CliRunner()
    with workdir() as d:
        path = kit.write_db(os.path.join(d, "i.db"), base())
        target = os.path.join(d, "out")
        world = World(path)
        with web.application(server.SingleIndexServer(path, pool=MCPool(2))) as ask:
            for n, assignment in enumerate(assignments(1 if deep else 11)[part::parts]):
                world.set(path, assignment)
                R.context = {"assignment": {str(k): v for k, v in assignment.items()}}
                R.run()
                R.state(str(R.context))
                for option, top_k in (("0", 99), ("1", 1), ("2", 2), (None, 10)):
                    args = [] if option is None else ["--top-k-features", option]
                    result = runner.invoke(cli.cli, ["export", "clusters", path, target, *args])
                    R.equal((result.exit_code, result.exception), (0, None), "the command fails", option)
                    R.step()
                    with open(target, newline="", encoding="utf-8") as f:
                        judge_table(R, f.read(), world, top_k, f"exported table, top {option}")
                for args, top_k, with_field in (([], 5, True), (["--top-k-features", "1", "--exclude-field-in-label"], 1, False)):
                    result = runner.invoke(cli.cli, ["export", "graph", path, target, *args])
                    R.equal((result.exit_code, result.exception), (0, None), "the command fails", args)
                    R.step()
                    judge_graph(R, nx.read_graphml(target), world, top_k, with_field)
                response = ask("GET", "/index/0/export_clusters")
                R.equal((response.status, response.error), (200, None), "the page fails")
                R.check(response.headers["content-type"].startswith("text/csv"), "the export is not sent as a table", response.headers)
                judge_table(R, response.text, world, 10**6, "exported page")
                R.step()


CORPORA = [
    DOCS,
    {},
    {"only": {"t": ["a", "a", "b"]}},
    {f"d{i}": {"year": {2000 + i % 3}, "mixed": {i if i % 2 else str(i)}, "none": [], "t": ["w"] * i} for i in range(5)},
    {f"d{i}": {"p": [x for x in "ab" if (i >> "ab".index(x)) & 1], "q": {None, i % 2}, "r": {b"raw", 1.5, "1.5"}} for i in range(5)},
]


def job_fields(R, which):
    docs = CORPORA[which]
    ref = kit.Ref(docs)
    with workdir() as d:
        for positions, batch in itertools.product((True, False), (1, 2, 9)):
            path = os.path.join(d, f"{positions}{batch}.db")
            kit.build(path, docs, positions=positions, batch=batch)
            R.context = {"corpus": which, "positions": positions, "batch": batch}
            R.run()
            R.state(str(R.context))
            with kit.opened(path) as idx:
                R.equal(
                    {row[0]: tuple(row[1:]) for row in idx.indexed_field_summary()}, ref.field_summary(positions), "the field summary differs from the corpus"
                )
                R.equal(len(list(idx.indexed_field_summary())), len(ref.field_summary(positions)), "a field is listed twice")
                keys = {k: i for i, k in kit.doc_keys(path).items()}
                queries = {
                    ("q", n): set(q) for n, q in enumerate(itertools.chain.from_iterable(itertools.combinations(docs, r) for r in range(len(docs) + 1)))
                }
                bitmaps = {name: BitMap(keys[k] for k in q) for name, q in queries.items()}
                for field in [*{f for f, _ in ref.features}, "absent"]:
                    want = sorted((v for f, v in ref.features if f == field), key=kit.sqlite_order)
                    for chosen in (bitmaps, dict(list(bitmaps.items())[:1]), dict(list(bitmaps.items())[-2:]), {}):
                        values, totals, inter = idx.intersect_queries_with_field(chosen, field)
                        R.step()
                        R.equal(list(values), want, "not all values of the field in order", field)
                        R.equal(list(totals), [len(ref.features[field, v]) for v in want], "wrong totals of the values", field)
                        R.check(set(inter) <= set(chosen) and (not want or set(inter) == set(chosen)), "not the given queries", field)
                        for name in inter:
                            R.equal(
                                list(inter[name]), [len(ref.features[field, v] & queries[name]) for v in want], "wrong intersection with a query", (field, sorted(queries[name]))
                            )
                    for least in (1, 2, 3):
                        R.equal(
                            [(v, n, {k for k, i in keys.items() if i in b}) for v, n, b in idx.iter_field_docs(field, min_docs=least)],
                            [(v, len(ref.features[field, v]), ref.features[field, v]) for v in want if len(ref.features[field, v]) >= least],
                            "wrong documents of the values of a field",
                            (field, least),
                        )
