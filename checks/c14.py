"""
C14 Pivoting returns the exact ranking, never an approximation.
"""

import itertools
import os
from collections import Counter

from pyroaring import BitMap, FrozenBitMap

from mc import kit, wide
from mc.env import CTL, workdir
from mc.explore import explore

TECHNIQUE = "exhaustive enumeration of clusterings, queries, cut-offs, cluster selections and completion orders on the real pivot, against a brute force ranking"
NOTE = (
    "15 features cover every non-empty combination of four groups of documents (1, 2, 3 and 5 documents): every relation of sizes and "
    "overlaps between query, features and clusters occurs. Only the order of exact ties is left open."
)
LEVEL = "model_checking"
BOUNDS = {
    "quick": "clusterings (a cluster of up to 3 of 15 features, another with the rest), every 6th; assignments of 3 sets of 5 features to 3 clusters or none, every 23rd; "
    "wide: 9 queries x 6 cut-offs on 95 clusters of 2700 features; 16 group queries and 12 single or odd ones; 28 queries with up to 4 billion documents outside of the index; top_k 0,1,2,3,20; all selections of 3 clusters; all completion orders of 6 tasks up to 2 departures",
    "thorough": "all of these clusterings with up to 4 features, 2048 queries for each 40th, unbounded completion orders for 4 tasks",
}
ASSUMPTIONS = ["similarities depend on documents only through the sizes of the combinations of feature, cluster and query"]

GROUPS = [1, 2, 3, 5]
DOC_GROUP = [g for g, n in enumerate(GROUPS) for _ in range(n)]
N = len(DOC_GROUP)
DOCS = {
    f"d{i:02d}": {"f": {m - 1 for m in range(1, 16) if m >> g & 1}} for i, g in enumerate(DOC_GROUP)
}
DOCS["nothing"] = {"f": set()}


def mask_of(value):
    return value + 1 if value >= 0 else -value


def members(mask):
    return {i for i, g in enumerate(DOC_GROUP) if mask >> g & 1}


QUERIES = [members(m) for m in range(16)] + [
    {0}, {1}, {3}, {6}, {1, 3}, {1, 6, 7}, {3, 4, 6}, {0, 3, 6}, set(range(0, N, 2)), set(range(1, N, 2)), {N}, {0, 7, N},
]


def jobs(tier, seed):
    deep = tier == "thorough"
    n = 16 if not deep else 64
    out = [("parts", i, n, deep) for i in range(n)]
    out += [("assigned", i, n, deep) for i in range(n)]
    out += [("orders", w, deep) for w in (1, 2, 3)]
    out += [("far", w) for w in (1, 3)]
    out += [("wide", w) for w in (1, 3)] + [("wide", 2, "many")]
    if deep:
        out += [("queries", i, 32) for i in range(32)]
    return out


def base(which=0):
    """
    The documents, with identifiers of features that start at 1 or are far
    larger than those of documents, or with the smallest of them for the
    features of most documents.
    """
    docs = DOCS
    if which == 2:
        docs = {key: {"f": {-1 - v for v in doc["f"]}} for key, doc in DOCS.items()}
    if which == 1:
        # indexed before: the others get the identifiers after these
        docs = {**DOCS, "nothing": {"f": set(), "e": set(range(3000))}}
    return kit.template(f"c14-{which}", lambda p: kit.build(p, docs, positions=False, batch=5))


def ids_of(path):
    """feature mask -> id, document number -> document id."""
    with kit.opened(path) as idx:
        features = {mask_of(v): k for k, (field, v) in kit.features_of(idx).items() if field == "f"}
        keys = {k: i for i, k in kit.doc_keys(idx).items()}
    docs = {i: keys[f"d{i:02d}"] for i in range(N)}
    docs[N] = keys["nothing"]
    return features, docs


def ranking(query, clusters, top_k):
    """[(cluster, similarity, multiset of top similarities, exact scores)]"""
    out = {}
    for c, masks in clusters.items():
        docs = set().union(*(members(m) for m in masks)) if masks else set()
        if docs & query:
            scores = {m: kit.jaccard(query, members(m)) for m in masks}
            best = sorted((s for s in scores.values() if s > 0), reverse=True)[:top_k]
            out[c] = (kit.jaccard(query, docs), best, scores)
    return out


def ask(R, idx, features, docs, clusters, query, top_k, selected=None, frozen=False):
    R.context = {
        "clusters": {c: sorted(m) for c, m in clusters.items()},
        "query": sorted(query),
        "top_k": top_k,
        "cluster_ids": selected,
    }
    masks = {v: k for k, v in features.items()}
    bitmap = (FrozenBitMap if frozen else BitMap)(docs[d] for d in query)
    before = set(bitmap)
    got = list(idx.pivot_clusters_by_query(bitmap, cluster_ids=selected, top_k=top_k))
    R.step()
    chosen = clusters if selected is None else {c: clusters[c] for c in selected}
    want = ranking(query, chosen, top_k)
    R.equal(set(bitmap), before, "pivoting changes the query")
    R.equal(sorted(c for c, _, _ in got), sorted(want), "pivoting lists other clusters than those sharing documents with the query")
    similarities = [s for _, s, _ in got]
    R.check(
        all(a >= b for a, b in zip(similarities, similarities[1:])), "clusters are not in descending order of similarity", got
    )
    for c, similarity, listed in got:
        if c not in want:
            continue
        exact, best, scores = want[c]
        R.check(abs(similarity - exact) < 1e-12, "wrong similarity of a cluster", [c, similarity, exact])
        found = [row[-1] for row in listed]
        R.check(all(a >= b for a, b in zip(found, found[1:])), "features are not in descending order", listed)
        R.check(len({row[0] for row in listed}) == len(listed), "a feature is listed twice", listed)
        R.check(
            len(found) == len(best) and all(abs(a - b) < 1e-12 for a, b in zip(found, best)),
            "not the features most similar to the query",
            {"cluster": c, "got": listed, "similarities": best},
        )
        for f, field, value, score in listed:
            R.check(
                field == "f" and masks.get(f) == mask_of(value) and mask_of(value) in scores and abs(score - scores[mask_of(value)]) < 1e-12,
                "wrong feature or similarity",
                {"cluster": c, "row": [f, field, value, score]},
            )
    R.outcome([(c, s, [r[-1] for r in rows]) for c, s, rows in got])


def modelled(path, data, features, clusters):
    kit.write_db(path, data)
    with kit.raw(path) as c:
        kit.set_model(c, {features[m]: k for k, masks in clusters.items() for m in masks})
        c.commit()


def job_parts(R, part, parts, deep):
    """One small cluster against the rest."""
    chosen = [c for n in range(1, 5 if deep else 4) for c in itertools.combinations(range(1, 16), n)]
    chosen = [()] + chosen[:: 1 if deep else 6]
    with workdir() as d:
        path = os.path.join(d, "i.db")
        data = base(part % 3)
        kit.write_db(path, data)
        features, docs = ids_of(path)
        for masks in chosen[part::parts]:
            clusters = {0: set(masks), (9, 70000, 1)[part % 3]: set(range(1, 16)) - set(masks)}
            clusters = {k: v for k, v in clusters.items() if v}
            modelled(path, data, features, clusters)
            R.run()
            R.state(masks)
            with kit.opened(path, workers=1) as idx:
                for i, query in enumerate(QUERIES):
                    for top_k in (1, 2, 3, 20):
                        if top_k == 20 or deep or i % 3 == top_k - 1:
                            ask(R, idx, features, docs, clusters, query, top_k, frozen=i % 5 == 0)


def job_assigned(R, part, parts, deep):
    """Five features in up to three clusters, selections of clusters."""
    sets = [(1, 3, 7, 15, 8), (6, 9, 12, 5, 10), (2, 4, 8, 14, 13)]
    chosen = [
        (which, a) for which in range(len(sets)) for a in itertools.product((None, 0, 2, 3), repeat=5) if any(c is not None for c in a)
    ][:: 1 if deep else 23]
    with workdir() as d:
        path = os.path.join(d, "i.db")
        data = base(part % 3)
        kit.write_db(path, data)
        features, docs = ids_of(path)
        for which, a in chosen[part::parts]:
            clusters = {}
            for m, c in zip(sets[which], a):
                if c is not None:
                    clusters.setdefault(c, set()).add(m)
            modelled(path, data, features, clusters)
            R.run()
            R.state((which, a))
            with kit.opened(path, workers=2) as idx:
                for i, query in enumerate(QUERIES):
                    ask(R, idx, features, docs, clusters, query, i % 3)
                    if i % 4 == 1:
                        for selected in kit.subsets(sorted(clusters)):
                            if selected:
                                ask(R, idx, features, docs, clusters, query, 2, list(selected)[::-1])


def job_orders(R, workers, deep):
    """All orders in which background tasks complete."""
    clusters = {0: {1, 3}, 2: {7, 8, 9}, 5: {15, 12}, 6: {2, 4}, 8: {5, 10, 6, 14}}
    with workdir() as d:
        path = os.path.join(d, "i.db")
        data = base()
        kit.write_db(path, data)
        features, docs = ids_of(path)
        modelled(path, data, features, clusters)
        for query in (members(5), members(2), {0, 1, 7}):
            with kit.opened(path, workers=workers) as idx:

                def once(ch):
                    CTL.order = lambda n, tag: ch.choose(n, tag)
                    R.run()
                    try:
                        ask(R, idx, features, docs, clusters, query, 2)
                    finally:
                        CTL.order = None
                    R.state((workers, sorted(query), ch.choices))

                explore(once, bound=None if deep and workers < 3 else 2)


def job_far(R, workers):
    """Queries mostly of documents that are not in the index: any similarity down to the smallest."""
    clusters = {0: {1, 3}, 2: {7, 8, 9}, 5: {15, 12}, 6: {2, 4}, 8: {5, 10, 6, 14}}
    with workdir() as d:
        path = os.path.join(d, "i.db")
        kit.write_db(path, base())
        features, docs = ids_of(path)
        modelled(path, kit.read_db(path), features, clusters)
        sets = {m: {docs[i] for i in range(N) if m >> DOC_GROUP[i] & 1} for m in features}
        covers = {c: set().union(*(sets[m] for m in ms)) for c, ms in clusters.items()}
        masks = {f: m for m, f in features.items()}
        with kit.opened(path, workers=workers) as idx:
            for far in (1, 100, 10**4, 10**6, 10**8, 4 * 10**9):
                for near in QUERIES:
                    near = {docs[i] for i in near}
                    query = BitMap(near)
                    query.add_range(1000, 1000 + far)
                    R.context = {"near": sorted(near), "far": far}
                    R.run()
                    R.state((far, sorted(near)))

                    def similarity(s):
                        both = len(near & s)
                        return both / (len(near) + far + len(s) - both)

                    for top_k in (1, 20):
                        got = list(idx.pivot_clusters_by_query(query, top_k=top_k))
                        R.step()
                        R.equal(len(query), len(near) + far, "pivoting changes the query")
                        R.equal(sorted(c for c, _, _ in got), sorted(c for c, s in covers.items() if s & near), "pivoting lists other clusters than those sharing documents with the query")
                        R.check(all(a[1] >= b[1] for a, b in zip(got, got[1:])), "clusters are not in descending order of similarity", got)
                        for c, s, rows in got:
                            R.check(abs(s / similarity(covers[c]) - 1) < 1e-9, "wrong similarity of a cluster", [c, s])
                            best = sorted((x for m in clusters[c] if (x := similarity(sets[m]))), reverse=True)[:top_k]
                            R.check(
                                len(rows) == len(best)
                                and all(abs(r[-1] / b - 1) < 1e-9 for r, b in zip(rows, best))
                                and all(masks.get(r[0]) in clusters[c] and abs(r[-1] / similarity(sets[masks[r[0]]]) - 1) < 1e-9 for r in rows),
                                "not the features most similar to the query",
                                {"cluster": c, "got": rows, "similarities": best},
                            )


def job_queries(R, part, parts):
    """Every set of documents as the query."""
    chosen = [c for n in range(1, 5) for c in itertools.combinations(range(1, 16), n)][::40]
    with workdir() as d:
        path = os.path.join(d, "i.db")
        data = base()
        kit.write_db(path, data)
        features, docs = ids_of(path)
        for masks in chosen:
            clusters = {0: set(masks), 9: set(range(1, 16)) - set(masks)}
            modelled(path, data, features, clusters)
            with kit.opened(path, workers=1) as idx:
                for q in range(part, 2**N, parts):
                    R.run()
                    R.state((masks, q))
                    ask(R, idx, features, docs, clusters, {i for i in range(N) if q >> i & 1}, 1 + q % 3)


def job_wide(R, workers, sizes="large"):
    """Thousands of features, clusters larger than any cut-off."""
    ref = kit.Ref(wide.docs())
    with workdir() as d:
        path = kit.write_db(os.path.join(d, "i.db"), wide.base())
        known = kit.features_of(path)
        keys = {k: i for i, k in kit.doc_keys(path).items()}
        sets = {f: {keys[k] for k in ref.postings[name]} for f, name in known.items()}
        fs = sorted(sets)
        model = wide.model(fs[::2] + fs[1::2], {"large": wide.SIZES, "many": [2, 1] * 600 + [9] * 30}[sizes])
        with kit.raw(path) as c:
            kit.set_model(c, model)
        clusters = {}
        for f, k in model.items():
            clusters.setdefault(k, []).append(f)
        cover = {k: set().union(*(sets[f] for f in v)) for k, v in clusters.items()}
        everything = sorted(keys.values())
        queries = [sets[fs[0]], sets[fs[len(fs) // 2]], sets[max(fs, key=lambda f: len(sets[f]))], set(everything), set(everything[::5])]
        queries += [set(everything[:3]), set(everything[-300:]), cover[0], cover[3 * 50]]
        with kit.opened(path, workers=workers) as idx:
            for i, query in enumerate(queries):
                scores = {f: kit.jaccard(query, s) for f, s in sets.items()}
                for top_k, selected in ((1, None), (20, None), (500, None), (7, [0, 3, 30, 90]), (5000, None), (1300, [0])):
                    R.context = {"wide query": i, "top_k": top_k, "cluster_ids": selected}
                    R.run()
                    R.step()
                    R.state((workers, i, top_k))
                    got = list(idx.pivot_clusters_by_query(BitMap(query), cluster_ids=selected, top_k=top_k))
                    want = {k for k in (selected or clusters) if cover[k] & query}
                    R.check(len(got) == len(want) and {k for k, _, _ in got} == want, "pivoting lists other clusters than those sharing documents with the query")
                    order = [s for _, s, _ in got]
                    R.check(order == sorted(order, reverse=True), "clusters are not in descending order of similarity", order)
                    for k, s, rows in got:
                        R.check(abs(s - kit.jaccard(query, cover[k])) < 1e-12, "wrong similarity of a cluster", k)
                        best = sorted((x for f in clusters[k] if (x := scores[f]) > 0), reverse=True)[:top_k]
                        R.check(
                            len(rows) == len(best) == len({r[0] for r in rows})
                            and all(abs(r[-1] - b) < 1e-12 for r, b in zip(rows, best))
                            and all(model[f] == k and known[f] == (field, value) and abs(x - scores[f]) < 1e-12 for f, field, value, x in rows),
                            "not the features most similar to the query",
                            lambda: {"cluster": k, "got": rows[:30], "similarities": best[:30]},
                        )
