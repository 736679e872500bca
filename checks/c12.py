"""
C12 Refinement moves features only to their best scoring cluster.

One pass from every layout of the bounded blocks; the moves are judged with a
plain set implementation of the documented objective.
"""

import itertools
import os

from pyroaring import BitMap

from mc import kit, refine, wide
from mc.env import CTL, workdir
from mc.explore import Chooser, explore, RandomChoices
from checks.c10 import fixture

TECHNIQUE = "exhaustive exploration of layouts, probes and random outcomes of one real refinement pass against a set-based objective"
NOTE = (
    "All layouts of the blocks; scores are recomputed from plain sets, ties within 1e-9 are accepted either way. "
    "Group testing is judged against every possible grouping of the clusters."
)
LEVEL = "model_checking"
BOUNDS = {
    "quick": "wide: 4 calls on 600 features in up to 16 clusters; dense: all assignments of 5 features to 3 clusters (all accepted; every second move accepted), with and without probe; "
    "pins and selections on 9 layouts; group tests: all assignments of 4 features to 4 clusters with 2 groups, "
    "top 1 and 2; choices: all outcomes of 2 deviations in four layouts",
    "thorough": "6 features in 3 clusters and 5 in 4 clusters, all probes of three documents, 3 deviations",
}
ASSUMPTIONS = ["scores closer than 1e-9 are equal"]
EPS = 1e-9


def jobs(tier, seed):
    deep = tier == "thorough"
    out = []
    n = 12 if not deep else 64
    for i in range(n):
        out.append(("dense", i, n, deep))
    for i in range(4):
        out.append(("restricted", i, 4, deep))
    for i in range(n // 2):
        out.append(("grouped", i, n // 2, deep))
    for case in range(len(WIDE)):
        out.append(("wide", case))
    for case in range(4):
        for i in range(2):
            out.append(("choices", case, i, 2, deep))
    return out


class Scores:
    """The documented objective on plain sets."""

    def __init__(self, path, probe, corpus=refine.DOCS):
        known = kit.features_of(path)
        keys = {k: i for i, k in kit.doc_keys(path).items()}
        ref = kit.Ref(corpus)
        self.docs = {}
        for f, key in known.items():
            docs = {keys[x] for x in ref.postings[key]}
            if probe:
                docs &= set(probe)
            self.docs[f] = docs

    def objective(self, group):
        hits = sum(len(self.docs[f]) for f in group)
        cover = len(set().union(*(self.docs[f] for f in group)))
        n = len(group)
        return hits / (cover + n) - hits / (hits + n)

    def score(self, f, group):
        """The effect of having f in the group, None for an empty group."""
        group = set(group)
        if not group:
            return None
        others = group - {f}
        rest = set().union(*(self.docs[x] for x in others)) if others else set()
        if f in group:
            if not rest:
                return 0
            if not rest & self.docs[f]:
                return -1
            return self.objective(group) - self.objective(others)
        if not rest & self.docs[f]:
            return -1
        return self.objective(group | {f}) - self.objective(group)


def judge(R, path, state, kwargs, before, after, dense=True, corpus=refine.DOCS):
    scores = Scores(path, kwargs.get("probe_query"), corpus)
    old, new = dict(before[0]), dict(after[0])
    sel = refine.selected(before, kwargs) - set(before[2])
    where_new = {f: k for k, fs in new.items() for f in fs}
    moved = 0
    wrong = []
    table = {}
    for k in sel:
        for f in old[k]:
            table[f] = {c: scores.score(f, old[c]) for c in sel}
    if dense:
        for k in sel:
            for f in old[k]:
                to = where_new[f]
                best = max(table[f].values())
                if to == k:
                    continue
                moved += 1
                if to not in table[f]:
                    wrong.append((f, k, to, "not a cluster of the selection"))
                elif table[f][to] < best - EPS:
                    wrong.append((f, k, to, table[f]))
        R.check(not wrong, "a feature moved to a cluster that is not its best", wrong)
        if kwargs.get("move_acceptance_probability", 0.5) >= 1:
            stayed = []
            pinned = set(before[1])
            for k in sel:
                left = [f for f in old[k] if where_new[f] != k]
                if len(old[k]) - len(left) <= kwargs.get("minimum_cluster_features", 1):
                    continue
                for f in set(old[k]) - set(left) - pinned:
                    if max(table[f].values()) > table[f][k] + EPS:
                        stayed.append((f, k, table[f]))
            R.check(not stayed, "a feature with a better cluster stayed although every move is accepted", stayed)
    else:
        n = kwargs["group_test_batches"]
        top = kwargs["group_test_top_k"]
        reasons = []
        for groups in groupings(sorted(sel), n):
            wrong = []
            for k in sel:
                for f in old[k]:
                    to = where_new[f]
                    if to == k:
                        continue
                    group_score = [
                        scores.score(f, {x for c in g for x in old[c]}) for g in groups
                    ]
                    limit = sorted(group_score, reverse=True)[: max(1, top)][-1]
                    candidates = {
                        c for g, s in zip(groups, group_score) if s >= limit - EPS for c in g
                    }
                    if to not in candidates:
                        wrong.append((f, k, to, "not in a best group"))
                        continue
                    ties = sum(s >= limit - EPS for s in group_score) > max(1, top)
                    others = {
                        c for g, s in zip(groups, group_score) if s > limit + EPS or (s >= limit - EPS and not ties) for c in g
                    }
                    # with tied groups, those actually taken include the destination's
                    mine = next(g for g in groups if to in g)
                    pool = others | set(mine)
                    best = max(table[f][c] for c in pool)
                    if table[f][to] < best - EPS:
                        wrong.append((f, k, to, table[f]))
            if not wrong:
                break
            reasons.append((groups, wrong))
        else:
            R.check(
                False,
                "with group testing a feature moved to a cluster that is not best for any grouping",
                reasons[:3],
            )
        moved = sum(where_new[f] != k for k in sel for f in old[k])
    R.outcome((before, after))
    return moved


def groupings(ids, n):
    """Every division of the ids into n groups of sizes differing by at most one."""
    sizes = [len(ids[i::n]) for i in range(n)]
    seen = set()
    for perm in itertools.permutations(ids):
        groups, at = [], 0
        for s in sizes:
            groups.append(tuple(sorted(perm[at : at + s])))
            at += s
        key = frozenset(groups)
        if key not in seen:
            seen.add(key)
            yield groups


def one(R, idx, path, state, kwargs, random, dense=True, context=None):
    R.context = dict(refine.describe(state, kwargs), choices=context)
    R.run()
    R.step()
    before, after = refine.refine(idx, state, kwargs, random)
    R.state(before)
    R.note("moves judged", judge(R, path, state, kwargs, before, after, dense))


def options(**extra):
    return dict({"iterations": 1, "tolerance": 0, "group_test_batches": 0}, **extra)


def job_dense(R, part, parts, deep):
    with workdir() as d:
        path, f = fixture(d)
        docs = sorted(kit.doc_keys(path))
        layouts = list(kit.assignments([f[0], f[1], f[3], f[4], f[6]], [0, 2, 4], partial=False))
        if deep:
            layouts += list(kit.assignments(f[:6], [0, 2, 4], partial=False))
            layouts += list(kit.assignments(f[2:7], [0, 2, 3, 4], partial=False))
        probes = [None, BitMap(docs[:4])]
        if deep:
            probes += [BitMap(p) for p in itertools.combinations(docs, 3)][::7]
        work = [(a, p) for a in layouts for p in probes]
        with kit.opened(path) as idx:
            for a, p in work[part::parts]:
                for acc, random in ((1.0, refine.Alternating()), (0.5, refine.Alternating())):
                    one(R, idx, path, (a, (), ()), options(probe_query=p, move_acceptance_probability=acc), random)
        R.sample(refine.describe((work[part][0], (), ()), options(probe_query=work[part][1])))


def job_restricted(R, part, parts, deep):
    """Pinned features, pinned clusters and selections."""
    with workdir() as d:
        path, f = fixture(d)
        layouts = list(kit.assignments(f[:6], [0, 2, 4], partial=False))[5::83]
        work = [
            ((a, pf, pc), options(cluster_ids=s, move_acceptance_probability=1.0))
            for a in layouts
            for pf in list(kit.subsets(f[:6]))[:: 1 if deep else 5]
            for pc in ((), (0,), (4,))
            for s in (None, [0, 2], [4, 0])
            if set(pc) <= set(a.values())
        ]
        with kit.opened(path) as idx:
            for state, kwargs in work[part::parts]:
                one(R, idx, path, state, kwargs, refine.Alternating())
        R.sample(refine.describe(*work[part]))


# sizes of clusters, pins of every nth feature, call
WIDE = [
    ([520, 130, 130] + [85] * 9 + [3, 3, 1, 1], 0, {"move_acceptance_probability": 1.0}),
    ([520, 130, 130] + [85] * 9 + [3, 3, 1, 1], 3, {"minimum_cluster_features": 9}),
    ([180] * 9, 0, {"move_acceptance_probability": 1.0, "probe_query": BitMap(range(0, 1200, 3))}),
    ([110] * 15, 4, {"move_acceptance_probability": 1.0, "cluster_ids": list(range(3, 37, 3))}),
]
MEDIUM = {"n": 1200, "words": 500}


def job_wide(R, case):
    """Hundreds of features, a dozen clusters."""
    with workdir() as d:
        path = kit.write_db(os.path.join(d, "i.db"), wide.base(**MEDIUM))
        sizes, pinned, kwargs = WIDE[case]
        kwargs = options(**kwargs)
        model = wide.model(kit.features_of(path), sizes)
        # related features in different clusters
        fs = sorted(model)
        model = dict(zip(fs[::3] + fs[1::3] + fs[2::3], [model[f] for f in fs]))
        state = (model, tuple(fs[::pinned] if pinned else ()), ())
        with kit.opened(path) as idx:
            R.context = {"wide": case, "call": repr(kwargs)}
            R.run()
            R.step()
            before, after = refine.refine(idx, state, kwargs, refine.Alternating())
            R.state(case)
            R.note("moves judged", judge(R, path, state, kwargs, before, after, True, wide.docs(**MEDIUM)))


def job_grouped(R, part, parts, deep):
    with workdir() as d:
        path, f = fixture(d)
        layouts = [
            a
            for a in kit.assignments([f[0], f[1], f[3], f[4], f[5]], [0, 2, 3, 4], partial=False)
            if len(set(a.values())) == 4
        ]
        docs = sorted(kit.doc_keys(path))
        work = [(a, k, p) for a in layouts for k in (1, 2) for p in (None, BitMap(docs[1:5]))]
        with kit.opened(path) as idx:
            for a, k, p in work[part::parts]:
                kwargs = dict(
                    options(probe_query=p, move_acceptance_probability=1.0),
                    group_test_batches=2,
                    group_test_top_k=k,
                )
                for random in (refine.Alternating(), RandomChoices(Chooser())):
                    one(R, idx, path, (a, (), ()), kwargs, random, dense=False)
        R.sample(refine.describe((work[part][0], (), ()), kwargs))


def job_choices(R, case, shard, shards, deep):
    with workdir() as d:
        path, f = fixture(d)
        cases = [
            ({f[0]: 0, f[1]: 2, f[2]: 0, f[3]: 2, f[4]: 4}, options(), True),
            ({f[0]: 0, f[1]: 2, f[2]: 4, f[3]: 0, f[4]: 2, f[5]: 4}, options(), True),
            ({f[0]: 0, f[1]: 2, f[2]: 4, f[3]: 0, f[4]: 2, f[5]: 3}, dict(options(), group_test_batches=2, group_test_top_k=1), False),
            ({f[0]: 0, f[1]: 2, f[2]: 4, f[3]: 0, f[4]: 2, f[5]: 3}, dict(options(), group_test_batches=1, group_test_top_k=2), True),
        ]
        layout, kwargs, dense = cases[case]
        with kit.opened(path) as idx:

            def run(ch):
                one(R, idx, path, (layout, (), ()), kwargs, RandomChoices(ch), dense, ch.prefix)

            n, _ = explore(run, bound=3 if deep else 2, shard=(shard, shards))
            R.note("random outcomes", n)
        R.sample(refine.describe((layout, (), ()), kwargs))
