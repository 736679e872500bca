"""
C10 Refinement conserves features and respects pins and selection.

Refinement of every constructed model state of the bounded blocks below, under
explored random outcomes (complete tree in small models, deviations from the
default outcome elsewhere).
"""

import itertools
import os

from pyroaring import BitMap

from mc import kit, refine, wide
from mc.env import CTL, workdir
from mc.explore import Chooser, explore, RandomChoices

TECHNIQUE = "exhaustive exploration of model states, arguments and random outcomes of the real refinement"
NOTE = (
    "All states and calls of the stated blocks, with every random outcome in three-feature models and bounded "
    "deviations from a default outcome in larger ones. Larger models and more iterations are not covered."
)
LEVEL = "model_checking"
BOUNDS = {
    "quick": "pins: 5 features in 3 clusters, all feature and cluster pins x 4 targets x 4 selections; "
    "wide: 10 calls on models of up to 700 clusters; options: 8 states x targets, minimum sizes, group tests, probes, iterations; "
    "choices: all random outcomes of three 3-feature models, up to 3 deviations from the default outcome in two "
    "and up to 2 in five larger models",
    "thorough": "the same blocks with 6 features in 4 clusters, 1-3 iterations, all outcomes of five models and 3 deviations in the larger ones",
}
ASSUMPTIONS = ["random outcomes matter only through Random.random (either side of one half) and bounded integers"]


def fixture(d):
    path = kit.write_db(os.path.join(d, "i.db"), refine.base())
    return path, sorted(kit.features_of(path))


def jobs(tier, seed):
    deep = tier == "thorough"
    out = []
    for i in range(12 if not deep else 48):
        out.append(("pins", i, 12 if not deep else 48, deep))
    for i in range(8 if not deep else 64):
        out.append(("options", i, 8 if not deep else 64, deep))
    for case in range(len(WIDE)):
        out.append(("wide", case))
    for case in range(10):
        shards = (4 if not deep else 8) if case >= 3 else 1
        for i in range(shards):
            out.append(("choices", case, i, shards, deep))
    return out


def one(R, idx, state, kwargs, make_random, context=None):
    R.context = dict(refine.describe(state, kwargs), choices=context)
    R.run()
    R.step()
    before, after = refine.refine(idx, state, kwargs, make_random)
    R.state(before)
    refine.check_conservation(R, idx, before, after, kwargs)
    R.outcome((before, after))


def job_pins(R, part, parts, deep):
    """All pins, with selections and targets."""
    with workdir() as d:
        path, f = fixture(d)
        if deep:
            layout = {f[0]: 0, f[1]: 0, f[2]: 2, f[3]: 2, f[4]: 4, f[5]: 7}
        else:
            layout = {f[0]: 0, f[1]: 0, f[2]: 2, f[3]: 2, f[4]: 4}
        ids = sorted(set(layout.values()))
        cases = [
            ((layout, pf, pc), {"iterations": 2, "tolerance": 0, "target_clusters": t, "cluster_ids": s})
            for pf in kit.subsets(sorted(layout))
            for pc in kit.subsets(ids)
            for t in (None, 1, 2, len(ids) + 2)
            for s in (None, [0], [4, 0], [2, 99])
        ]
        with kit.opened(path) as idx:
            for state, kwargs in cases[part::parts]:
                for random in (refine.Alternating(), RandomChoices(Chooser())):
                    one(R, idx, state, kwargs, random)
        R.sample(refine.describe(*cases[part]))


# sizes of clusters, every how many features and clusters are pinned, call
WIDE = [
    (wide.SIZES, 0, 0, {"iterations": 1}),
    (wide.SIZES, 3, 4, {"iterations": 1, "target_clusters": 40}),
    (wide.SIZES, 5, 0, {"iterations": 2, "target_clusters": 3, "minimum_cluster_features": 12}),
    (wide.SIZES, 0, 7, {"iterations": 1, "target_clusters": 300}),
    (wide.SIZES, 50, 0, {"iterations": 1, "target_clusters": 1400, "group_test_batches": 5}),
    (wide.SIZES, 0, 0, {"iterations": 1, "cluster_ids": [0, 6, 30, 99, 102, 105]}),
    ([3] * 700, 4, 9, {"iterations": 1, "target_clusters": 650}),
    ([3] * 700, 0, 0, {"iterations": 1, "cluster_ids": list(range(0, 1800, 3)), "target_clusters": 20}),
    ([2000], 0, 0, {"iterations": 2, "target_clusters": 12}),
    ([2000, 700], 0, 0, {"iterations": 1, "target_clusters": 130, "tolerance": 0.3}),
    (wide.SIZES, 0, 0, {"iterations": 1, "target_clusters": 1}),
    ([3] * 1200, 0, 0, {"iterations": 1, "group_test_batches": 100}),
]


def wide_case(path, case):
    sizes, pf, pc, kwargs = WIDE[case]
    model = wide.model(kit.features_of(path), sizes)
    ids = sorted(set(model.values()))
    return (model, tuple(sorted(model)[:: pf] if pf else ()), tuple(ids[::pc] if pc else ())), kwargs


def job_wide(R, case):
    """Hundreds of clusters and thousands of features."""
    with workdir() as d:
        path = kit.write_db(os.path.join(d, "i.db"), wide.base())
        state, kwargs = wide_case(path, case)
        with kit.opened(path) as idx:
            R.context = {"wide": case, "call": kwargs}
            R.run()
            R.step()
            before, after = refine.refine(idx, state, kwargs, refine.Alternating())
            R.state(case)
            refine.check_conservation(R, idx, before, after, kwargs)
            refine.check_counts(R, before, after, kwargs)
            R.equal(idx.cluster_ids, [k for k, _ in after[0]], "the listed clusters are not the stored ones")


def job_options(R, part, parts, deep):
    """Every combination of options on several models."""
    with workdir() as d:
        path, f = fixture(d)
        states = [
            ({f[0]: 0}, (), ()),
            ({}, (), ()),
            ({f[0]: 0, f[1]: 2}, (), ()),
            ({f[0]: 0, f[1]: 2, f[2]: 5, f[3]: 5, f[4]: 5, f[5]: 2}, (f[4],), ()),
            ({x: i for i, x in enumerate(f[:6])}, (), (3,)),
            ({f[0]: 3, f[1]: 3, f[2]: 3, f[3]: 4, f[4]: 4, f[6]: 8, f[7]: 9}, (f[0], f[3]), (9,)),
        ]
        docs = sorted(kit.doc_keys(path))
        cases = [
            (
                s,
                {
                    "iterations": it,
                    "tolerance": tol,
                    "minimum_cluster_features": m,
                    "target_clusters": t,
                    "group_test_batches": g,
                    "group_test_top_k": k,
                    "probe_query": None if p is None else BitMap(p),
                    "move_acceptance_probability": acc,
                },
            )
            for s in states
            for it in ((1, 3) if not deep else (1, 2, 3))
            for tol in (0, 0.6)
            for m in (1, 2)
            for t in (None, 1, 2, 4, 9)
            for g, k in ((0, 1), (None, 2), (1, 1), (2, 1), (3, 2))
            for p in (None, docs[:3])
            for acc in ((0.5,) if not deep else (0.5, 1.0, 0))
        ]
        with kit.opened(path) as idx:
            for state, kwargs in cases[part::parts]:
                one(R, idx, state, kwargs, refine.Alternating())
        R.sample(refine.describe(*cases[part]))


def job_choices(R, case, shard, shards, deep):
    """Every random outcome."""
    with workdir() as d:
        path, f = fixture(d)
        small = [
            (({f[0]: 0, f[1]: 0, f[3]: 2}, (), ()), {"iterations": 1}),
            (({f[0]: 0, f[1]: 2, f[3]: 3}, (), ()), {"iterations": 1, "target_clusters": 2}),
            (({f[0]: 0, f[1]: 0, f[3]: 4}, (f[1],), ()), {"iterations": 1, "target_clusters": 3}),
            (({f[0]: 0, f[1]: 0, f[3]: 0}, (), ()), {"iterations": 1, "target_clusters": 3}),
            (({f[0]: 0, f[1]: 2, f[3]: 2}, (f[3],), (0,)), {"iterations": 1, "target_clusters": 3, "cluster_ids": [2]}),
        ]
        large = [
            (({f[0]: 0, f[1]: 2, f[2]: 0, f[3]: 4, f[4]: 2, f[5]: 4}, (f[2],), ()), {"iterations": 2, "tolerance": 0}),
            (({f[0]: 0, f[1]: 2, f[2]: 0, f[3]: 2, f[4]: 4, f[5]: 0}, (f[2],), (4,)), {"iterations": 2, "target_clusters": 4}),
            (({f[0]: 0, f[1]: 2, f[2]: 0, f[3]: 2, f[4]: 4, f[5]: 5}, (f[2],), ()), {"iterations": 2, "target_clusters": 2}),
            (
                ({f[0]: 0, f[1]: 2, f[2]: 3, f[3]: 4, f[4]: 5, f[5]: 6}, (f[3],), ()),
                {"iterations": 2, "target_clusters": 3, "group_test_batches": 2, "group_test_top_k": 1},
            ),
            (({f[0]: 0, f[1]: 0, f[2]: 0, f[3]: 2, f[4]: 3}, (), ()), {"iterations": 1, "target_clusters": 5, "cluster_ids": [0]}),
        ]
        work = [(c, None) for c in small[:3]]
        work += [(c, None if deep else 3) for c in small[3:]]
        work += [(c, 3 if deep else 2) for c in large]
        with kit.opened(path) as idx:
            (state, kwargs), bound = work[case]

            def run(ch):
                one(R, idx, state, kwargs, RandomChoices(ch), ch.prefix)

            n, _ = explore(run, bound=bound, shard=(shard, shards))
            R.note("random outcomes", n)
            R.sample(refine.describe(state, kwargs))
