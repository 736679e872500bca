"""
C11 Refinement reaches the requested number of clusters.

Every distribution of features over clusters of the bounded blocks, every
target and minimum size, under default, alternating and explored random
outcomes.
"""

import itertools
import os

from mc import kit, refine
from mc.env import CTL, workdir
from mc.explore import Chooser, explore, RandomChoices
from checks.c10 import WIDE as BIG, fixture, job_wide  # noqa: F401

TECHNIQUE = "exhaustive exploration of cluster layouts, targets and random outcomes of the real refinement"
NOTE = (
    "All layouts of four features over three cluster ids with every target and minimum size, and all or bounded "
    "random outcomes of chosen layouts. The exact number after a split is decided for even splits; for arbitrary "
    "random splits only its limits."
)
LEVEL = "model_checking"
BOUNDS = {
    "quick": "layouts: all assignments of 4 features to ids {0,2,4}, targets none,1..5, minimum 1..2, iterations 1 and 2, "
    "even and all-to-one-side splits; pins: 5 features, all feature pins, all cluster pins, targets 1..6; "
    "grouped: every third distribution of 6 features over 4 clusters, 2 groups, targets 2 and 3; "
    "pace: 14 features in 2..11 clusters, every lower target, 1..7 iterations; "
    "wide: 10 calls on models of up to 700 clusters; choices: up to 2 deviations in seven layouts",
    "thorough": "layouts: 5 features, iterations 1..3, pace up to 14 clusters and 13 iterations, tolerance 0 and 0.3; choices: up to 3 deviations",
}
ASSUMPTIONS = ["random outcomes matter only through Random.random (either side of one half) and bounded integers"]


def jobs(tier, seed):
    deep = tier == "thorough"
    out = []
    n = 16 if not deep else 64
    for i in range(n):
        out.append(("layouts", i, n, deep))
    for i in range(8):
        out.append(("pins", i, 8, deep))
    for i in range(8):
        out.append(("grouped", i, 8, deep))
    for i in range(16):
        out.append(("pace", i, 16, deep))
    for case in range(len(BIG)):
        out.append(("wide", case))
    for case in range(7):
        for i in range(4):
            out.append(("choices", case, i, 4, deep))
    return out


def one(R, idx, state, kwargs, random, even, context=None):
    R.context = dict(refine.describe(state, kwargs), choices=context)
    R.run()
    R.step()
    before, after = refine.refine(idx, state, kwargs, random)
    R.state(before)
    refine.check_counts(R, before, after, kwargs, exact_split=even)
    errors = kit.summary_errors(idx.db_path)
    R.check(not errors, "cluster summaries wrong after refinement", errors)
    # what the interface lists is what is stored
    R.equal(idx.cluster_ids, [k for k, _ in after[0]], "the listed clusters are not the stored ones")
    R.outcome((before, after))


def job_layouts(R, part, parts, deep):
    with workdir() as d:
        path, f = fixture(d)
        work = [
            (a, {"target_clusters": t, "minimum_cluster_features": m, "iterations": it, "tolerance": tol})
            for a in kit.assignments(f[: 5 if deep else 4], [0, 2, 4], partial=False)
            for t in (None, 1, 2, 3, 4, 5)
            for m in ((1, 2) if not deep else (1, 2, 3))
            for it in ((1, 2) if not deep else (1, 2, 3))
            for tol in ((0,) if not deep else (0, 0.3))
        ]
        with kit.opened(path) as idx:
            for a, kwargs in work[part::parts]:
                one(R, idx, (a, (), ()), kwargs, refine.Alternating(), True)
                if not deep or kwargs["iterations"] > 1:
                    one(R, idx, (a, (), ()), kwargs, RandomChoices(Chooser()), False)
        R.sample(refine.describe((work[part][0], (), ()), work[part][1]))


def job_pins(R, part, parts, deep):
    with workdir() as d:
        path, f = fixture(d)
        layout = {f[0]: 0, f[1]: 0, f[2]: 2, f[3]: 4, f[4]: 4}
        work = [
            ((layout, pf, pc), {"iterations": it, "tolerance": 0, "target_clusters": t, "cluster_ids": s})
            for pf in kit.subsets(sorted(layout))
            for pc in kit.subsets([0, 2, 4])
            for t in (None, 1, 2, 3, 4, 6)
            for s in (None, [4, 0])
            for it in ((2,) if not deep else (1, 2, 3))
        ]
        with kit.opened(path) as idx:
            for state, kwargs in work[part::parts]:
                one(R, idx, state, kwargs, refine.Alternating(), True)
        R.sample(refine.describe(*work[part]))


def job_grouped(R, part, parts, deep):
    """Group testing together with targets."""
    with workdir() as d:
        path, f = fixture(d)
        fs = f[:6]
        layouts = [
            a
            for a in kit.assignments(fs, [0, 2, 3, 5], partial=False)
            if len(set(a.values())) == 4
        ]
        work = [
            (
                a,
                {
                    "iterations": 2,
                    "tolerance": 0,
                    "target_clusters": t,
                    "group_test_batches": 2,
                    "group_test_top_k": 1,
                },
            )
            for a in (layouts if deep else layouts[::3])
            for t in (2, 3)
        ]
        work += [(a, dict(k, target_clusters=t)) for a, k in work[::10] for t in (None, 5)]
        with kit.opened(path) as idx:
            for a, kwargs in work[part::parts]:
                one(R, idx, (a, (), ()), kwargs, refine.Alternating(), False)
        R.sample(refine.describe((work[part][0], (), ()), work[part][1]))


WIDE = {i: {"w": {c for j, c in enumerate("abcdefghijklmn") if (i * (j + 2)) % 7 in (0, 1, 3)}} for i in range(1, 16)}


def job_pace(R, part, parts, deep):
    """Clusters are dissolved over several iterations: every number of clusters, target and iterations."""
    with workdir() as d:
        path = kit.write_db(os.path.join(d, "i.db"), kit.template("c11wide", lambda p: kit.build(p, WIDE)))
        f = sorted(kit.features_of(path))
        top = 11 if not deep else len(f)
        work = [
            (n, t, it, pins, g)
            for n in range(2, top + 1)
            for t in range(1, n)
            for it in range(1, 8 if not deep else 14)
            for pins in ((), (0,))
            for g in ((None, 2) if deep or (n + t + it) % 3 == 0 else (None,))
            if not pins or deep or (n + it) % 2 == 0
        ]
        with kit.opened(path) as idx:
            for n, t, it, pins, g in work[part::parts]:
                layout = {x: i % n for i, x in enumerate(f)}
                kwargs = {"target_clusters": t, "iterations": it, "tolerance": 0, "group_test_batches": g}
                one(R, idx, (layout, tuple(f[i] for i in pins), ()), kwargs, RandomChoices(Chooser()), False)
        R.sample({"case": work[part]})


def job_choices(R, case, shard, shards, deep):
    with workdir() as d:
        path, f = fixture(d)
        cases = [
            ({f[0]: 0, f[1]: 2, f[2]: 0, f[3]: 2, f[4]: 4}, {"iterations": 2, "tolerance": 0}),
            (
                {f[0]: 0, f[1]: 2, f[2]: 0, f[3]: 2, f[4]: 4},
                {"iterations": 2, "tolerance": 0, "minimum_cluster_features": 2},
            ),
            ({f[0]: 0, f[1]: 2, f[2]: 3, f[3]: 4, f[4]: 5}, {"iterations": 3, "target_clusters": 2}),
            ({f[0]: 0, f[1]: 0, f[2]: 0, f[3]: 2, f[4]: 3}, {"iterations": 1, "target_clusters": 5}),
            (
                {f[0]: 0, f[1]: 0, f[2]: 2, f[3]: 2, f[4]: 3},
                {"iterations": 1, "target_clusters": 3, "cluster_ids": [0]},
            ),
            (
                {f[0]: 0, f[1]: 2, f[2]: 3, f[3]: 4, f[4]: 5, f[5]: 6, f[6]: 7},
                {"iterations": 2, "target_clusters": 4, "group_test_batches": 2, "group_test_top_k": 1},
            ),
            # group testing prunes clusters 3 and 5 for every feature
            (
                {f[0]: 0, f[1]: 2, f[4]: 3, f[6]: 5},
                {"iterations": 2, "target_clusters": 3, "group_test_batches": 2, "group_test_top_k": 1},
            ),
        ]
        layout, kwargs = cases[case]
        with kit.opened(path) as idx:

            def run(ch):
                one(R, idx, (layout, (), ()), kwargs, RandomChoices(ch), False, ch.prefix)

            n, _ = explore(run, bound=3 if deep else 2, shard=(shard, shards))
            R.note("random outcomes", n)
        R.sample(refine.describe((layout, (), ()), kwargs))
