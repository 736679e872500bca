"""
C07 A failed or interrupted model operation has no effect and leaves no residue.

For every model operation: one run without faults counts the fault points
(statements of the program and of background tasks, rows of bulk statements,
submissions, tasks, waits), then one run per point injects the fault there.
"""

import os
import sqlite3

from pyroaring import BitMap

from mc import kit, faults, wide
from mc.env import CTL, workdir

TECHNIQUE = (
    "exhaustive single fault enumeration on the real code (every statement, bulk row, background task, submission and wait)"
)
NOTE = (
    "Every fault point of every listed operation is injected once; the stored tables and the following operation on the same object are compared. Trusts that a failed SQLite statement has no effect, or rolls everything back."
)
LEVEL = "fault_enumeration"
RULE = (
    "one execution per (operation, fault point); points are all statements, bulk rows, "
    "submissions, background tasks and waits of that operation; non-trivial: the fault fired"
)
BOUNDS = {
    "quick": "8 operations on a model of 95 clusters and 2700 features, the first, last and some middle fault points of each kind; single fault, every point of 15 operations and 6 rejected calls; 9-feature index, 3 clusters",
    "thorough": "as quick plus faults during the second of two operations and 3 worker counts",
}
ASSUMPTIONS = ["a statement that fails has no effect (SQLite statement atomicity)"]

# two more features than the shared fixture
DOCS = {
    **kit.DOCS_A,
    "d6": {"text": ["e", "a"], "tag": {"w", "z"}},
}

OPS = {
    "initialise": lambda i, f: i.initialise_clusters(3, min_docs=1, include_fields=["text", "tag"]),
    "initialise_all": lambda i, f: i.initialise_clusters(2, min_docs=2),
    "delete_clusters": lambda i, f: i.delete_clusters([1, 5]),
    "merge": lambda i, f: i.merge_clusters([5, 1, 2]),
    "delete_features": lambda i, f: i.delete_features(f[:3]),
    "create": lambda i, f: i.create_cluster_from_features([f[0], f[3], f[7]]),
    "pin_features": lambda i, f: i.pin_features([f[1], f[2]]),
    "unpin_features": lambda i, f: i.pin_features([f[0], f[1]], False),
    "pin_clusters": lambda i, f: i.pin_clusters([1, 2]),
    "unpin_clusters": lambda i, f: i.pin_clusters([5, 1], False),
    "refine": lambda i, f: i.refine_clusters(iterations=2, tolerance=0),
    "refine_more": lambda i, f: i.refine_clusters(iterations=4, tolerance=0, move_acceptance_probability=1, target_clusters=4),
    "refine_split": lambda i, f: i.refine_clusters(iterations=1, target_clusters=5),
    "refine_dissolve": lambda i, f: i.refine_clusters(iterations=2, target_clusters=2),
    "refine_grouped": lambda i, f: i.refine_clusters(
        iterations=1, group_test_batches=1, probe_query=BitMap([0, 1, 2])
    ),
}

# calls that must be rejected by themselves
REJECTED = {
    "create_unknown": lambda i, f: i.create_cluster_from_features([f[0], 9999]),
    "create_unhashable": lambda i, f: i.create_cluster_from_features([f[0], object()]),
    "merge_nothing": lambda i, f: i.merge_clusters([]),
    "pin_bad": lambda i, f: i.pin_features([f[2], object()]),
    "delete_bad": lambda i, f: i.delete_features([f[2], object()]),
    "refine_zero": lambda i, f: i.refine_clusters(iterations=0),
}


def base():
    def make(path):
        kit.build(path, DOCS)
        with kit.raw(path) as c:
            fs = sorted(kit.features_of(path))
            kit.set_model(
                c,
                {fs[0]: 1, fs[1]: 1, fs[2]: 2, fs[3]: 2, fs[4]: 5, fs[5]: 1, fs[6]: 2},
                (fs[0],),
                (5,),
            )

    return kit.template("c07", make)


def jobs(tier, seed):
    workers = [2] if tier == "quick" else [1, 2, 4]
    out = [("faults", name, w, parts, 0) for name in OPS for w in workers for parts in (0, 1)]
    out += [("wide", name, part, 2) for name in WIDE for part in range(2)]
    out += [("rejected", name) for name in REJECTED]
    if tier == "thorough":
        out += [("faults", name, 2, part, 1) for name in OPS for part in (0, 1)]
    return out


def probe_after(R, idx, path, fs, message):
    """The object works: no stale snapshot, no lock, next edit durable."""
    with kit.raw(path) as c:
        try:
            c.execute("begin immediate")
            c.execute("rollback")
        except sqlite3.OperationalError as e:
            R.violation(f"{message}: the index stays locked", str(e))
            return
    with kit.opened(path) as other:
        other.pin_features([fs[5]], True)
        new = other.create_cluster_from_features([fs[4]])
    if not R.check(
        new in idx.cluster_ids,
        f"{message}: the object keeps seeing an old state",
    ):
        return
    before = kit.model_of(path)
    try:
        created = idx.create_cluster_from_features([fs[6], fs[5]])
    except Exception as e:
        R.violation(f"{message}: the next operation fails", repr(e))
        return
    want = {f: k for k, members in before[0] for f in members}
    want[fs[6]] = want[fs[5]] = created
    R.equal(
        kit.model_of(path),
        kit.model_tuple(want, before[1], before[2]),
        f"{message}: the next operation is not durable",
    )
    errors = kit.summary_errors(path)
    R.check(not errors, f"{message}: wrong summaries after the next operation", errors)


def job_faults(R, name, workers, part, second):
    op = OPS[name]
    parts = 2
    with workdir() as d:
        path = kit.write_db(os.path.join(d, "i.db"), base())
        fs = sorted(kit.features_of(path))
        with kit.opened(path, workers=workers) as idx:
            prepare(idx, fs, second)
            old = kit.dump(path)
            with faults.injected() as counter:
                op(idx, fs)
            total = len(counter.points)
            new = kit.dump(path)
        R.sample({"operation": name, "fault points": total, "first": counter.points[:3]})
        R.note("fault points", total if part == 0 else 0)
        for k in range(part, total, parts):
            kit.write_db(path, base())
            R.run()
            R.step()
            with kit.opened(path, workers=workers) as idx:
                prepare(idx, fs, second)
                at_fire = {}

                def on_fire():
                    at_fire["dump"] = kit.dump(path)

                raised = None
                with faults.injected(k, on_fire) as counter:
                    try:
                        op(idx, fs)
                    except BaseException as e:
                        if not isinstance(e, (Exception, KeyboardInterrupt)):
                            raise
                        raised = repr(e)
                point = counter.fired
                R.context = {"operation": name, "fault": point, "number": k}
                if point is None:
                    # nothing fired: the point does not exist on this path
                    R.note("not reached")
                    continue
                R.case((name, point, k))
                got = kit.dump(path)
                R.state(got)
                R.outcome((raised is not None, got == old))
                if raised is None:
                    R.equal(got, new, "an operation hit by a fault did not raise and is not complete")
                    R.violation("a failed or interrupted operation does not raise", (name, point))
                elif at_fire["dump"] != old:
                    # already durable when the fault came
                    R.equal(got, at_fire["dump"], "a fault after completion changed the model")
                else:
                    if not R.check(
                        got == old,
                        "a failed operation changed the stored model",
                        lambda: diff(old, got),
                    ):
                        continue
                probe_after(R, idx, path, fs, "after a failed operation")


def diff(a, b):
    return {
        t: {"before": repr(a.get(t))[:600], "after": repr(b.get(t))[:600]}
        for t in set(a) | set(b)
        if a.get(t) != b.get(t)
    }


def prepare(idx, fs, second):
    if second:
        idx.create_cluster_from_features([fs[7], fs[2]])


def job_rejected(R, name):
    with workdir() as d:
        path = kit.write_db(os.path.join(d, "i.db"), base())
        fs = sorted(kit.features_of(path))
        with kit.opened(path) as idx:
            old = kit.dump(path)
            R.context = {"call": name}
            R.run()
            R.step()
            R.case(name)
            try:
                REJECTED[name](idx, fs)
            except Exception:
                pass
            else:
                R.violation("an invalid call was accepted")
            R.check(
                kit.dump(path) == old,
                "a rejected call changed the stored model",
                lambda: diff(old, kit.dump(path)),
            )
            probe_after(R, idx, path, fs, "after a rejected call")


WIDE = {
    "initialise": lambda i, f: i.initialise_clusters(300),
    "delete_clusters": lambda i, f: i.delete_clusters(i.cluster_ids[1:]),
    "merge": lambda i, f: i.merge_clusters(i.cluster_ids[:-1]),
    "delete_features": lambda i, f: i.delete_features(f[3:2200]),
    "create": lambda i, f: i.create_cluster_from_features(f[::2] + f[1:1000:2]),
    "pin_features": lambda i, f: i.pin_features(f[1:]),
    "pin_clusters": lambda i, f: i.pin_clusters(i.cluster_ids, False),
    "refine_split": lambda i, f: i.refine_clusters(iterations=1, target_clusters=300),
}


def wide_model(path):
    kit.write_db(path, wide.base(n=900, words=700))
    model = wide.model(kit.features_of(path), wide.SIZES)
    with kit.raw(path) as c:
        kit.set_model(c, model, tuple(model)[::9], (3, 90, 93))


def job_wide(R, name, part, parts):
    """The same with thousands of features."""
    op = WIDE[name]
    with workdir() as d:
        data = kit.template("c07wide", wide_model)
        path = kit.write_db(os.path.join(d, "i.db"), data)
        fs = sorted(kit.features_of(path))
        old = kit.model_of(path)
        with kit.opened(path, seed=3) as idx, faults.injected() as counter:
            op(idx, fs)
        new = kit.model_of(path)
        points = faults.chosen(counter.points)
        R.note("fault points", len(points) if not part else 0)
        for k in points[part::parts]:
            kit.write_db(path, data)
            R.run()
            R.step()
            with kit.opened(path, seed=3) as idx:
                stored = []
                raised = None
                with faults.injected(k, lambda: stored.append(kit.model_of(path))) as counter:
                    try:
                        op(idx, fs)
                    except BaseException as e:
                        if not isinstance(e, (Exception, KeyboardInterrupt)):
                            raise
                        raised = repr(e)
                R.context = {"wide": name, "fault": counter.fired, "number": k}
                if counter.fired is None:
                    R.note("not reached")
                    continue
                R.case((name, counter.fired, k))
                got = kit.model_of(path)
                R.state((name, k))
                R.outcome((raised is not None, got == old))
                if raised is not None:
                    R.check(got == stored[0], "a failed operation changed the stored model")
                    R.check(stored[0] in (old, new), "a failed operation stored a part of its effect")
                else:
                    R.check(got == new, "an operation hit by a fault did not raise and is not complete")
                    R.violation("a failed or interrupted operation does not raise", (name, k))
                probe_after(R, idx, path, fs, "after a failed operation")
