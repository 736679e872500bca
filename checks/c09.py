"""
C09 Concurrent edits of one index never lose or mix updates.

Two (three) Index objects on the same files run one operation each in threads
that interleave at every database statement. The outcome must be that of the
successful operations one after the other in some order, computed by running
them that way.
"""

import itertools
import os
import sqlite3

from mc import kit
from mc.env import CTL, workdir
from mc.explore import explore
from mc.sched import Scheduler, SchedSqlHook

TECHNIQUE = (
    "stateless model checking of the real code: all interleavings of the database statements of two or three operations up to a "
    "preemption bound, lock conflicts resolved both ways, against all serial orders"
)
NOTE = (
    "Complete within the preemption bound for every pair of the alphabet. SQLite itself arbitrates; a lock wait either "
    "continues when another operation made progress or times out. Background tasks run within their operation's turn."
)
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all pairs of 16 operations (3 of them readers) with 1 preemption or timeout, 26 pairs with 2",
    "thorough": "all pairs with 2, selected pairs with 3, triples of 8 edits with 1",
}
ASSUMPTIONS = [
    "statements are atomic with respect to each other (SQLite)",
    "background tasks only read committed documents, which only indexing changes",
]

DOCS = kit.DOCS_A
# refining and splitting this model moves features
MODEL = {0: 1, 3: 1, 5: 1, 1: 2, 4: 2, 2: 5, 6: 5}


def ids(fs, which):
    return [fs[i] for i in which]


def other(idx, docs):
    idx.corpus = kit.MemCorpus(docs)
    idx.index(doc_batch_size=2)


OPS = {
    "create": lambda i, f: i.create_cluster_from_features(ids(f, (0, 1))),
    "create other": lambda i, f: i.create_cluster_from_features(ids(f, (3, 2))),
    "merge": lambda i, f: i.merge_clusters([2, 1]),
    "merge other": lambda i, f: i.merge_clusters([1, 5, 2]),
    "delete cluster": lambda i, f: i.delete_clusters([1]),
    "delete features": lambda i, f: i.delete_features(ids(f, (1, 4))),
    "pin": lambda i, f: i.pin_features(ids(f, (0, 2, 3))),
    "pin cluster": lambda i, f: i.pin_clusters([1, 2]),
    "initialise": lambda i, f: i.initialise_clusters(2, include_fields=["text"]),
    "refine": lambda i, f: i.refine_clusters(iterations=1, tolerance=0, move_acceptance_probability=1),
    "split": lambda i, f: i.refine_clusters(iterations=1, target_clusters=5),
    "dissolve": lambda i, f: i.refine_clusters(iterations=1, target_clusters=2),
    "index": lambda i, f: other(i, kit.DOCS_B),
}
READERS = {
    "list": lambda i, f: i.top_cluster_features(),
    "sample": lambda i, f: [
        {k: tuple(v) for k, v in part.items()} for part in i.structured_doc_sample(1)
    ],
    "windows": lambda i, f: len(list(i.union_bitslice([f[0], f[2]])[0])),
}
ALL = dict(OPS, **READERS)
SELECTED = [
    ("create", "create other"),
    ("create", "create"),
    ("create", "merge"),
    ("create", "refine"),
    ("create", "split"),
    ("create", "initialise"),
    ("create", "delete features"),
    ("create", "index"),
    ("merge", "merge other"),
    ("merge", "delete cluster"),
    ("merge", "pin cluster"),
    ("merge", "split"),
    ("merge", "index"),
    ("delete cluster", "pin"),
    ("delete cluster", "delete features"),
    ("delete features", "refine"),
    ("pin", "refine"),
    ("pin", "index"),
    ("pin cluster", "refine"),
    ("initialise", "split"),
    ("split", "split"),
    ("index", "index"),
    ("create", "list"),
    ("merge", "list"),
    ("merge", "sample"),
    ("initialise", "sample"),
]
EDITS = ["create", "create other", "merge", "delete cluster", "delete features", "pin", "split", "initialise"]


def jobs(tier, seed):
    pairs = [
        p
        for p in itertools.combinations_with_replacement(ALL, 2)
        if not (p[0] in READERS and p[1] in READERS)
    ]
    out = []
    if tier == "quick":
        out += [("schedules", p, 1, 0, 1) for p in pairs if p not in SELECTED]
        out += [("schedules", p, 2, i, 8 if p == ("index", "index") else 2) for p in SELECTED for i in range(8 if p == ("index", "index") else 2)]
    else:
        out += [("schedules", p, 2, i, 4) for p in pairs if p not in SELECTED for i in range(4)]
        out += [("schedules", p, 3, i, 32) for p in SELECTED[::2] for i in range(32)]
        out += [("schedules", p, 2, i, 4) for p in SELECTED[1::2] for i in range(4)]
        out += [("schedules", t, 1, 0, 1) for t in itertools.combinations(EDITS, 3)]
    return out


def base():
    def make(path):
        kit.build(path, DOCS)
        fs = sorted(kit.features_of(path))
        with kit.raw(path) as c:
            kit.set_model(c, {fs[i]: k for i, k in MODEL.items()}, (fs[4],), (5,))

    return kit.template("c09", make)


def outcome_of(path, results):
    """What users can tell afterwards."""
    d = kit.dump(path)
    docs = {i: k for i, k in d["doc_key"]}
    index = sorted(
        (row[1], repr(row[2]), sorted(docs.get(x, x) for x in row[4])) for row in d["inverted_index"] if row[4]
    )
    return (kit.model_of(path), tuple(repr(r) for r in results), repr(index), repr(d["field_summary"]))


_serial = {}


def serial(d, names, order):
    """Outcome of running the operations names[i] for i in order, one after the other."""
    key = (names, order)
    if key not in _serial:
        path = kit.write_db(os.path.join(d, "serial.db"), base())
        fs = sorted(kit.features_of(path))
        results = [None] * len(names)
        indexes = [kit.open_index(path) for _ in names]
        for i in order:
            results[i] = ALL[names[i]](indexes[i], fs)
        for idx in indexes:
            idx.close()
        _serial[key] = outcome_of(path, results)
    return _serial[key]


def job_schedules(R, names, bound, shard, shards):
    names = tuple(names)
    _serial.clear()
    with workdir() as d:
        path = os.path.join(d, "i.db")
        data = base()

        def run(ch):
            kit.write_db(path, data)
            fs = sorted(kit.features_of(path))
            R.context = {"operations": names, "schedule": None}
            indexes = [kit.open_index(path) for _ in names]
            sched = Scheduler(ch)
            hook = SchedSqlHook(sched, ch, filter=lambda conn, sql: getattr(conn, "mc_role", "") != "worker")
            results = [None] * len(names)
            failed = {}

            def body(i):
                try:
                    results[i] = ALL[names[i]](indexes[i], fs)
                except Exception as e:
                    failed[i] = e.__traceback__ and f"{type(e).__name__}: {e}"
                    if not isinstance(e, sqlite3.Error):
                        failed[i] = "!" + failed[i]

            for i in range(len(names)):
                sched.spawn(lambda i=i: body(i), names[i])
            CTL.sql_hook = hook
            try:
                sched.run()
            finally:
                CTL.sql_hook = None
            R.run()
            R.step(sched.points)
            R.context = {"operations": names, "schedule": ch.choices, "failed": dict(failed)}
            judge(R, d, path, names, results, failed, hook.conflicts, indexes)
            for idx in indexes:
                idx.close()

        n, capped = explore(run, bound=bound, shard=(shard, shards))
        R.note("schedules", n)
        R.sample({"operations": names, "schedules": n, "bound": bound})


def judge(R, d, path, names, results, failed, conflicts, indexes):
    done = tuple(i for i in range(len(names)) if i not in failed)
    for i, e in failed.items():
        results[i] = None
        if e.startswith("!"):
            R.violation("an operation fails for another reason than a conflict", e)
            return
        if names[i] in READERS:
            R.violation("a reader fails because of a concurrent edit", e)
            return
    if failed and not conflicts:
        R.violation("an operation fails without a conflict", repr(failed))
        return
    got = outcome_of(path, results)
    R.state((names, got[0], tuple(sorted(failed))))
    R.outcome((names, got, tuple(sorted(failed))))
    orders = list(itertools.permutations(done))
    if got not in [serial(d, names, o) for o in orders]:
        R.violation(
            "the outcome is not that of the successful operations one after the other",
            {
                "model": got[0],
                "results": got[1],
                "serial": [(o, serial(d, names, o)[:2]) for o in orders],
            },
        )
        return
    errors = kit.summary_errors(path)
    R.check(not errors, "wrong cluster summaries after concurrent edits", errors)
    for idx in indexes:
        R.check(not idx.db.in_transaction, "a transaction is left open")
