"""
C04 Indexing is all-or-nothing for crashes and for concurrent readers.
"""

import os

from mc import kit, crash, wide
from mc.env import CTL, workdir
from mc.explore import explore
from checks.c03 import clustered, Order

TECHNIQUE = (
    "exhaustive enumeration of crash points (statement boundaries, bulk rows, write-ahead log prefixes with torn frames) "
    "and reader positions of real indexing runs"
)
NOTE = (
    "Every distinct file state at a statement boundary and every log prefix is recovered with a new Index object; a second "
    "connection looks at the same moments. Trusts SQLite's recovery and that a killed process leaves its writes in order."
)
LEVEL = "model_checking"
BOUNDS = {
    "quick": "reindexing 95 clusters of 2300 documents with 1700 others, in batches of 2000, 1000 and 90, every committed state; first index and reindex of a clustered, pinned index, batches of 1, 2, 5, workers 1-3, with and without "
    "positions, all statement boundaries and log prefixes, with the normal and with a one-page cache, 3 completion orders; completion orders up to one deviation",
    "thorough": "as quick with completion orders up to two deviations and two indexing runs in a row",
}
ASSUMPTIONS = ["a process crash loses nothing already written to the file system"]

SCENARIOS = [
    # start, documents, workers, batch, positions
    ("clustered", "B", 2, 2, True),
    ("clustered", "B", 1, 1, True),
    ("clustered", "B", 3, 1, False),
    ("clustered", "A", 2, 5, True),
    ("clustered", "none", 2, 2, True),
    ("empty", "A", 2, 2, True),
    ("empty", "B", 1, 5, False),
    ("plain", "B", 2, 1, True),
]
DOCS = {"A": kit.DOCS_A, "B": dict(kit.DOCS_B, d7={"text": ["z", "a"], "tag": set()}), "none": {}}


def jobs(tier, seed):
    out = []
    for i in range(len(SCENARIOS)):
        for order in (0, 1, 3):
            out.append(("crash", i, order, False))
            out.append(("crash", i, order, True))
    out += [("wide", batch, positions) for batch, positions in ((1000, True), (90, True), (90, False), (2000, True))]
    if tier == "thorough":
        out += [("orders", i, part, 32, 2, True) for i in range(len(SCENARIOS)) for part in range(32)]
    else:
        out += [("orders", i, part, 2, 1, False) for i in range(len(SCENARIOS)) for part in range(2)]
    return out


def base(start):
    builders = {
        "clustered": clustered,
        "empty": lambda p: kit.opened(p).__enter__().close(),
        "plain": lambda p: kit.build(p, kit.DOCS_A, positions=False),
    }
    return kit.template("c04" + start, builders[start])


def job_crash(R, i, order, small):
    with workdir() as d:
        if small:
            CTL.on_connect = crash.small_cache
        once(R, d, i, Order(order), ("order", order))


def job_orders(R, i, part, parts, bound, again):
    with workdir() as d:
        explore(
            lambda ch: once(R, d, i, lambda n, tag: ch.choose(n, tag), ch, again),
            bound=bound,
            shard=(part, parts),
        )


def once(R, d, i, order, label, again=False):
    start, docs, workers, batch, positions = SCENARIOS[i]
    path = kit.write_db(os.path.join(d, "i.db"), base(start))
    allowed_history = []
    for round_ in range(2 if again else 1):
        corpus = kit.MemCorpus(DOCS[docs] if round_ == 0 else DOCS["A"])
        with kit.opened(path, corpus, workers=workers) as idx:
            R.context = {"scenario": SCENARIOS[i], "order": repr(getattr(label, "choices", label)), "round": round_}
            old = crash.visible(kit.dump(path))
            CTL.order = order
            try:
                with crash.watched(path) as hook:
                    idx.index(doc_batch_size=batch, workers=workers, index_positions=positions)
            finally:
                CTL.order = None
            new = crash.visible(kit.dump(path))
            R.run()
            R.step(hook.points)
            R.note("file states", len(hook.images))
            judge_reader(R, hook, old, new)
            judge_images(R, d, hook, old, new)
    R.sample({"scenario": SCENARIOS[i], "statement boundaries": hook.points, "file states": len(hook.images)})


def judge_reader(R, hook, old, new):
    state = "old"
    for what, content in hook.seen:
        R.state(content)
        if content == new and (state == "new" or content != old):
            state = "new"
        elif content == old and state == "old":
            pass
        else:
            R.violation(
                "a reader saw neither the previous nor the complete new state"
                if content != old
                else "a reader saw the previous state after the new one",
                {"when": what, "differs": _diff(old, new, content)},
            )
            return
    R.outcome([c == new for _, c in hook.seen])


def judge_images(R, d, hook, old, new):
    target = os.path.join(d, "crashed.db")
    cases = [(what, files) for what, files in hook.images.values()]
    cases.append(("the call returned", hook.final))
    begun = len(cases[0][1].get("-wal", b""))
    cases += [(f"log cut to {w}", f) for w, f in crash.wal_prefixes(hook.final, begun)]
    for n, (what, files) in enumerate(cases):
        crash.write_image(target, files)
        with kit.opened(target) as again:
            got = crash.recovered(target)
            R.state(("crash", got))
            R.run()
            if got != old and got != new:
                R.violation(
                    "a crash left neither the previous nor the complete new state",
                    {"when": what, "differs": _diff(old, new, got)},
                )
                return
            if what == "the call returned" and got != new:
                R.violation("the complete new state is lost by a crash after the call returned", {"when": what})
                return
            errors = kit.summary_errors(target)
            if not R.check(not errors, "wrong cluster summaries after a crash", {"when": what, "errors": errors}):
                return
            if n % 7 == 0:
                # usable through the library
                for k in again.cluster_ids:
                    again.cluster_docs(k)
                again.create_cluster_from_features([])


def _diff(old, new, got):
    if isinstance(got, str):
        return got
    return {
        t: {"old": repr(old[t])[:500], "new": repr(new[t])[:500], "got": repr(got[t])[:500]}
        for t in got
        if got[t] != old[t] or got[t] != new[t]
    }


def wide_start(path):
    kit.write_db(path, wide.base())
    model = wide.model(kit.features_of(path), wide.SIZES)
    with kit.raw(path) as c:
        kit.set_model(c, model, tuple(model)[::9], (3, 90, 93))


def job_wide(R, batch, positions):
    """Thousands of documents: every committed state."""
    with workdir() as d:
        path = kit.write_db(os.path.join(d, "i.db"), kit.template("c04wide", wide_start))
        R.context = {"wide": batch, "positions": positions}
        with kit.opened(path, kit.MemCorpus(wide.docs(n=1700, shift=900))) as idx:
            with crash.observed(path) as hook:
                idx.index(doc_batch_size=batch, index_positions=positions)
                done = crash.visible(kit.dump(path))
        R.run()
        R.step(hook.points)
        R.state((batch, positions))
        R.note("points looked at", hook.points)
        R.check(len(hook.seen) == 2, "a reader saw neither the previous nor the complete new state", lambda: [w for w, _ in hook.seen])
        R.check(
            hook.seen[-1][1] == done == crash.visible(kit.dump(path)), "the complete new state is lost by a crash after the call returned"
        )
        R.check(not (e := kit.summary_errors(path)), "wrong summaries", lambda: e[:3])
