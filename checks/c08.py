"""
C08 Model operations are atomic and durable across process crashes.
"""

import os

from mc import kit, crash, wide
from mc.env import CTL, workdir
from checks.c04 import _diff
from checks.c07 import OPS, base, DOCS

TECHNIQUE = (
    "exhaustive enumeration of crash points (statement boundaries, bulk rows, log prefixes with torn frames) of real model operations, alone and after another operation"
)
NOTE = (
    "Every distinct file state at a statement boundary and every log prefix is recovered with a new Index object. "
    "Trusts SQLite's recovery and that a killed process leaves its writes in order."
)
LEVEL = "model_checking"
BOUNDS = {
    "quick": "12 operations on a model of 95 clusters and 2700 features, every committed state; 16 operations alone on 3 models and all pairs of them in a row on one object, all statement boundaries and log prefixes, normal and one-page cache",
    "thorough": "all pairs on 3 models and all triples on one, with 1 and 3 workers",
}
ASSUMPTIONS = ["a process crash loses nothing already written to the file system"]

OPS = dict(
    OPS,
    create_nothing=lambda i, f: i.create_cluster_from_features([]),
    refine_one=lambda i, f: i.refine_clusters(iterations=1, cluster_ids=i.cluster_ids[:2], target_clusters=3),
)


def many(path):
    """A larger model, with clusters larger than a page of the database."""
    docs = {f"k{i:04}": {"w": {i, i + 1, i * 7 % 50}} for i in range(0, 3000, 3)}
    kit.build(path, docs, positions=False, batch=1000)
    with kit.opened(path) as idx:
        idx.initialise_clusters(3, min_docs=1)
        idx.pin_clusters([1])


MODELS = {
    "pinned": None,
    "one": {0: 3},
    "empty": {},
}


def start(model):
    if model == "many":
        return kit.template("c08many", many)
    data = base()
    if MODELS[model] is None:
        return data

    def make(path):
        kit.write_db(path, data)
        fs = sorted(kit.features_of(path))
        with kit.raw(path) as c:
            kit.set_model(c, {fs[i]: k for i, k in MODELS[model].items()})

    return kit.template("c08" + model, make)


def jobs(tier, seed):
    names = list(OPS)
    out = [("alone", m, small) for m in MODELS for small in (False, True)]
    out += [("large", name) for name in ("create", "merge", "delete_features", "pin_clusters", "initialise")]
    out += [("wide", name) for name in WIDE]
    models = ["pinned"] if tier == "quick" else list(MODELS)
    out += [("pairs", m, n, 2) for m in models for n in names]
    if tier == "thorough":
        out += [("pairs", "pinned", n, w) for w in (1, 3) for n in names]
        out += [("triples", a, b) for a in names for b in names]
    return out


def crashes(R, d, idx, path, op, fs, label):
    """Run the operation, judging every crash state on the way."""
    R.context = label
    old = crash.visible(kit.dump(path))
    with crash.watched(path) as hook:
        op(idx, fs)
    new = crash.visible(kit.dump(path))
    R.run()
    R.step(hook.points)
    R.note("file states", len(hook.images))
    R.outcome(new["feature_cluster"])
    target = os.path.join(d, "crashed.db")
    cases = list(hook.images.values())
    cases.append(("the call returned", hook.final))
    # shorter prefixes show what earlier operations left
    begun = len(cases[0][1].get("-wal", b""))
    cases += [(f"log cut to {w}", f) for w, f in crash.wal_prefixes(hook.final, begun)]
    for what, files in cases:
        crash.write_image(target, files)
        with kit.opened(target):
            got = crash.recovered(target)
            R.state(got["feature_cluster"])
            R.run()
            if got != old and got != new:
                R.violation(
                    "a crash left neither the model before nor the complete model after the operation",
                    {"when": what, "differs": _diff(old, new, got)},
                )
                return
            if what == "the call returned" and got != new:
                R.violation("the effect of an operation is lost by a crash after it returned", {"when": what})
                return
            errors = kit.summary_errors(target)
            if not R.check(not errors, "wrong cluster summaries after a crash", {"when": what, "errors": errors}):
                return


def job_alone(R, model, small):
    with workdir() as d:
        if small:
            CTL.on_connect = crash.small_cache
        path = os.path.join(d, "i.db")
        for name, op in OPS.items():
            kit.write_db(path, start(model))
            fs = sorted(kit.features_of(path))
            with kit.opened(path) as idx:
                crashes(R, d, idx, path, op, fs, {"model": model, "operation": name})
        R.sample({"model": model, "operations": list(OPS)})


def job_large(R, name):
    with workdir() as d:
        CTL.on_connect = crash.small_cache
        path = kit.write_db(os.path.join(d, "i.db"), start("many"))
        fs = sorted(kit.features_of(path))
        with kit.opened(path) as idx:
            crashes(R, d, idx, path, OPS[name], fs[::60], {"model": "many", "operation": name})


def job_pairs(R, model, first, workers):
    with workdir() as d:
        path = os.path.join(d, "i.db")
        for second, op in OPS.items():
            kit.write_db(path, start(model))
            fs = sorted(kit.features_of(path))
            with kit.opened(path, workers=workers) as idx:
                OPS[first](idx, fs)
                crashes(R, d, idx, path, op, fs, {"model": model, "operations": [first, second]})


def job_triples(R, a, b):
    with workdir() as d:
        path = os.path.join(d, "i.db")
        for third, op in OPS.items():
            kit.write_db(path, start("pinned"))
            fs = sorted(kit.features_of(path))
            with kit.opened(path) as idx:
                OPS[a](idx, fs)
                OPS[b](idx, fs)
                crashes(R, d, idx, path, op, fs, {"operations": [a, b, third]})


WIDE = {
    "initialise": lambda i, f: i.initialise_clusters(300),
    "delete_clusters": lambda i, f: i.delete_clusters(i.cluster_ids[1:]),
    "merge": lambda i, f: i.merge_clusters(i.cluster_ids[:-1]),
    "delete_features": lambda i, f: i.delete_features(f[3:2200]),
    "create": lambda i, f: i.create_cluster_from_features(f[::2] + f[1:1000:2]),
    "create_all": lambda i, f: i.create_cluster_from_features(f),
    "pin_features": lambda i, f: i.pin_features(f[1:]),
    "unpin_features": lambda i, f: i.pin_features(f[:1500], False),
    "pin_clusters": lambda i, f: i.pin_clusters(i.cluster_ids),
    "refine": lambda i, f: i.refine_clusters(iterations=1),
    "refine_split": lambda i, f: i.refine_clusters(iterations=1, target_clusters=300),
    "refine_dissolve": lambda i, f: i.refine_clusters(iterations=1, target_clusters=7),
}


def wide_model(path):
    kit.write_db(path, wide.base())
    model = wide.model(kit.features_of(path), wide.SIZES)
    with kit.raw(path) as c:
        kit.set_model(c, model, tuple(model)[::9], (3, 90, 93))


def job_wide(R, name):
    """Hundreds of clusters and thousands of features: one step from before to after."""
    with workdir() as d:
        path = kit.write_db(os.path.join(d, "i.db"), kit.template("c08wide", wide_model))
        fs = sorted(kit.features_of(path))
        R.context = {"wide": name}
        with kit.opened(path, seed=2) as idx:
            with crash.observed(path, kit._model) as hook:
                WIDE[name](idx, fs)
                done = kit.model_of(path)
        R.run()
        R.step(hook.points)
        R.state(name)
        R.note("points looked at", hook.points)
        R.check(len(hook.seen) == 2, "an operation is stored in several steps", lambda: [w for w, _ in hook.seen])
        R.equal(hook.seen[-1][1] == kit.model_of(path) == done, True, "the effect of an operation is lost by a crash after it returned")
        R.check(not (e := kit.summary_errors(path)), "wrong summaries", lambda: e[:3])
