"""
C06 Model edits do exactly what they say and nothing else.

Complete one-step check: every model state over a bounded set of features,
cluster ids and pins, times every edit of the alphabet, on one live Index
object, against reference transitions; initialisation under every outcome of
its shuffle; two-step histories with reopening.
"""

import itertools
import os

from mc import kit, editref, wide
from mc.env import CTL, workdir
from mc.explore import explore, RandomChoices

TECHNIQUE = (
    "explicit-state enumeration of all model states x edits on the real Index, against reference transitions"
)
NOTE = (
    "Complete within the bounds: every state over 3 features, 3 cluster ids and all pins times every edit, every shuffle of initialisation. Trusts SQLite and the reference transitions in mc/editref.py."
)
LEVEL = "model_checking"
BOUNDS = {
    "quick": "3 model features of 7, cluster ids {0,2,5}, all feature and cluster pins; 62 edits; 11 edits of thousands of features; "
    "initialisation: all shuffles of <=5 features x clusters 1..7 x min_docs 1..3 x field selections",
    "thorough": "4 model features of 7, cluster ids {0,1,2,7}, all pins; 62 edits; "
    "initialisation: all shuffles of <=6 features; all two-edit histories from seven states",
}
ASSUMPTIONS = ["SQLite implements its documented semantics"]

DOCS = kit.DOCS_A


def base():
    return kit.template("c06", lambda p: kit.build(p, DOCS))


def jobs(tier, seed):
    out = []
    if tier == "quick":
        for i in range(16):
            out.append(("edits", 3, [0, 2, 5], i, 16))
        for i in range(4):
            out.append(("histories", i, 4, 1))
    else:
        for i in range(64):
            out.append(("edits", 4, [0, 1, 2, 7], i, 64))
        for i in range(32):
            out.append(("histories", i, 32, 0))
    out.append(("wide",))
    sizes = [("tag",), ("text",), ("text", "tag"), None, ("absent",), ("tag", "tag")]
    for fields in sizes:
        for min_docs in (1, 2, 3):
            out.append(("initialise", fields, min_docs, 5 if tier == "quick" else 6))
    return out


def job_edits(R, n, cluster_ids, part, parts):
    with workdir() as d:
        path = kit.write_db(os.path.join(d, "i.db"), base())
        known = kit.features_of(path)
        ids = sorted(known)
        # features of both fields take part
        fs = [ids[0], ids[-1], ids[len(ids) // 2], ids[1]][:n]
        out = [f for f in ids if f not in fs][0]
        ops = editref.operations(fs, out, cluster_ids, 99, 9999)
        states = []
        for a in kit.assignments(fs, cluster_ids):
            for pf in kit.subsets(sorted(a)):
                for pc in kit.subsets(sorted(set(a.values()))):
                    states.append((a, pf, pc))
        with kit.opened(path) as idx, kit.raw(path) as c:
            before = _rest(c)
            for s in states[part::parts]:
                R.state(kit.model_tuple(*s))
                kit.set_model(c, *s)
                dirty = False
                for op in ops:
                    if dirty:
                        kit.set_model(c, *s)
                    R.context = {"state": [kit.model_tuple(*s)], "edit": op}
                    dirty = step(R, idx, c, s, op, known)
            R.equal(_rest(c), before, "edits changed the indexed content")
        R.sample({"state": kit.model_tuple(*states[-1]), "edits": ops[:5]})


def job_wide(R):
    """Thousands of features and arguments."""
    with workdir() as d:
        path = kit.write_db(os.path.join(d, "i.db"), wide.base())
        known = kit.features_of(path)
        fs = sorted(known)
        start = wide.model(fs, wide.SIZES)
        ids = sorted(set(start.values()))
        s = (start, tuple(sorted(start)[::3]), tuple(ids[::4]))
        ops = [
            ("pin_features", fs[1:1800], True),
            ("pin_features", fs[:1500], False),
            ("pin_clusters", ids[:80], True),
            ("pin_clusters", ids[1:], False),
            ("delete_features", fs[5:1400]),
            ("delete_clusters", ids[3:90]),
            ("merge_clusters", ids[::-1]),
            ("merge_clusters", ids[:2] + ids[40:]),
            ("create_cluster_from_features", fs[100:2300]),
            ("create_cluster_from_features", fs),
            ("create_cluster_from_features", fs + [10**6]),
        ]
        # thousands of clusters as well
        many = (wide.model(fs, [1] * 2600), tuple(fs[:2600:5]), tuple(range(0, 7800, 12)))
        some = list(range(0, 7800, 3))
        cases = [(s, op) for op in ops] + [
            (many, op)
            for op in (
                ("delete_clusters", some[7:2500]),
                ("merge_clusters", some[::-1]),
                ("merge_clusters", some[3:2300]),
                ("pin_clusters", some[5:], True),
                ("pin_clusters", some, False),
                ("pin_features", fs[:2500], True),
                ("delete_features", fs[1:2599]),
                ("create_cluster_from_features", fs[2:2598]),
            )
        ]
        with kit.opened(path) as idx, kit.raw(path) as c:
            before = _rest(c)
            for n, (s, op) in enumerate(cases):
                kit.set_model(c, *s)
                R.context = {"wide": n, "edit": op[0]}
                R.state(("wide", n))
                step(R, idx, c, s, op, known)
            R.equal(_rest(c), before, "edits changed the indexed content")
            for n, least in ((1, 1), (700, 1), (5000, 2), (64, 5)):
                R.context = {"wide initialise": n, "min_docs": least}
                R.run()
                R.step()
                idx.initialise_clusters(n, min_docs=least)
                (clusters, pf, pc) = kit.model_of(path)
                wanted = sorted(f for f in fs if len(idx[f]) >= least)
                R.equal(sorted(f for _, m in clusters for f in m), wanted, "initialisation chose the wrong features")
                sizes = {len(m) for _, m in clusters}
                R.check(len(clusters) == min(n, len(wanted)) and max(sizes) - min(sizes) <= 1, "initialisation is not as even as possible", sorted(sizes))
                R.equal((pf, pc), ((), ()), "pins survived initialisation")
                R.check(not (e := kit.summary_errors(path)), "summaries wrong after initialisation", lambda: e[:3])


def _rest(c):
    d = kit.dump(c)
    for t in ("feature_cluster", "cluster", "changed_cluster"):
        d.pop(t, None)
    return d


def step(R, idx, c, s, op, known):
    """Run one edit and compare; returns True if the state changed."""
    R.step()
    R.run()
    want_state, want_result, rejected = s, None, False
    try:
        want_state, want_result = editref.apply(s, op, known)
    except editref.Rejected:
        rejected = True
    try:
        got = editref.call(idx, op)
        failed = None
    except Exception as e:
        failed = e
    if rejected:
        R.check(failed is not None, "an edit naming an unknown feature was accepted")
    elif failed is not None:
        raise failed
    elif want_result is not None and op[0] != "create_cluster_from_features":
        R.equal(got, want_result, f"{op[0]} returned the wrong cluster")
    model = kit._model(c)
    want = kit.model_tuple(*want_state)
    if op[0] == "create_cluster_from_features" and not rejected and op[1]:
        # any id above all existing ones will do
        old = set(s[0].values())
        new = [k for k, fs in model[0] if set(op[1]) & set(fs)]
        R.check(
            len(new) == 1 and new[0] == got and all(got > k for k in old),
            "the created cluster does not have a new highest id",
            {"got": got, "model": model},
        )
        ren = {f: (got if f in op[1] else k) for f, k in want_state[0].items()}
        want = kit.model_tuple(ren, want_state[1], want_state[2])
    R.equal(model, want, f"{op[0]} did not do exactly what it says")
    errors = kit.summary_errors(idx.db_path)
    R.check(not errors, f"cluster summaries wrong after {op[0]}", errors)
    # what the interface reports
    R.equal(idx.cluster_ids, [k for k, _ in want[0]], f"cluster_ids after {op[0]}")
    R.equal(sorted(idx.pinned_cluster_ids), list(want[2]), f"pinned clusters after {op[0]}")
    for k, fs in want[0]:
        R.equal(
            sorted(f for f, *_ in idx.cluster_features(k)),
            list(fs),
            f"cluster_features after {op[0]}",
        )
    R.outcome(model)
    return model != kit.model_tuple(*s)


def job_histories(R, part, parts, coarse):
    """Two edits in a row on the same object, then reopen."""
    with workdir() as d:
        path = kit.write_db(os.path.join(d, "i.db"), base())
        known = kit.features_of(path)
        ids = sorted(known)
        fs = [ids[0], ids[-1], ids[len(ids) // 2]]
        out = [f for f in ids if f not in fs][0]
        clusters = [0, 2, 5]
        ops = editref.operations(fs, out, clusters, 99, 9999)
        starts = [
            ({}, (), ()),
            ({fs[0]: 0, fs[1]: 2, fs[2]: 2}, (fs[1],), (2,)),
            ({fs[0]: 5, fs[1]: 5, fs[2]: 0}, (fs[0],), (5, 0)),
            ({fs[0]: 0, fs[1]: 0, fs[2]: 0}, fs, (0,)),
        ]
        second = ops[:: 5 if coarse else 1]
        work = list(itertools.product(starts, ops, second))[part::parts]
        for s, op1, op2 in work:
            with kit.raw(path) as c:
                kit.set_model(c, *s)
            R.context = {"state": [kit.model_tuple(*s)], "edits": [op1, op2]}
            with kit.opened(path) as idx:
                cur = s
                for op in (op1, op2):
                    R.step()
                    try:
                        new, _ = editref.apply(cur, op, known)
                    except editref.Rejected:
                        try:
                            editref.call(idx, op)
                        except Exception:
                            continue
                        R.violation("an edit naming an unknown feature was accepted")
                    editref.call(idx, op)
                    cur = new
            R.run()
            want = kit.model_tuple(*cur)
            R.state(want)
            with kit.opened(path) as idx:
                R.equal(kit.model_of(path), want, "the model after reopening is not the result of the edits")
                R.equal(idx.cluster_ids, [k for k, _ in want[0]], "cluster_ids after reopening")
            errors = kit.summary_errors(path)
            R.check(not errors, "cluster summaries wrong after two edits", errors)
            R.outcome(want)
        R.sample({"edits": work[-1][1:]} if work else None)


def job_initialise(R, fields, min_docs, limit):
    with workdir() as d:
        path = kit.write_db(os.path.join(d, "i.db"), base())
        known = kit.features_of(path)
        ref = kit.Ref(DOCS)
        eligible = {
            f
            for f, key in known.items()
            if len(ref.postings[key]) >= min_docs and (fields is None or key[0] in fields)
        }
        clusters_n = [1, 2, 3, 7]
        start = ({sorted(known)[0]: 4}, (sorted(known)[0],), (4,))
        for n in clusters_n:
            # all shuffles when small, every single deviation otherwise
            bound = None if len(eligible) <= limit else 1

            def run(ch):
                R.context = {"fields": fields, "min_docs": min_docs, "clusters": n, "choices": ch.prefix}
                with kit.raw(path) as c:
                    kit.set_model(c, *start)
                with kit.opened(path) as idx:
                    CTL.random = RandomChoices(ch)
                    try:
                        idx.initialise_clusters(
                            n, min_docs=min_docs, include_fields=list(fields) if fields else None
                        )
                    finally:
                        CTL.random = None
                R.run()
                R.step()
                model = kit.model_of(path)
                R.state(model)
                got = [f for _, fs in model[0] for f in fs]
                R.equal(sorted(got), sorted(eligible), "initialisation chose the wrong features")
                sizes = sorted(len(fs) for _, fs in model[0])
                R.equal(len(sizes), min(n, len(eligible)), "initialisation made the wrong number of clusters")
                R.check(
                    not sizes or sizes[-1] - sizes[0] <= 1,
                    "initialisation is not as even as possible",
                    sizes,
                )
                R.equal(model[1:], ((), ()), "pins survived initialisation")
                errors = kit.summary_errors(path)
                R.check(not errors, "summaries wrong after initialisation", errors)
                R.outcome(model)

            explore(run, bound=bound)
        R.sample({"fields": fields, "min_docs": min_docs, "eligible": len(eligible)})
