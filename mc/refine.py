"""
Shared driver of the refinement checks: one refinement of a constructed model
state under explored random outcomes.
"""

import itertools
import os

from pyroaring import BitMap

from mc import kit
from mc.env import CTL
from mc.explore import RandomChoices

# features with partly nested, equal, disjoint and crossing document sets
DOCS = {
    "p": {"w": {"a", "b", "c"}},
    "q": {"w": {"a", "b", "g"}},
    "r": {"w": {"c", "d"}},
    "s": {"w": {"d", "e", "a"}},
    "t": {"w": {"e", "f"}},
    "u": {"w": {"f", "h"}},
    "v": {"w": {"b", "d", "f"}},
    "w": {"w": {"g", "h", "c"}},
}


def base():
    return kit.template("refine", lambda p: kit.build(p, DOCS, batch=3))


class Alternating:
    """Random numbers alternating around one half; shuffles keep the order."""

    def __init__(self):
        self.i = 0

    def random(self):
        self.i += 1
        return 0.25 if self.i % 2 else 0.75

    def randbelow(self, n):
        self.i += 1
        return self.i % n


def refine(idx, state, kwargs, random):
    """Install the state, refine, return the stored model before and after."""
    with kit.raw(idx.db_path) as c:
        kit.set_model(c, *state)
    before = kit.model_tuple(*state)
    CTL.random = random
    try:
        idx.refine_clusters(**kwargs)
    finally:
        CTL.random = None
    return before, kit.model_of(idx.db_path)


def selected(before, kwargs):
    ids = [k for k, _ in before[0]]
    chosen = kwargs.get("cluster_ids")
    return set(ids if not chosen else [k for k in chosen if k in ids])


def check_conservation(R, idx, before, after, kwargs):
    old, new = dict(before[0]), dict(after[0])
    pf, pc = set(before[1]), set(before[2])
    R.equal(
        sorted(f for fs in new.values() for f in fs),
        sorted(f for fs in old.values() for f in fs),
        "refinement changed which features are in the model",
    )
    R.equal(after[1], before[1], "refinement changed the pins of features")
    R.equal(after[2], before[2], "refinement changed the pins of clusters")
    where_old = {f: k for k, fs in old.items() for f in fs}
    where_new = {f: k for k, fs in new.items() for f in fs}
    for f in pf:
        R.check(where_new.get(f) == where_old[f], "a pinned feature was moved", f)
    for k in pc:
        R.check(new.get(k) == old[k], "a pinned cluster was changed", k)
    sel = selected(before, kwargs)
    for k in old:
        if k not in sel:
            R.check(new.get(k) == old[k], "a cluster outside the selection was changed", k)
    top = max(old, default=0)
    for k in new:
        if k not in old:
            R.check(k > top, "a new cluster got an id that is not new", k)
            R.check(
                all(where_old[f] in sel - pc for f in new[k]),
                "a new cluster holds features of clusters that must not change",
                k,
            )
    errors = kit.summary_errors(idx.db_path)
    R.check(not errors, "cluster summaries wrong after refinement", errors)


def check_counts(R, before, after, kwargs, exact_split=False):
    old, new = dict(before[0]), dict(after[0])
    pf, pc = set(before[1]), set(before[2])
    sel = selected(before, kwargs)
    active = sel - pc
    rest = set(old) - active
    minimum = kwargs.get("minimum_cluster_features", 1)
    target = kwargs.get("target_clusters") or len(sel)
    now_active = set(new) - rest
    if not active:
        R.equal(new, old, "refining nothing changed the model")
        return
    if target == len(sel):
        R.equal(set(new), set(old), "refinement without a target changed the set of clusters")
    elif target < len(sel):
        R.check(set(new) <= set(old), "lowering the number of clusters created a cluster")
        want = target - len(sel & pc)
        free = [k for k in active if not (set(old[k]) & pf)]
        if want >= 1 and len(active) - want <= len(free):
            R.equal(
                len(now_active), want, "refinement did not reach the lower number of clusters"
            )
        else:
            kept = {k for k in active if set(old[k]) & pf}
            R.check(
                kept <= now_active and len(now_active) >= max(1, want),
                "refinement dissolved a cluster with pinned features or too many",
                sorted(now_active),
            )
    else:
        R.check(
            len(active) <= len(now_active) <= target - len(sel & pc),
            "refinement with a higher target has too many or too few clusters",
            sorted(now_active),
        )
        movable = sum(len(old[k]) for k in active)
        if exact_split and not pf & {f for k in active for f in old[k]}:
            R.equal(
                len(now_active),
                min(target - len(sel & pc), movable),
                "the new clusters of even splits are not all stored",
            )
    if target <= len(sel):
        for k in now_active:
            R.check(
                len(new[k]) >= min(len(old[k]), minimum),
                "a cluster shrank below the minimum size",
                {"cluster": k, "before": old[k], "after": new[k]},
            )


def describe(state, kwargs):
    return {
        "model": repr(kit.model_tuple(*state)),
        "call": {k: (sorted(v) if isinstance(v, BitMap) else v) for k, v in kwargs.items()},
    }
