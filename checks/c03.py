"""
C03 A failed or interrupted indexing run leaves the previous index untouched.

For every scenario: one run without faults counts the fault points of the
indexing run (statements of the program and of the batches, rows of bulk
statements, documents delivered by the corpus, submissions, tasks, waits), then
one run per point injects the fault there.
"""

import os
import tempfile

from mc import env, kit, faults, wide
from mc.env import CTL, workdir
from mc.explore import explore

TECHNIQUE = "exhaustive single fault enumeration on the real indexing run, all batch completion orders around it"
NOTE = (
    "Every fault point of the listed scenarios, one fault per run; tables, temporary files, a following edit and a "
    "following indexing run are compared with a run that had no fault. Trusts SQLite's own rollback."
)
LEVEL = "fault_enumeration"
RULE = (
    "one execution per (scenario, fault point); points are statements, bulk rows, corpus deliveries, "
    "submissions, background tasks, waits; non-trivial: the fault fired before the run was durable"
)
BOUNDS = {
    "quick": "1000 documents over 1700 features in 95 clusters reindexed in batches of 90, the first, last and a middle fault point of each kind; 5 documents, batches of 2 (3 for the first index), 2 workers, positions on, reindex of a clustered index; "
    "documents that cannot be indexed in every place; plus scenarios first index, own working directory, 1 or 3 workers, batches of 1 and 5, no positions; two completion orders",
    "thorough": "as quick with eight completion orders",
}
ASSUMPTIONS = [
    "faults in the clean-up statements after the commit are only checked for not changing the index",
    "a statement that fails has no effect, or rolls back everything (SQLite)",
]

OLD = kit.DOCS_A
NEW = kit.DOCS_B


class CorpusFailure(RuntimeError):
    pass


class FaultyCorpus(kit.MemCorpus):
    """Reports each delivery of a key, document or feature set to the controller."""

    @staticmethod
    def _point(what):
        hook = getattr(CTL, "corpus_hook", None)
        if hook is not None:
            hook(what)

    def keys(self):
        for k in super().keys():
            self._point("key")
            yield k

    def docs(self, doc_keys=None):
        for k, d in super().docs(doc_keys):
            self._point("document")
            yield k, d

    def index(self, doc):
        self._point("features")
        return super().index(doc)


SCENARIOS = {
    # name: (has an index already, working dir, workers, batch, positions)
    "reindex": (True, False, 2, 2, True),
    "first": (False, False, 2, 3, True),
    "workdir": (True, True, 2, 2, False),
    "single": (True, False, 1, 1, True),
}
MORE = {
    "batch1": (True, True, 3, 1, True),
    "batch5": (True, False, 2, 5, True),
    "plain": (False, True, 1, 2, False),
}


def clustered(path):
    kit.build(path, OLD)
    fs = sorted(kit.features_of(path))
    with kit.raw(path) as c:
        kit.set_model(
            c, {fs[0]: 1, fs[1]: 1, fs[2]: 2, fs[3]: 2, fs[4]: 5, fs[6]: 2}, (fs[0], fs[3]), (5,)
        )


def base(has_index):
    return kit.template(
        f"c03{has_index}", clustered if has_index else (lambda p: kit.opened(p).__enter__().close())
    )


def jobs(tier, seed):
    scen = dict(SCENARIOS, **MORE)
    orders = [0, 1] if tier == "quick" else list(range(8))
    parts = 4
    return [
        ("faults", name, *cfg, order, part, parts)
        for name, cfg in scen.items()
        for order in orders
        for part in range(parts)
    ] + [("nested",)] + [("unusable", part, 4) for part in range(4)] + [("wide", part, 8) for part in range(8)]


class Order:
    """A fixed choice of which task completes next."""

    def __init__(self, kind):
        self.kind = kind
        self.calls = 0

    def __call__(self, n, tag):
        self.calls += 1
        if self.kind == 0:
            return 0
        if self.kind == 1:
            return n - 1
        return (self.calls + self.kind) % n


def temp_files():
    root = tempfile.gettempdir()
    return sorted(os.listdir(root))


def run_index(idx, cfg, d):
    has_index, own_dir, workers, batch, positions = cfg
    kwargs = {"doc_batch_size": batch, "workers": workers, "index_positions": positions}
    if own_dir:
        kwargs["working_dir"] = os.path.join(d, "work")
        os.makedirs(kwargs["working_dir"], exist_ok=True)
    idx.index(**kwargs)


def job_faults(R, name, has_index, own_dir, workers, batch, positions, order, part, parts):
    cfg = (has_index, own_dir, workers, batch, positions)
    docs = dict(NEW, d7={"text": ["z", "a"], "tag": set()}, d8={"text": [], "tag": {"x"}})
    with workdir() as d:
        tempfile.tempdir = os.path.join(d, "tmp")
        os.makedirs(tempfile.tempdir)
        try:
            _job_faults(R, name, cfg, docs, order, part, parts, d)
        finally:
            tempfile.tempdir = os.path.join(env.SCRATCH, "tmp")


def start(d, cfg, docs):
    path = kit.write_db(os.path.join(d, "i.db"), base(cfg[0]))
    return path, kit.opened(path, FaultyCorpus(docs), workers=cfg[2])


def _job_faults(R, name, cfg, docs, order, part, parts, d):
    path, opening = start(d, cfg, docs)
    work = os.path.join(d, "work")
    with opening as idx:
        old = kit.dump(path)
        with faults.injected() as counter:
            CTL.corpus_hook = counter.corpus
            CTL.order = Order(order)
            run_index(idx, cfg, d)
        total = len(counter.points)
    complete = kit.dump(path)
    CTL.order = None
    CTL.corpus_hook = None
    R.note("fault points", total if part == 0 else 0)
    R.sample({"scenario": name, "fault points": total, "some": counter.points[:: max(1, total // 6)]})
    for k in range(part, total, parts):
        path, opening = start(d, cfg, docs)
        with opening as idx:
            R.run()
            R.step()
            at_fire = {}

            def on_fire():
                at_fire["dump"] = kit.dump(path)

            raised = None
            with faults.injected(k, on_fire) as counter:
                CTL.corpus_hook = counter.corpus
                CTL.order = Order(order)
                try:
                    run_index(idx, cfg, d)
                except BaseException as e:
                    if not isinstance(e, (Exception, KeyboardInterrupt)):
                        raise
                    raised = repr(e)
            CTL.order = None
            CTL.corpus_hook = None
            point = counter.fired
            R.context = {"scenario": name, "fault": point, "number": k, "order": order}
            if point is None:
                R.note("not reached")
                continue
            got = kit.dump(path)
            R.state(got)
            R.outcome((raised is not None, got == old))
            R.check(not temp_files(), "temporary files are left behind", temp_files)
            if cfg[1]:
                R.check(os.path.isdir(work), "the caller's working directory was removed")
                R.check(not os.listdir(work), "files are left in the working directory", lambda: os.listdir(work))
            if at_fire["dump"] != old:
                # durable when the fault came
                R.equal(got, at_fire["dump"], "a fault after completion changed the index")
                R.note("after completion")
                continue
            R.case((name, order, point, k))
            if not R.check(raised is not None, "indexing hit by a fault returned normally"):
                continue
            if not R.check(
                got == old, "a failed indexing run changed the index", lambda: _diff(old, got)
            ):
                continue
            after(R, idx, cfg, path, complete, d)


def after(R, idx, cfg, path, complete, d):
    """The object is usable: not locked, edits durable and checked, indexing works."""
    with kit.raw(path) as c:
        try:
            c.execute("begin immediate")
            c.execute("rollback")
        except Exception as e:
            R.violation("the index stays locked after a failed indexing run", repr(e))
            return
    known = sorted(kit.features_of(path))
    if known:
        with kit.opened(path) as other:
            new = other.create_cluster_from_features(known[:1])
        R.check(new in idx.cluster_ids, "the object keeps seeing an old state after a failed run")
        try:
            idx.create_cluster_from_features([99999])
        except Exception:
            pass
        else:
            R.violation("unknown features are accepted after a failed indexing run")
        created = idx.create_cluster_from_features(known[1:3])
        model = dict(kit.model_of(path)[0])
        R.equal(
            sorted(model.get(created, ())), known[1:3], "an edit after a failed indexing run is not durable"
        )
        errors = kit.summary_errors(path)
        R.check(not errors, "wrong summaries after a failed indexing run and an edit", errors)
    run_index(idx, cfg, d)
    got = kit.dump(path)
    for table in ("doc_key", "inverted_index", "position_doc_map", "position_index", "field_summary"):
        R.equal(
            got[table], complete[table], "indexing again after a failed run gives a different index", table
        )
    errors = kit.summary_errors(path)
    R.check(not errors, "wrong summaries after indexing again", errors)


def _diff(a, b):
    return {
        t: {"before": repr(a.get(t))[:600], "after": repr(b.get(t))[:600]}
        for t in set(a) | set(b)
        if a.get(t) != b.get(t)
    }


class Unusable(FaultyCorpus):
    """A corpus with one document that cannot be indexed."""

    def __init__(self, docs, at=None, what=None):
        super().__init__(docs)
        self.at, self.what = at, what

    def keys(self):
        for n, key in enumerate(super().keys()):
            if self.what == "repeated key" and n == len(self.data) - 1:
                yield self.at
            yield {"list as key": [key], "object as key": object()}.get(self.what, key) if key == self.at else key

    def index(self, doc):
        features = super().index(doc)
        if doc["key"] != self.at:
            return features
        if self.what == "nothing":
            return None
        if self.what == "values that end":
            return {**features, "text": stops(["a", "q"])}
        if self.what in BAD_VALUES:
            return {**features, "more": BAD_VALUES[self.what], "text": features.get("text", []) + ["q"]}
        return features


def stops(values):
    yield from values
    raise CorpusFailure()


BAD_VALUES = {
    "number instead of values": 7,
    "nothing instead of values": None,
    "list as value": [["a"]],
    "object as value": {object()},
    "tuple as value": {("a", "b")},
    "too large number": {1, 2**63},
    "broken text": {"a", "\ud800"},
    "None first": [None, "a"],
    "None last": ["a", "b", None],
    "None only": [None],
}
UNUSABLE = [*BAD_VALUES, "nothing", "values that end", "list as key", "object as key", "repeated key"]


def job_unusable(R, part, parts):
    """Documents that cannot be indexed: the run fails and changes nothing."""
    docs = dict(NEW, d7={"text": ["z", "a"], "tag": set()})
    with workdir() as d:
        tempfile.tempdir = os.path.join(d, "tmp")
        os.makedirs(tempfile.tempdir)
        try:
            complete = {}
            for name, cfg in dict(SCENARIOS, **MORE).items():
                path, opening = start(d, cfg, docs)
                with opening as idx:
                    run_index(idx, cfg, d)
                complete[name] = kit.dump(path)
            cases = [(w, k, name) for w in UNUSABLE for k in docs for name in complete]
            for what, key, name in cases[part::parts]:
                cfg = dict(SCENARIOS, **MORE)[name]
                R.context = {"scenario": name, "document": key, "unusable": what}
                path = kit.write_db(os.path.join(d, "i.db"), base(cfg[0]))
                corpus = Unusable(docs, key, what)
                with kit.opened(path, corpus, workers=cfg[2]) as idx:
                    old = kit.dump(path)
                    try:
                        run_index(idx, cfg, d)
                    except Exception:
                        R.equal(kit.dump(path), old, "a failed indexing run changed the index")
                    else:
                        # Only features recorded without positions may be nothing.
                        R.check(what.startswith("None") and not cfg[4], "a document that cannot be indexed is accepted")
                    R.equal(temp_files(), [], "temporary files are left behind")
                    R.run()
                    R.step()
                    R.state((what, key, name))
                    if what.startswith("None") and not cfg[4]:
                        continue
                    corpus.what = None
                    after(R, idx, cfg, path, complete[name], d)
        finally:
            tempfile.tempdir = os.path.join(env.SCRATCH, "tmp")


def job_nested(R):
    """Indexing inside an open transaction is refused without effect."""
    with workdir() as d:
        path, opening = start(d, SCENARIOS["reindex"], NEW)
        with opening as idx:
            old = kit.dump(path)
            R.run()
            R.step()
            R.case("nested")
            idx.db.execute("begin")
            try:
                idx.index()
            except Exception:
                pass
            else:
                R.violation("indexing inside a transaction was accepted")
            if idx.db.in_transaction:
                idx.db.execute("rollback")
            R.equal(kit.dump(path), old, "refused indexing changed the index")
            after(R, idx, SCENARIOS["reindex"], path, indexed(d), d)


def indexed(d):
    path = kit.write_db(os.path.join(d, "other.db"), base(True))
    with kit.opened(path, FaultyCorpus(NEW)) as idx:
        run_index(idx, SCENARIOS["reindex"], d)
    return kit.dump(path)


def wide_start(path):
    kit.write_db(path, wide.base(n=800, words=700))
    model = wide.model(kit.features_of(path), wide.SIZES)
    with kit.raw(path) as c:
        kit.set_model(c, model, tuple(model)[::9], (3, 90, 93))


def job_wide(R, part, parts):
    """The same with a thousand documents and dozens of batches."""
    with workdir() as d:
        tempfile.tempdir = os.path.join(d, "tmp")
        os.makedirs(tempfile.tempdir)
        try:
            _job_wide(R, part, parts, d)
        finally:
            tempfile.tempdir = os.path.join(env.SCRATCH, "tmp")


def _job_wide(R, part, parts, d):
    data = kit.template("c03wide", wide_start)
    docs = wide.docs(n=1000, words=700, shift=300)
    cfg = (True, True, 2, 90, True)
    path = os.path.join(d, "i.db")
    work = os.path.join(d, "work")

    def attempt(target, on_fire=None):
        kit.write_db(path, data)
        with kit.opened(path, FaultyCorpus(docs), workers=2) as idx, faults.injected(target, on_fire) as counter:
            CTL.corpus_hook = counter.corpus
            try:
                run_index(idx, cfg, d)
                return counter, None, idx
            except BaseException as e:
                if not isinstance(e, (Exception, KeyboardInterrupt)):
                    raise
                return counter, repr(e), idx
            finally:
                CTL.corpus_hook = None

    counter, _, _ = attempt(None)
    complete = kit.dump(path)
    points = faults.chosen(counter.points, 2)
    R.note("fault points", len(points) if not part else 0)
    kit.write_db(path, data)
    old = kit.dump(path)
    for k in points[part::parts]:
        stored = []
        counter, raised, idx = attempt(k, lambda: stored.append(kit.dump(path)))
        R.run()
        R.step()
        R.context = {"wide": counter.fired, "number": k}
        if counter.fired is None:
            R.note("not reached")
            continue
        R.case((counter.fired, k))
        R.state(k)
        got = kit.dump(path)
        R.outcome((raised is not None, got == old))
        R.check(not temp_files(), "temporary files are left behind", temp_files)
        R.check(os.path.isdir(work) and not os.listdir(work), "files are left in the working directory")
        if stored[0] != old:
            R.check(got == stored[0] == complete, "a fault after completion changed the index")
            continue
        R.check(raised is not None, "indexing hit by a fault returned normally")
        if R.check(got == old, "a failed indexing run changed the index", lambda: _diff(old, got)):
            with kit.opened(path, FaultyCorpus(docs)) as again:
                after(R, again, cfg, path, complete, d)
