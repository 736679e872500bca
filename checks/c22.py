"""
C22 Opening recognises, migrates or refuses a database and never damages it.
"""

import contextlib
import itertools
import os
import sqlite3
import sys

from pyroaring import BitMap

from mc import wide, crash, env, faults, kit
from mc.env import CTL, orig_connect, workdir
from mc.explore import explore
from mc.sched import Scheduler, SchedSqlHook

from hyperreal import _index_schema
from hyperreal.index import Index

TECHNIQUE = (
    "exhaustive enumeration of earlier schema versions with model states, of single faults and crash points of a migration, of schedules of two processes opening "
    "the same database (preemption bound), and of foreign files, on the real code"
)
NOTE = (
    "Version 4 is the schema of the repository's own old index; versions 5 to 9 are its steps towards the current one as far as the migrations tell, "
    "each with and without the optional tables."
)
LEVEL = "model_checking"
BOUNDS = {
    "quick": "versions 4..10 in 2 variants and 2 journal modes; all assignments of 3 features to 3 clusters or none, every 7th of 5 features; all faults and crash states of "
    "7 migrations and a creation; two openers with up to 2 preemptions; 13 versions x 3 application ids x 4 sets of tables; 18 names x 18 contents",
    "thorough": "all assignments of 5 features, three openers, 3 preemptions",
}
ASSUMPTIONS = [
    "databases of versions 5 to 9 had the columns that the migrations leave alone",
    "a process crash loses nothing already written to the file system",
]

MAGIC = _index_schema.MAGIC_APPLICATION_ID
CURRENT = 10
VERSIONS = range(4, 11)
OLD_TRIGGERS = """
create trigger ensure_cluster before insert on feature_cluster begin
    insert or ignore into cluster(cluster_id) values (new.cluster_id);
    update cluster set feature_count = feature_count + 1 where cluster_id = new.cluster_id;
end;
create trigger delete_feature_cluster after delete on feature_cluster begin
    update cluster set feature_count = feature_count - 1 where cluster_id = old.cluster_id;
    delete from cluster where cluster_id = old.cluster_id and feature_count = 0;
end;
create trigger ensure_cluster_update before update on feature_cluster when old.cluster_id != new.cluster_id begin
    insert or ignore into cluster(cluster_id) values (new.cluster_id);
end;
create trigger update_cluster_feature_counts after update on feature_cluster when old.cluster_id != new.cluster_id begin
    update cluster set feature_count = feature_count + 1 where cluster_id = new.cluster_id;
    update cluster set feature_count = feature_count - 1 where cluster_id = old.cluster_id;
    delete from cluster where cluster_id = old.cluster_id and feature_count = 0;
end;
"""
MARK_TRIGGER = """
create trigger mark_cluster_changed after update of feature_count on cluster begin
    insert or ignore into changed_cluster(cluster_id) values (new.cluster_id);
end
"""


def current():
    return kit.template("c22", lambda p: kit.build(p, kit.DOCS_A))


def old_index(path, version, full, wal, assignment, pinned=((), ()), data=None):
    """An index as an earlier version of the program would have left it."""
    source = path + ".source"
    kit.write_db(source, data or current())
    with kit.raw(source) as c:
        kit.set_model(c, assignment, *(pinned if version >= 8 else ((), ())))
        kit.checkpoint(source)
    for suffix in ("", "-wal", "-shm", "-journal"):
        with contextlib.suppress(FileNotFoundError):
            os.unlink(path + suffix)
    if version == CURRENT:
        os.replace(source, path)
        if not wal:
            with kit.raw(path) as c:
                c.execute("pragma journal_mode=delete")
        return
    c = orig_connect(path, isolation_level=None)
    c.execute("pragma synchronous=off")
    c.execute("pragma journal_mode=memory")
    c.execute("attach ? as source", [source])
    c.executescript(
        """
        create table doc_key (doc_id integer primary key, doc_key unique);
        create table inverted_index (
            feature_id integer primary key, field text not null, value not null,
            docs_count integer not null, doc_ids roaring_bitmap not null, unique (field, value)
        );
        create table field_summary (field text primary key, distinct_values integer, min_value, max_value);
        create index docs_counts on inverted_index(docs_count);
        insert into doc_key select * from source.doc_key;
        insert into inverted_index select * from source.inverted_index;
        insert into field_summary select field, distinct_values, min_value, max_value from source.field_summary;
        """
    )
    more = ["feature_count integer default 0"]
    names = ["cluster_id", "feature_count"]
    if version >= 5:
        more += ["docs_count integer default 0", "weight integer default 0", "doc_ids roaring_bitmap"]
        names += ["docs_count", "weight", "doc_ids"]
    features = ["feature_id", "cluster_id", "docs_count"]
    pin = ""
    if version >= 8:
        more.append("pinned bool default 0")
        names.append("pinned")
        features.append("pinned")
        pin = ", pinned bool default 0"
    c.executescript(
        f"""
        create table cluster (cluster_id integer primary key, {", ".join(more)});
        create table feature_cluster (
            feature_id integer primary key references inverted_index(feature_id) on delete cascade,
            cluster_id integer references cluster(cluster_id) on delete cascade,
            docs_count integer {pin}
        );
        create index cluster_features on feature_cluster(cluster_id, docs_count);
        insert into cluster select {", ".join(names)} from source.cluster;
        insert into feature_cluster select {", ".join(features)} from source.feature_cluster;
        """
    )
    if version >= 5:
        c.execute("create table changed_cluster (cluster_id integer primary key references cluster on delete cascade)")
    if version <= 6:
        c.executescript(OLD_TRIGGERS)
    if version in (5, 6):
        c.execute(MARK_TRIGGER)
    if full:
        c.execute("create table skipgram_count(a, b, c)")
        c.execute("insert into skipgram_count values (1, 2, 3)")
        if version >= 6:
            c.execute("create table settings (key primary key, value)")
            c.execute("insert into settings values ('position_window_size', 0)")
            c.execute("create index field_docs_counts on inverted_index(field, docs_count)")
        if version >= 9:
            for (sql,) in c.execute(
                "select sql from source.sqlite_master where name in ('position_doc_map', 'position_index')"
            ).fetchall():
                c.execute(sql)
            c.execute("insert into position_doc_map select * from source.position_doc_map")
            c.execute("insert into position_index select * from source.position_index")
    c.execute(f"pragma user_version={version}")
    c.execute(f"pragma application_id={MAGIC}")
    c.execute("detach source")
    c.execute("pragma journal_mode=delete")
    if wal:
        c.execute("pragma journal_mode=wal")
    c.close()
    os.unlink(source)


def schema(path):
    with kit.raw(path) as c:
        tables = [n for (n,) in c.execute("select name from sqlite_master where type='table'")]
        return (
            {t: {r[1] for r in c.execute(f"pragma table_info('{t}')")} for t in tables if not t.startswith("sqlite_")},
            {r for r in c.execute("select type, name from sqlite_master where type != 'table' and name not like 'sqlite_%'")},
            c.execute("pragma application_id").fetchone()[0],
        )


_fresh = []


def fresh_schema():
    if not _fresh:
        with workdir() as d:
            path = os.path.join(d, "f.db")
            kit.opened(path).__enter__().close()
            _fresh.append(schema(path))
    return _fresh[0]


def kept(path):
    """What must survive opening: documents, features, clusters, pins."""
    d = kit.dump(path)
    pins = {}
    with kit.raw(path) as c:
        for t, key in (("feature_cluster", "feature_id"), ("cluster", "cluster_id")):
            columns = {r[1] for r in c.execute(f"pragma table_info({t})")}
            pins[t] = sorted(k for (k,) in c.execute(f"select {key} from {t} where pinned")) if "pinned" in columns else []
        members = sorted(c.execute("select feature_id, cluster_id from feature_cluster"))
    return (d["doc_key"], d["inverted_index"], members, pins)


def judge(R, path, before, positions, what=None, docs=kit.DOCS_A):
    """The opened database is a complete current index with the same content."""
    after = kit.dump(path)
    R.equal(after["user_version"], CURRENT, "the index does not have the current version", what)
    R.equal(kept(path), before, "opening changes documents, features, clusters or pins", what)
    R.equal(schema(path), fresh_schema(), "a migrated index has another schema than a new one", what)
    R.equal(kit.summary_errors(path), [], "wrong cluster summaries after opening", what)
    R.equal(after["changed_cluster"], [], "clusters wait for being summarised", what)
    want = kit.Ref(docs).field_summary(positions)
    R.equal(
        {r[0]: tuple(r[1:]) for r in after["field_summary"]}, want, "wrong field summary after opening", what
    )


def works(R, idx, path, empty=False):
    """A few operations of a fully working index."""
    if not empty:
        has_content(R, idx, path)
    idx.corpus = kit.MemCorpus(kit.DOCS_B)
    idx.index(doc_batch_size=2, index_positions=True)
    R.equal(kit.summary_errors(path), [], "wrong cluster summaries after reindexing")
    keys = kit.doc_keys(idx)
    for key, docs in kit.Ref(kit.DOCS_B).postings.items():
        R.equal({keys[i] for i in idx[key]}, docs, "a feature has other documents after reindexing", key)
    idx.initialise_clusters(3)
    R.equal(kit.summary_errors(path), [], "wrong cluster summaries after initialising")
    R.equal(sum(len(m) for _, m in kit.model_of(path)[0]), len(kit.Ref(kit.DOCS_B).postings), "initialising misses features")
    R.step(3)


def has_content(R, idx, path):
    keys = kit.doc_keys(idx)
    for key, docs in kit.Ref(kit.DOCS_A).postings.items():
        R.equal({keys[i] for i in idx[key]}, docs, "a feature has other documents after opening", key)
    features = sorted(kit.features_of(path))
    idx.create_cluster_from_features(features[:2])
    R.equal(kit.summary_errors(path), [], "wrong cluster summaries after an edit")
    idx.pin_features(features[:1])
    if len(idx.cluster_ids) > 1:
        idx.merge_clusters(idx.cluster_ids[:2])
    idx.delete_features(features[1:2])
    R.equal(kit.summary_errors(path), [], "wrong cluster summaries after an edit")
    R.step(4)


def jobs(tier, seed):
    deep = tier == "thorough"
    n = 8 if not deep else 48
    out = [("versions", i, n, deep) for i in range(n)]
    out += [("interrupted", v, full) for v in (*VERSIONS, None) for full in (False, True)]
    out += [("crashes", v, full, small) for v in (*VERSIONS, None) for full in (False, True) for small in (False, True)]
    for v in (4, 9, 10, None):
        shards = 1 if v == 10 else 4
        out += [("together", v, 2, 2 if deep or v != 4 else 1, i, shards) for i in range(shards)]
        if deep:
            out += [("together", v, 2, 3, i, 8) for i in range(8)]
            out += [("together", v, 3, 2, i, 8) for i in range(8)]
    out += [("foreign", i, 4) for i in range(4)]
    out += [("files", i, 4) for i in range(4)]
    out += [("wide", v, full) for v in VERSIONS for full in (False, True)]
    return out


def job_versions(R, part, parts, deep):
    with workdir() as d:
        path = os.path.join(d, "i.db")
        kit.write_db(path, current())
        fs = sorted(kit.features_of(path))
        models = list(kit.assignments(fs[:3], (0, 2, 7)))
        models += list(kit.assignments(fs[2:7], (1, 4, 9)))[:: 1 if deep else 7]
        cases = [
            (m, v, full, wal)
            for i, m in enumerate(models)
            for v in VERSIONS
            for full in (False, True)
            for wal in (False, True)
            if deep or i < 4 or (i + v) % 4 == full * 2 + wal
        ]
        for i, (m, v, full, wal) in enumerate(cases):
            if i % parts != part:
                continue
            pins = (tuple(sorted(m))[::2], tuple(sorted(set(m.values())))[:1])
            old_index(path, v, full, wal, m, pins)
            before = kept(path)
            R.context = {"version": v, "full": full, "wal": wal, "model": m, "pins": pins}
            R.run()
            R.step()
            R.state((v, full, wal, m))
            R.check(Index.is_index_db(path), "an index is not recognised")
            R.equal(kept(path), before, "asking whether it is an index changes it")
            with kit.opened(path) as idx:
                judge(R, path, before, v == CURRENT or (full and v >= 9))
                R.outcome(kept(path)[2:])
                if i % 3 == 0 or v == 4:
                    works(R, idx, path)
            if i % 3:
                with kit.opened(path):
                    judge(R, path, before, v == CURRENT or (full and v >= 9)) if v != 4 else None
        R.sample({"cases": len(cases)})


MODEL = {0: 0, 1: 0, 2: 2, 3: 7, 5: 7}
PINS = ((1,), (7,))


def prepare(path, version, full):
    """None: nothing there yet."""
    if version is None:
        for suffix in ("", "-wal", "-shm", "-journal"):
            with contextlib.suppress(FileNotFoundError):
                os.unlink(path + suffix)
        if full:
            open(path, "wb").close()
        return None
    kit.write_db(path, current())
    fs = sorted(kit.features_of(path))
    old_index(path, version, full, full, {fs[i]: k for i, k in MODEL.items()}, (tuple(fs[i] for i in PINS[0]), PINS[1]))
    return kept(path)


def judge_any(R, path, version, full, before, what=None):
    if version is None:
        R.equal(schema(path), fresh_schema(), "a created index is not complete", what)
        d = kit.dump(path)
        R.equal((d["user_version"], d["doc_key"], d["cluster"]), (CURRENT, [], []), "a created index is not empty", what)
    else:
        judge(R, path, before, version == CURRENT or (full and version >= 9), what)


def untouched(R, path, version, before, what):
    if version is None:
        return
    R.equal(kept(path), before, "a failed migration changes documents, features, clusters or pins", what)
    with kit.raw(path) as c:
        R.check(
            c.execute("pragma user_version").fetchone()[0] in (version, CURRENT), "a failed migration leaves another version", what
        )


def job_interrupted(R, version, full):
    with workdir() as d:
        path = os.path.join(d, "i.db")
        target = 0
        while True:
            before = prepare(path, version, full)
            failed = None
            with faults.injected(target) as hook:
                try:
                    idx = kit.open_index(path)
                except faults.INJECTED as e:
                    failed = e
                    e.__traceback__ = None  # lets go of the connection
            what = R.context = {"version": version, "full": full, "fault": hook.fired}
            R.run()
            R.step()
            R.state((version, full, hook.fired))
            if hook.fired is None:
                idx.close()
                break
            if failed is None:
                # nothing went wrong for the caller: then it must all be there
                judge_any(R, path, version, full, before, what)
                idx.close()
            else:
                untouched(R, path, version, before, what)
            for again in range(2):
                with kit.opened(path) as idx:
                    judge_any(R, path, version, full, before, what)
                    if again:
                        works(R, idx, path, version is None)
            target += 1
        R.sample({"version": version, "fault points": target})
        R.outcome(target)


def job_crashes(R, version, full, small):
    with workdir() as d:
        path, target = os.path.join(d, "i.db"), os.path.join(d, "crashed.db")
        before = prepare(path, version, full)
        if version is None and not full:
            open(path, "wb").close()
        if small:
            CTL.on_connect = crash.small_cache
        with crash.watched(path, lambda c: None) as hook:
            idx = kit.open_index(path)
        R.context = {"version": version, "full": full, "small cache": small}
        images = list(hook.images.values()) + [("opened", hook.final)]
        images += [(f"log cut to {w}", f) for w, f in crash.wal_prefixes(hook.final)]
        R.step(hook.points)
        for what, files in images:
            crash.write_image(target, files)
            R.run()
            R.state((version, full, small, what))
            # the first opener after the crash finishes or repeats the migration
            with kit.opened(target):
                judge_any(R, target, version, full, before, {"when": what})
            R.outcome(kit.dump(target)["user_version"])
        idx.close()


def job_together(R, version, n, bound, shard, shards):
    """Several processes open the same database at once."""
    with workdir() as d:
        path = os.path.join(d, "i.db")
        prepare(path, version, True)
        data = open(path, "rb").read()
        before = None if version is None else kept(path)

        def run(ch):
            for suffix in ("", "-wal", "-shm", "-journal"):
                with contextlib.suppress(FileNotFoundError):
                    os.unlink(path + suffix)
            with open(path, "wb") as f:
                f.write(data)
            sched = Scheduler(ch)
            hook = SchedSqlHook(sched, ch, give_up=False)
            opened, failed = [None] * n, {}

            def body(i):
                try:
                    opened[i] = kit.open_index(path)
                except Exception as e:
                    failed[i] = e

            for i in range(n):
                sched.spawn(lambda i=i: body(i), f"opener {i}")
            CTL.sql_hook = hook
            try:
                sched.run()
            finally:
                CTL.sql_hook = None
            R.run()
            R.step(sched.points)
            R.state((version, n, ch.choices))
            R.context = {"version": version, "openers": n, "schedule": ch.choices}
            for i, e in failed.items():
                # the mode of the file cannot be switched while others use it
                if not (isinstance(e, sqlite3.OperationalError) and "locked" in str(e)):
                    R.violation("opening fails next to another opener", f"{type(e).__name__}: {e}")
                R.note("gave up on a lock")
                e.__traceback__ = None
            for idx in opened:
                if idx is not None:
                    judge_any(R, path, version, True, before)
                    idx.close()
            with kit.opened(path):
                judge_any(R, path, version, True, before)
            R.outcome((len(failed), hook.conflicts > 0))

        explore(run, bound=bound, shard=(shard, shards))


# ---------------------------------------------------------------- foreign ----
TABLES = {
    "nothing": "",
    "unrelated": "create table notes(id integer primary key, text); insert into notes(text) values ('a'), ('b');",
    "alike": "create table cluster(name, colour); insert into cluster values ('x', 'y'); create table feature_cluster(a); create table doc_key(k);",
    "view": "create view v as select 1 as one;",
}


def foreign_content(path):
    with kit.raw(path) as c:
        tables = c.execute("select type, name, sql from sqlite_master order by name").fetchall()
        return (
            tables,
            [c.execute(f"select * from {n}").fetchall() for t, n, _ in tables if t in ("table", "view")],
            c.execute("pragma user_version").fetchone(),
            c.execute("pragma application_id").fetchone(),
        )


def job_foreign(R, part, parts):
    cases = list(
        itertools.product((0, 1, 2, 3, 4, 5, 7, 9, 10, 11, 12, 99, -1, 2**31 - 1), (0, MAGIC, 1, -5), TABLES, ("delete", "wal"))
    )
    with workdir() as d:
        path = os.path.join(d, "f.db")
        for i, (version, application, tables, mode) in enumerate(cases):
            if i % parts != part:
                continue
            for suffix in ("", "-wal", "-shm", "-journal"):
                with contextlib.suppress(FileNotFoundError):
                    os.unlink(path + suffix)
            c = orig_connect(path, isolation_level=None)
            c.execute(f"pragma journal_mode={mode}").fetchall()
            c.executescript(TABLES[tables])
            c.execute(f"pragma user_version={version}")
            c.execute(f"pragma application_id={application}")
            c.close()
            before = foreign_content(path)
            what = R.context = {"user_version": version, "application_id": application, "tables": tables, "mode": mode}
            R.run()
            R.step()
            R.state((version, application, tables, mode))
            R.equal(Index.is_index_db(path), application == MAGIC, "wrong answer to whether it is an index", what)
            R.equal(foreign_content(path), before, "asking whether it is an index changes it", what)
            error = None
            try:
                idx = kit.open_index(path)
            except Exception as e:
                error = e
                e.__traceback__ = None
            empty = version == 0 and tables == "nothing"
            pretends = application == MAGIC and version in VERSIONS
            if empty and application == 0:
                if R.check(error is None, "an empty database is refused", repr(error)):
                    idx.close()
                    judge_any(R, path, None, False, None, what)
            elif empty and application == MAGIC:
                pass
            elif pretends:
                # claims to be an index in every way: only its content counts
                if R.check(error is not None, "a database without an index in it is accepted", what):
                    R.equal(foreign_content(path), before, "a refused database is changed", what)
            else:
                if R.check(error is not None, "a database that is not an index is accepted", what):
                    R.check(
                        isinstance(error, _index_schema.MigrationError),
                        "a database is not refused with a migration error",
                        repr(error),
                    )
                R.equal(foreign_content(path), before, "a refused database is changed", what)
            R.outcome(type(error).__name__)


# ------------------------------------------------------------------ files ----
NAMES = [
    "plain.db", "a?b.db", "a#b.db", "100%.db", "%41.db", "a b.db", "é😀.db", "it's \"q\".db", "-dash", "a&b=c.db", "?mode=memory", "#", "%", "%00.db",
    "file:x.db", "new\nline", "a;b", "x" * 200,
]


def contents():
    index = current()
    old = kit.template("c22old", lambda p: old_index(p, 4, False, False, {}))
    delete_mode = kit.template("c22delete", lambda p: old_index(p, 10, True, False, {}))

    def foreign(path):
        c = orig_connect(path)
        c.execute("create table t(x)")
        c.commit()
        c.close()

    other = kit.template("c22foreign", foreign)
    return [
        ("an index", index, True),
        ("an old index", old, True),
        ("an index in another mode", delete_mode, True),
        ("a foreign database", other, False),
        ("an empty file", b"", False),
        ("text", b"just some text, rather short", False),
        ("long text", b"just some text\n" * 500, False),
        ("zeros", bytes(8192), False),
        ("bytes", bytes(range(256)) * 20, False),
        ("the first 16 bytes", index[:16], False),
        ("the first 50 bytes", index[:50], False),
        ("a page less one byte", index[:4095], None),
        ("half an index", index[: len(index) // 2], None),
        ("a damaged header", b"X" + index[1:], False),
        ("a damaged page size", index[:16] + b"\x00\x07" + index[18:], False),
        ("a directory", "dir", False),
        ("nothing", None, False),
        ("a dangling link", "link", False),
    ]


def listing(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for n in files:
            if not n.endswith(("-wal", "-shm")):
                with contextlib.suppress(FileNotFoundError):
                    with open(os.path.join(root, n), "rb") as f:
                        out[os.path.join(root, n)] = f.read()
        for n in dirs:
            out[os.path.join(root, n)] = "dir"
    return out


def job_files(R, part, parts):
    cases = list(itertools.product(NAMES, contents()))
    before_cwd = os.getcwd()
    for i, (name, (label, data, expected)) in enumerate(cases):
        if i % parts != part:
            continue
        with workdir() as d:
            # names that a careless reader would take for this one
            for decoy in ("a", "A.db", "b.db", "100", "x.db"):
                with open(os.path.join(d, decoy), "wb") as f:
                    f.write(current() if expected is not True else b"decoy")
            path = os.path.join(d, name)
            if data == "dir":
                os.mkdir(path)
            elif data == "link":
                os.symlink(path + "-gone", path)
            elif data is not None:
                with open(path, "wb") as f:
                    f.write(data)
            before = listing(d)
            for how in ("absolute", "relative"):
                what = R.context = {"name": name, "content": label, "how": how}
                R.run()
                R.step()
                R.state((name, label, how))
                try:
                    os.chdir(d)
                    if how == "relative" and name.startswith(("file:", "?", "#", "%00")):
                        continue
                    answer = Index.is_index_db(path if how == "absolute" else name)
                finally:
                    os.chdir(before_cwd)
                R.check(answer is True or answer is False, "neither yes nor no", repr(answer))
                if expected is not None:
                    R.equal(answer, expected, "wrong answer to whether it is an index", what)
                R.equal(listing(d), before, "asking whether it is an index changes files", what)
                R.outcome(answer)
            if expected is True:
                with kit.opened(path) as idx:
                    R.equal(kit.summary_errors(path), [], "wrong summaries")
            elif isinstance(data, bytes) and expected is False and data and label != "a foreign database":
                try:
                    kit.open_index(path).close()
                except Exception:
                    pass
                else:
                    R.violation("a file that is no database is accepted as an index", what)
                R.equal(listing(d), before, "opening a file that is no database changes it", what)


def job_wide(R, version, full):
    """Thousands of features, dozens of clusters."""
    data = wide.base(words=300)
    with workdir() as d:
        path = os.path.join(d, "i.db")
        kit.write_db(path, data)
        fs = kit.features_of(path)
        model = wide.model(fs, wide.SIZES)
        old_index(path, version, full, True, model, (tuple(model)[::7], tuple(sorted(set(model.values())))[::4]), data)
        before = kept(path)
        R.context = {"wide": version, "full": full}
        R.run()
        R.step()
        R.state((version, full))
        with kit.opened(path) as idx:
            judge(R, path, before, version == CURRENT or (full and version >= 9), docs=wide.docs(words=300))
            listed = {k: n for k, n, _ in idx.top_cluster_features(top_k=1)}
            R.equal(sorted(listed), sorted(set(model.values())), "other clusters after opening")
            idx.delete_features(sorted(model)[:1100])
            R.equal(kit.summary_errors(path), [], "wrong cluster summaries after an edit")
