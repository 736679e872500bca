"""
C27 Command line modelling protects and refines the existing model.
"""

import itertools
import os
import sqlite3

from click.testing import CliRunner

from checks import c21, c29
from mc import kit
from mc.env import CTL, workdir
from mc.kit import sqlite_order

from hyperreal import cli, corpus, server
from hyperreal.index import Index

TECHNIQUE = "exhaustive enumeration of command lines, confirmation answers and command sequences from each starting state on the real commands, against the library and the documents"
NOTE = "The real commands run in process through click; serving is stopped at the call that would open a socket."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "model on an index without a model: clusters x minimum documents x fields x restart x minimum features; on 3 existing models: all pairs of option "
    "values and 9 answers to the restart question; all sequences of 2 of 11 commands; 80 option combinations with up to 8 clusters; every command on 10 kinds of files that are no index of theirs; serving",
    "thorough": "as quick with the full option grid, and all sequences of 3 of 11 commands",
}
ASSUMPTIONS = ["the process pool of the commands runs its tasks in this process"]

DOCS = {
    "d1": {"text": ["a", "b", "a", "c"], "tag": {"x"}},
    "d2": {"text": ["b", "c"], "tag": {"x", "y"}},
    "d3": {"text": ["c", "b"], "tag": {7}},
    "d4": {"text": ["b"], "tag": {"y", 7}},
    "d5": {"text": ["d", "a", "b"], "tag": {"z"}},
    "d6": {"text": ["a", "d"], "tag": {"x", "z", 7}},
}
REF = kit.Ref(DOCS)

# What the help says happens without an option.
DEFAULTS = {
    "iterations": 10,
    "clusters": None,
    "min-docs": 100,
    "include-field": [],
    "restart": False,
    "tolerance": 0.01,
    "move-acceptance-probability": 0.5,
    "random-seed": None,
    "minimum-cluster-features": 1,
    "group-test-batches": None,
    "group-test-top-k": 2,
}

GRID = {
    "iterations": [1, 2, None],
    "clusters": [None, 1, 2, 3, 6],
    "min-docs": [1, 2, 3, None],
    "include-field": [[], ["tag"], ["text"], ["tag", "text"], ["text", "nope"], ["nope"], ["tag", "tag"]],
    "tolerance": [None, 0, 1],
    "move-acceptance-probability": [None, 0, 1],
    "random-seed": [1, 2],
    "minimum-cluster-features": [None, 2],
    "group-test-batches": [None, 0, 2],
    "group-test-top-k": [None, 1],
}


def arguments(options):
    out = []
    for name, value in options.items():
        if name == "restart":
            out += ["--restart"] if value else []
        elif name == "include-field":
            for v in value:
                out += ["--include-field", v]
        elif value is not None:
            out += [f"--{name}", str(value)]
    return out


def run(path, options, answer=""):
    return CliRunner().invoke(cli.cli, ["model", path, *arguments(options)], input=answer)


def library(path, options, fresh):
    """The same with library calls. fresh: whether to make a new model."""
    o = {**DEFAULTS, **{k: v for k, v in options.items() if v is not None}}
    idx = kit.open_index(path, seed=o["random-seed"])
    try:
        clusters = o["clusters"]
        if fresh:
            clusters = clusters or 64
            idx.initialise_clusters(n_clusters=clusters, min_docs=o["min-docs"], include_fields=o["include-field"] or None)
        idx.refine_clusters(
            iterations=o["iterations"],
            target_clusters=clusters,
            tolerance=o["tolerance"],
            move_acceptance_probability=o["move-acceptance-probability"],
            minimum_cluster_features=o["minimum-cluster-features"],
            group_test_batches=o["group-test-batches"],
            group_test_top_k=o["group-test-top-k"],
        )
    finally:
        idx.close()


def state(path):
    """The model without anything incidental."""
    out = kit.dump(path)
    return {k: v for k, v in out.items() if k in ("feature_cluster", "cluster", "inverted_index", "doc_key")} or out


def wanted_features(options):
    o = {**DEFAULTS, **{k: v for k, v in options.items() if v is not None}}
    return {
        key
        for key, docs in REF.features.items()
        if len(docs) >= o["min-docs"] and (not o["include-field"] or key[0] in o["include-field"])
    }


def modelled(path):
    known = kit.features_of(path)
    return {known[f] for _, fs in kit.model_of(path)[0] for f in fs}


def plain():
    return kit.template("c27", lambda path: kit.build(path, DOCS, batch=2))


def existing(name):
    """An index with a model."""

    def builder(path):
        kit.write_db(path, plain())
        f = {v: k for k, v in kit.features_of(path).items()}
        a, b, c, d = (f[("text", v)] for v in "abcd")
        x, y, z, n = (f[("tag", v)] for v in ("x", "y", "z", 7))
        with kit.raw(path) as conn:
            if name == "simple":
                kit.set_model(conn, {a: 0, b: 0, x: 1, y: 1, c: 2, d: 2, n: 2})
            elif name == "pinned":
                kit.set_model(conn, {a: 3, b: 3, x: 5, y: 5, c: 9, d: 9, z: 9, n: 11}, [a, y], [9])
            elif name == "single":
                kit.set_model(conn, {a: 4, b: 4, c: 4, d: 4, x: 4})

    return kit.template("c27-" + name, builder)


EXISTING = ("simple", "pinned", "single")


def create_grid(deep):
    names = ["clusters", "min-docs", "include-field", "minimum-cluster-features", "iterations", "random-seed"]
    for values in itertools.product(*(GRID[n] for n in names)):
        if not deep:
            # one iteration count and seed per combination of the others
            n = GRID["min-docs"].index(values[1]) + len(values[2]) + GRID["clusters"].index(values[0])
            if values[4] != GRID["iterations"][n % 3] or values[5] != GRID["random-seed"][n % 2]:
                continue
        yield dict(zip(names, values))


def pairs_grid(deep):
    """All pairs of option values, the rest left out."""
    names = [n for n in GRID if n != "random-seed"]
    seen = set()
    for a, b in itertools.combinations(names, 2):
        for va, vb in itertools.product(GRID[a], GRID[b]):
            options = {a: va, b: vb, "random-seed": 1}
            options = {k: v for k, v in options.items() if v not in (None, [])}
            key = repr(sorted(options.items()))
            if key not in seen:
                seen.add(key)
                yield options
                if deep:
                    yield {**options, "random-seed": 2}


# What somebody may type when asked to confirm: (input, is it a yes)
ANSWERS = (
    ("y\n", True),
    ("yes\n", True),
    ("Y\n", True),
    ("maybe\ny\n", True),
    ("n\n", False),
    ("\n", False),
    ("", False),
    ("no\n", False),
    ("maybe\nn\n", False),
)


def jobs(tier, seed):
    deep = tier == "thorough"
    n = 8 if not deep else 16
    out = [("create", i, n, deep) for i in range(n)]
    out += [("existing", i, 8, name, deep) for name in EXISTING for i in range(8)]
    out += [("restart", name, deep) for name in EXISTING]
    out += [("sequences", i, 8, deep) for i in range(8)]
    out += [("nomoves",), ("refused",), ("serving",), ("wide", deep)]
    return out


def compare(R, path, other, result, options, fresh):
    R.run()
    R.step()
    try:
        library(other, options, fresh)
        failure = None
    except Exception as e:
        failure = type(e).__name__
    if failure is None:
        R.check(result.exit_code == 0, "the command fails where the library does not", repr(result.exception))
    else:
        R.check(result.exit_code != 0, "the command succeeds where the library fails", failure)
    R.equal(state(path), state(other), "the model is not the one the library makes with the same options")
    for error in kit.summary_errors(path):
        R.violation("the summaries of clusters are wrong", error)


def job_create(R, part, parts, deep):
    """Commands on an index without a model."""
    with workdir() as d:
        path, other = os.path.join(d, "i.db"), os.path.join(d, "j.db")
        for n, options in enumerate(create_grid(deep)):
            if n % parts != part:
                continue
            for restart in (False, True) if deep or n % 5 == 0 else (False,):
                options = {**options, "restart": restart}
                R.context = {"model": None, "options": options}
                kit.write_db(path, plain())
                kit.write_db(other, plain())
                result = run(path, options)
                compare(R, path, other, result, options, True)
                if result.exit_code == 0:
                    R.equal(modelled(path), wanted_features(options), "not exactly the requested features are modelled")
                    clusters = len(kit.model_of(path)[0])
                    limit = options.get("clusters") or 64
                    R.check(clusters <= limit, "there are more clusters than requested", clusters)
                    R.outcome(kit.model_of(path))
                R.state((repr(options),))


def job_existing(R, part, parts, name, deep):
    """Refining commands on an existing model."""
    with workdir() as d:
        path, other = os.path.join(d, "i.db"), os.path.join(d, "j.db")
        for n, options in enumerate(pairs_grid(deep)):
            if n % parts != part:
                continue
            R.context = {"model": name, "options": options}
            kit.write_db(path, existing(name))
            kit.write_db(other, existing(name))
            before, features = kit.model_of(path), modelled(path)
            # a confirmation that nobody asked for would be declined
            result = run(path, options, "n\n")
            compare(R, path, other, result, options, False)
            after = kit.model_of(path)
            R.equal(modelled(path), features, "refining changes which features are modelled")
            R.equal(after[1:], before[1:], "refining changes pins")
            for k, fs in before[0]:
                kept = dict(after[0]).get(k, ())
                pinned = set(fs) if k in before[2] else set(fs) & set(before[1])
                R.check(pinned <= set(kept), "refining moves what is pinned", k)
            R.state((name, repr(options)))
            R.outcome(after)


def job_restart(R, name, deep):
    """The question asked before a model is deleted."""
    grid = [
        {},
        {"clusters": 3, "min-docs": 2},
        {"min-docs": 1, "include-field": ["tag"]},
        {"clusters": 2, "min-docs": 1, "include-field": ["text"], "iterations": 1},
        {"min-docs": 1, "minimum-cluster-features": 2, "clusters": 4},
        {"min-docs": 100, "clusters": 2},
    ]
    with workdir() as d:
        path, other = os.path.join(d, "i.db"), os.path.join(d, "j.db")
        for options in grid:
            for seed in (1, 2, 3) if deep else (1,):
                for answer, yes in ANSWERS:
                    options = {**options, "restart": True, "random-seed": seed}
                    R.context = {"model": name, "options": options, "answer": answer}
                    kit.write_db(path, existing(name))
                    kit.write_db(other, existing(name))
                    before = kit.dump(path)
                    result = run(path, options, answer)
                    if yes:
                        compare(R, path, other, result, options, True)
                        R.equal(modelled(path), wanted_features(options), "not exactly the requested features are modelled")
                    else:
                        R.run()
                        R.step()
                        R.check(result.exit_code != 0, "a declined restart looks like a success", result.exit_code)
                        R.equal(kit.dump(path), before, "a declined restart changes the index")
                    R.state((name, repr(options), answer))


def job_nomoves(R):
    """With no move accepted the assignment of an existing model stays."""
    with workdir() as d:
        path = os.path.join(d, "i.db")
        for name, seed, iterations in itertools.product(EXISTING, range(6), (1, 3)):
            for extra in ({}, {"group-test-batches": 2}, {"min-docs": 1}, {"include-field": ["tag"]}, {"tolerance": 0}):
                options = {"iterations": iterations, "move-acceptance-probability": 0, "random-seed": seed, **extra}
                R.context = {"model": name, "options": options}
                kit.write_db(path, existing(name))
                before = kit.model_of(path)
                result = run(path, options, "n\n")
                R.run()
                R.step()
                R.check(result.exit_code == 0, "a refinement fails", repr(result.exception))
                R.equal(kit.model_of(path), before, "features move though no move is accepted")
                R.state((name, repr(options)))


WIDE = {k: {"text": [c for n, c in enumerate("abcdefghijkl") if (k * k + n * (k + 1)) % 5 < 2 or n == k]} for k in range(12)}


def job_wide(R, deep):
    """Options that only matter with more clusters."""
    made = kit.template("c27-wide", lambda path: kit.build(path, WIDE, batch=5))
    with workdir() as d:
        path, other = os.path.join(d, "i.db"), os.path.join(d, "j.db")
        differs = set()
        for batches, top_k, tolerance, accept, minimum in itertools.product(
            (None, 0, 2, 3, 4), (None, 1, 2, 3), (0, 1) if deep else (0,), (0.5, 1) if deep else (1,), (None, 2)
        ):
            for clusters, iterations in ((8, 1), (6, 2)):
                options = {
                    "clusters": clusters, "iterations": iterations, "min-docs": 1, "group-test-batches": batches,
                    "group-test-top-k": top_k, "tolerance": tolerance, "move-acceptance-probability": accept,
                    "minimum-cluster-features": minimum, "random-seed": 3,
                }
                R.context = {"model": "wide", "options": options}
                kit.write_db(path, made)
                kit.write_db(other, made)
                result = run(path, options)
                compare(R, path, other, result, options, True)
                differs.add(repr(kit.model_of(path)))
                # and once more on the model that is there now
                options = {**options, "clusters": None, "random-seed": 4}
                result = run(path, options)
                compare(R, path, other, result, options, False)
                differs.add(repr(kit.model_of(path)))
                R.state(repr(options))
                R.outcome(kit.model_of(path))
        R.note("different models", len(differs))


STEPS = (
    ({"clusters": 3, "min-docs": 2, "random-seed": 1}, ""),
    ({"min-docs": 1, "include-field": ["tag"], "random-seed": 2}, ""),
    ({"iterations": 1, "random-seed": 3}, ""),
    ({"clusters": 2, "iterations": 1, "random-seed": 3}, ""),
    ({"clusters": 6, "iterations": 2, "random-seed": 4}, ""),
    ({"restart": True, "clusters": 2, "min-docs": 1, "random-seed": 5}, "y\n"),
    ({"restart": True, "min-docs": 2, "include-field": ["text"], "random-seed": 5}, "y\n"),
    ({"restart": True, "clusters": 5, "min-docs": 1, "random-seed": 6}, "n\n"),
    ({"restart": True, "clusters": 5, "min-docs": 100, "random-seed": 6}, "y\n"),
    ({"minimum-cluster-features": 2, "clusters": 4, "min-docs": 1, "random-seed": 7}, ""),
    ("reindex", ""),
)

LATER = {
    "d1": {"text": ["a", "e"], "tag": {"x"}},
    "d2": {"text": ["b", "c", "c"], "tag": {"x", "y"}},
    "d7": {"text": ["c", "a"], "tag": {"y", 7}},
    "d5": {"text": ["d"], "tag": {"z"}},
    "d6": {"text": ["b", "d"], "tag": {"x", "z"}},
}


def job_sequences(R, part, parts, deep):
    """Histories of commands."""
    with workdir() as d:
        path, other = os.path.join(d, "i.db"), os.path.join(d, "j.db")
        for n, steps in enumerate(itertools.product(range(len(STEPS)), repeat=3 if deep else 2)):
            if n % parts != part:
                continue
            kit.write_db(path, plain())
            kit.write_db(other, plain())
            for done, step in enumerate(steps):
                options, answer = STEPS[step]
                R.context = {"steps": [STEPS[s] for s in steps[: done + 1]]}
                if options == "reindex":
                    for p in (path, other):
                        with kit.opened(p, kit.MemCorpus(LATER)) as idx:
                            idx.index(doc_batch_size=2)
                    continue
                has = bool(kit.model_of(path)[0])
                before = kit.dump(path)
                result = run(path, options, answer)
                if has and options.get("restart") and answer != "y\n":
                    R.run()
                    R.check(result.exit_code != 0, "a declined restart looks like a success", result.exit_code)
                    R.equal(kit.dump(path), before, "a declined restart changes the index")
                else:
                    compare(R, path, other, result, options, not has or bool(options.get("restart")))
                R.state((state(path), step))


# --------------------------------------------------------------- files ----
def text_file(path):
    with open(path, "w") as f:
        f.write("one line\nanother line\n")


def empty(path):
    open(path, "w").close()


def pretender(path):
    with open(path, "wb") as f:
        f.write(b"SQLite format 3\x00" + b"\x01" * 200)


def truncated(path):
    with open(path, "wb") as f:
        f.write(plain()[:3000])


def some_db(path):
    c = sqlite3.connect(path)
    c.execute("create table notes(t)")
    c.execute("insert into notes values ('x')")
    c.commit()
    c.close()


def other_app(path):
    some_db(path)
    c = sqlite3.connect(path)
    c.execute("pragma application_id = 12345")
    c.execute("pragma user_version = 3")
    c.commit()
    c.close()


def plaintext(path):
    c = corpus.PlainTextSqliteCorpus(path)
    c.replace_docs(["a b", "b c d", "c a"])
    c.close()


def stackexchange(path):
    c = sqlite3.connect(path)
    c.execute("create table Post(doc_id integer primary key)")
    c.commit()
    c.close()


def posts(path, directory):
    loaded = corpus.StackExchangeCorpus(path)
    c21.load(loaded, directory, "A", c21.dump("A"))
    loaded.close()


def tweets(path):
    world = c29.World()
    world.related()
    world.add("10", "Ann", "original", "none", "one", False)
    world.add("20", "Ann", "reply-known", "none", "one", False)
    world.write(path)


SERVED = {
    "serve": type(None),
    "serve plain": corpus.PlainTextSqliteCorpus,
    "serve se": corpus.StackExchangeCorpus,
    "serve tw": corpus.TwittersphereCorpus,
}

NOT_INDEXES = {
    "text": text_file,
    "empty": empty,
    "pretender": pretender,
    "truncated": truncated,
    "database": some_db,
    "other application": other_app,
    "plain text corpus": plaintext,
    "stack exchange corpus": stackexchange,
    "missing": None,
    "directory": os.mkdir,
}

# {name: arguments given index path, corpus path, output path}
COMMANDS = {
    "model": lambda i, c, o: ["model", i, "--min-docs", "1", "--clusters", "2"],
    "model restart": lambda i, c, o: ["model", i, "--restart", "--min-docs", "1"],
    "graph": lambda i, c, o: ["export", "graph", i, o],
    "clusters": lambda i, c, o: ["export", "clusters", i, o],
    "sample": lambda i, c, o: ["plaintext-corpus", "sample", c, i, o],
    "sample se": lambda i, c, o: ["stackexchange-corpus", "sample", c, i, o],
    "serve": lambda i, c, o: ["serve", i],
    "serve plain": lambda i, c, o: ["plaintext-corpus", "serve", c, i],
    "serve se": lambda i, c, o: ["stackexchange-corpus", "serve", c, i],
    "serve tw": lambda i, c, o: ["twittersphere-corpus", "serve", c, i],
}


def content(path):
    if os.path.isdir(path):
        return sorted(os.listdir(path))
    if not os.path.exists(path):
        return None
    with open(path, "rb") as f:
        return f.read()


def listing(directory):
    """Files, apart from those SQLite needs to look into a database."""
    return sorted(n for n in os.listdir(directory) if not n.endswith(("-wal", "-shm")))


class Launched:
    """Stands in for starting the web server."""

    def __init__(self):
        self.servers = []
        self.blocked = 0
        self.works = False
        self.docs = None

    def __enter__(self):
        self.original = server.launch_web_server
        server.launch_web_server = self.launch
        return self

    def __exit__(self, *exc):
        server.launch_web_server = self.original

    def launch(self, index_server, *args, **kwargs):
        self.servers.append(index_server)
        return self

    def block(self):
        self.blocked += 1
        for one in self.servers:
            idx = one.index(0)
            try:
                # the pool has to be usable as long as the server runs
                self.works = idx.pool.submit(len, "ab").result() == 2
                self.docs = None if idx.corpus is None else {key: repr(doc) for key, doc in idx.corpus.docs()}
            finally:
                idx.close()


def job_refused(R):
    """Commands given something that is not an index."""
    for (kind, make), (name, command) in itertools.product(NOT_INDEXES.items(), COMMANDS.items()):
        for target in ("absent", "present"):
            with workdir() as d, Launched() as launched:
                path, out, corpus_db = (os.path.join(d, n) for n in ("thing", "out", "corpus.db"))
                plaintext(corpus_db)
                if make is not None:
                    make(path)
                if target == "present":
                    text_file(out)
                R.context = {"file": kind, "command": name, "output": target}
                before, was, files = content(path), content(out), listing(d)
                result = CliRunner().invoke(cli.cli, command(path, corpus_db, out), input="y\n")
                R.run()
                R.step()
                R.check(result.exit_code != 0, "a command accepts a file that is not an index", result.output)
                R.equal(content(path), before, "a command changes a file that is not an index")
                R.equal(content(out), was, "a refused command writes its output")
                R.equal(listing(d), files, "a refused command leaves files behind")
                R.check(not launched.servers, "something that is not an index is served", name)
                R.state((kind, name, target))


def job_serving(R):
    """What the serve commands serve, and that the exports and serving leave the index alone."""
    for (name, command), model in itertools.product(COMMANDS.items(), (None, *EXISTING)):
        if name.startswith("model") or name in ("sample", "sample se"):
            continue
        with workdir() as d, Launched() as launched:
            path, out, corpus_db = (os.path.join(d, n) for n in ("an index.db", "out", "corpus.db"))
            kit.write_db(path, plain() if model is None else existing(model))
            if name == "serve se":
                posts(corpus_db, d)
            elif name == "serve tw":
                tweets(corpus_db)
            else:
                plaintext(corpus_db)
            before, source = kit.dump(path), content(corpus_db)
            R.context = {"command": name, "model": model}
            result = CliRunner().invoke(cli.cli, command(path, corpus_db, out))
            R.run()
            R.step()
            R.check(result.exit_code == 0, "a command on an index fails", repr(result.exception))
            R.equal(kit.dump(path), before, "a reading command changes the index")
            if name.startswith("serve"):
                R.equal(len(launched.servers), 1, "not one server is started")
                R.equal(launched.blocked, 1, "the server is not kept running")
                R.check(launched.works, "the server runs without its workers")
                idx = launched.servers[0].index(0)
                wanted = SERVED[name]
                R.check(type(idx.corpus) is wanted, "served with another kind of corpus", repr(idx.corpus))
                R.equal(os.path.abspath(idx.db_path), os.path.abspath(path), "another index is served")
                R.equal(len(idx.cluster_ids), len(kit.model_of(path)[0]), "the served model is not that of the index")
                idx.close()
                if name != "serve":
                    c = wanted(corpus_db)
                    R.equal(launched.docs, {key: repr(doc) for key, doc in c.docs()}, "another corpus is served")
                    R.check(launched.docs, "the served corpus is empty")
                    c.close()
                R.equal(content(corpus_db), source, "serving changes the corpus")
            R.state((name, model))
