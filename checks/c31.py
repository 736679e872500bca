"""
C31 Indexing commands always reflect the current corpus and keep the model.

Explores histories of the commands of each kind of corpus (collect or replace
documents, index, model) and edits, compares the index after every run of an
index command with a brand new library index over the same content.
"""

import gc
import itertools
import os
import sys

from click.testing import CliRunner

from mc import faults, kit
from mc.env import CTL, workdir
from mc.positions import stored_positions

from checks import c21, c29

from hyperreal import cli, utilities
from hyperreal.corpus import PlainTextSqliteCorpus, StackExchangeCorpus, TwittersphereCorpus

TECHNIQUE = "explicit-state breadth-first exploration of histories of command line runs on the real commands, and enumeration of their failure points"
NOTE = (
    "All histories of corpus changes, index commands, modelling commands and pins to the stated depth for the three kinds of corpora, with equal "
    "stored states merged; after every index command the index is compared with a new library index over the same content."
)
LEVEL = "model_checking"
BOUNDS = {
    "quick": "histories of up to 4 operations out of 9 to 10 after a first index (plain text, Stack Exchange, Twittersphere); 10 kinds of files that are not an index, corpora of the other kinds; "
    "every statement, row, interruption and background task of a reindexing command; 12000 documents with the default batch size",
    "thorough": "histories of up to 5 operations",
}
ASSUMPTIONS = ["modelling inside histories uses a fixed seed (C27 covers the model command)"]


class Unraisable:
    """Errors in generators that are abandoned: Python reports and drops them."""

    def __enter__(self):
        self.seen = []
        self.original = sys.unraisablehook
        sys.unraisablehook = lambda u: self.seen.append(type(u.exc_value))
        return self

    def __exit__(self, *exc):
        gc.collect()
        sys.unraisablehook = self.original


def invoke(args, stdin=None):
    return CliRunner().invoke(cli.cli, args, input=stdin)


# ------------------------------------------------------- kinds of corpora ----
class Kind:
    """A corpus with a few contents, changed by its own commands where there are some."""

    settings = {
        "index": [],
        "index by one": ["--doc-batch-size", "1", "--index-positions", "true"],
        "index words": ["--doc-batch-size", "2", "--index-positions", "false"],
    }

    def open(self, path):
        return self.corpus(path)


class Plain(Kind):
    group = "plaintext-corpus"
    corpus = PlainTextSqliteCorpus
    contents = {
        "A": 'a b a\nc b\n"d \\" e\\n f"\n\n  \nx\n',
        "B": "c c a\nnew words b\n",
        "C": "c b\na b a\n\"quoted\nx y z\na b a\nd\n",
        "none": "\n",
    }
    first = ("A",)

    def change(self, d, path, state, op):
        source = os.path.join(d, "texts.txt")
        with open(source, "w", encoding="utf-8") as f:
            f.write(self.contents[op])
        result = invoke([self.group, "create", source, path])
        return result, (op,)

    def fresh(self, d, path, state):
        """The same content without the commands."""
        import json

        corpus = PlainTextSqliteCorpus(path)
        lines = [line for line in self.contents[state[-1]].split("\n") if line.strip()]
        corpus.replace_docs([json.loads(x) if len(x) > 1 and x[0] == x[-1] == '"' else x for x in lines])
        corpus.close()


class Stack(Kind):
    group = "stackexchange-corpus"
    corpus = StackExchangeCorpus
    contents = {
        "A": ("A", c21.OPTIONS[1]),
        "B": ("B", c21.OPTIONS[4]),
        "A2": ("A", (("b", "c"), "Anna", True, True, False, "second", "Why")),
    }
    first = ("A",)

    def change(self, d, path, state, op):
        site, options = self.contents[op]
        result = invoke([self.group, "add-site", *c21.write(d, c21.dump(site, *options)), c21.SITES[site], path])
        return result, state + (op,)

    def fresh(self, d, path, state):
        corpus = StackExchangeCorpus(path)
        for op in state:
            site, options = self.contents[op]
            c21.load(corpus, d, site, c21.dump(site, *options))
        corpus.close()


class Tweets(Kind):
    group = "twittersphere-corpus"
    corpus = TwittersphereCorpus
    contents = {"A": (0, 1, 3), "B": (2, 5, 9, 7), "none": ()}
    first = ("A",)

    def change(self, d, path, state, op):
        world = c29.World()
        world.related()
        for n, i in enumerate(self.contents[op]):
            world.add(str(100 + n * 7 + i), "Ann", *c29.SHAPES[i])
        world.add("3", "bob", "original", "tags", "one" if op != "none" else "referenced", False)
        world.write(path, again=os.path.exists(path))
        return None, (op,)

    def fresh(self, d, path, state):
        self.change(d, path, state, state[-1])


KINDS = {"plain": Plain(), "stack": Stack(), "tweets": Tweets()}
EDITS = ("model", "restart", "pin")


def jobs(tier, seed):
    depth = 4 if tier == "quick" else 5
    out = []
    for name, kind in KINDS.items():
        ops = [*kind.contents, *kind.settings, *EDITS]
        out += [("histories", name, op, depth) for op in ops]
        out += [("failing", name, i, 3) for i in range(3)]
    out += [("refused",), ("wide",)]
    return out


# ---------------------------------------------------------------- looking ----
def content(idx):
    """Everything the index says about documents, in terms of their keys."""
    out = {"summary": {row[0]: row[1:] for row in idx.indexed_field_summary()}, "features": {}}
    for field in out["summary"]:
        for value, n, docs in idx.iter_field_docs(field):
            out["features"][field, value] = (n, sorted(idx.convert_query_to_keys(docs)))
    out["positions"] = stored_positions(idx)
    out["keys"] = sorted(kit.doc_keys(idx).values())
    return out


_fresh = {}


def fresh_content(kind, state, op):
    key = (kind.group, state, op)
    if key not in _fresh:
        options = dict(zip(kind.settings[op][::2], kind.settings[op][1::2]))
        with workdir("fresh") as d:
            path = os.path.join(d, "c.db")
            kind.fresh(d, path, state)
            corpus = kind.open(path)
            with kit.opened(os.path.join(d, "i.db"), corpus) as idx:
                idx.index(
                    doc_batch_size=int(options.get("--doc-batch-size", 5000)),
                    index_positions=options.get("--index-positions", "true") == "true",
                )
                _fresh[key] = content(idx)
            corpus.close()
    return _fresh[key]


def succeeded(R, result, what):
    R.check(result is None or result.exit_code == 0, f"{what} fails", lambda: [repr(result.exception), result.output[-500:]])
    return result is None or result.exit_code == 0


def judge(R, kind, corpus_db, path, state, op, before):
    """The index at path is that of the current corpus, and the model that of before."""
    features, model = before
    now = kit.features_of(path)
    R.check(all(now.get(f) == v for f, v in features.items()), "a feature did not keep its id", lambda: {"before": features, "after": now})
    R.equal(kit.model_of(path), model, "indexing changed clusters or pins")
    errors = kit.summary_errors(path)
    R.check(not errors, "cluster summaries do not follow the new documents", errors)
    want = fresh_content(kind, state, op)
    corpus = kind.open(corpus_db)
    with kit.opened(path, corpus) as idx:
        got = content(idx)
        for what in want:
            R.equal(got[what], want[what], f"the index differs from one of the current corpus: {what}")
        R.equal([k for _, k, _ in idx.docs(range(len(want["keys"])))], want["keys"], "the documents are not those of the corpus")
    corpus.close()
    kit.checkpoint(path)


def run(R, kind, d, corpus_db, path, state, op):
    """Applies an operation; returns the new state of the corpus."""
    if op in kind.contents:
        indexed = kit.dump(path)
        result, state = kind.change(d, corpus_db, state, op)
        succeeded(R, result, "changing the corpus")
        R.equal(kit.dump(path), indexed, "changing the corpus changes the index")
    elif op in kind.settings:
        before = kit.features_of(path), kit.model_of(path)
        source = kit.dump(corpus_db)
        result = invoke([kind.group, "index", corpus_db, path, *kind.settings[op]])
        if succeeded(R, result, "an index command"):
            judge(R, kind, corpus_db, path, state, op, before)
        R.equal(kit.dump(corpus_db), source, "indexing changes the corpus")
    elif op == "pin":
        with kit.opened(path) as idx:
            idx.pin_clusters(idx.cluster_ids[:1])
            idx.pin_features(sorted(kit.features_of(path))[:9:4])
    else:
        options = ["--min-docs", "1", "--iterations", "1", "--random-seed", "3"]
        options += ["--restart", "--clusters", "2"] if op == "restart" else []
        with kit.raw(path) as c:
            possible = c.execute("select 1 from inverted_index where docs_count > 0").fetchall()
        result = invoke(["model", path, *(options if op == "restart" else options + ["--clusters", "3"])], "y\n")
        succeeded(R, result, "a model command") if possible else None
    return state


def started(R, kind, d):
    """(corpus bytes, index bytes, state): a corpus and its index, made by the commands."""
    corpus_db, path = os.path.join(d, "c.db"), os.path.join(d, "i.db")
    state = ()
    for op in kind.first:
        _, state = kind.change(d, corpus_db, state, op)
    kit.checkpoint(corpus_db)
    result = invoke([kind.group, "index", corpus_db, path])
    if succeeded(R, result, "the first index command"):
        judge(R, kind, corpus_db, path, state, "index", ({}, ((), (), ())))
    return kit.read_db(corpus_db), kit.read_db(path), state


def job_histories(R, name, first, depth):
    kind = KINDS[name]
    ops = [*kind.contents, *kind.settings, *EDITS]
    with workdir() as d, Unraisable():
        corpus_db, path = os.path.join(d, "c.db"), os.path.join(d, "i.db")
        R.context = {"kind": name, "history": []}
        frontier = [((), *started(R, kind, d))]
        for level in range(depth):
            following = []
            for history, source, data, state in frontier:
                # Everything ends with an index command.
                options = [first] if level == 0 else kind.settings if level == depth - 1 else ops
                for op in options:
                    kit.write_db(corpus_db, source)
                    kit.write_db(path, data)
                    R.context = {"kind": name, "history": [*history, op]}
                    R.run()
                    R.step()
                    after = run(R, kind, d, corpus_db, path, state, op)
                    if R.state((after, kit.dump(path), op in kind.contents and history[-1:])) and level + 1 < depth:
                        following.append(((*history, op), kit.read_db(corpus_db), kit.read_db(path), after))
            frontier = following
        R.sample({"kind": name, "first": first})


def job_failing(R, name, part, parts):
    """An index command that fails or is interrupted."""
    kind = KINDS[name]
    with workdir() as d:
        corpus_db, path = os.path.join(d, "c.db"), os.path.join(d, "i.db")
        R.context = {"kind": name, "history": []}
        source, data, state = started(R, kind, d)
        for op in ("model", "pin", list(kind.contents)[1]):
            state = run(R, kind, d, corpus_db, path, state, op)
        source, data = kit.read_db(corpus_db), kit.read_db(path)
        indexed, corpus_before = kit.dump(path), kit.dump(corpus_db)
        command = [kind.group, "index", corpus_db, path, "--doc-batch-size", "2"]

        def attempt(target):
            kit.write_db(corpus_db, source)
            kit.write_db(path, data)
            with Unraisable() as dropped, faults.injected(target) as counter:
                result = invoke(command)
            code, shown = result.exit_code, repr(result.exception)
            del result
            gc.collect()
            return counter, code, shown, any(issubclass(e, faults.INJECTED) for e in dropped.seen)

        counter, code, shown, _ = attempt(None)
        R.check(code == 0, "an index command fails", shown)
        after = kit.dump(path)
        # The connections of a command are never closed explicitly, so that
        # the fault has to hit before the commit.
        points = counter.points
        ends = [i for i, p in enumerate(points) if p[2].lower().startswith(("commit", "end", "release")) and p[0] == "main"]
        last = max(ends, default=len(points) - 1)
        for target in faults.chosen(points[: last + 1])[part::parts]:
            counter, code, shown, dropped = attempt(target)
            R.context = {"kind": name, "fails": counter.fired}
            R.run()
            R.step()
            R.state(counter.fired)
            if code == 0 and dropped:
                R.equal(kit.dump(path), after, "an index command gives another index")
            else:
                R.check(code != 0, "a failing index command reports success", shown)
                R.equal(kit.dump(path), indexed, "a failing index command changes the index")
            R.equal(kit.dump(corpus_db), corpus_before, "a failing index command changes the corpus")
            result = invoke(command)
            if succeeded(R, result, "the next index command"):
                R.equal(kit.dump(path), after, "the next index command gives another index")


def job_refused(R):
    """Targets that are not an index, and corpora that are not of the kind."""
    from checks.c27 import NOT_INDEXES, content as stored

    with workdir() as d:
        made = {}
        for name, kind in KINDS.items():
            corpus_db = os.path.join(d, name + ".db")
            kind.change(d, corpus_db, (), kind.first[0])
            made[name] = kit.read_db(corpus_db)
    for (name, kind), (file, make) in itertools.product(KINDS.items(), NOT_INDEXES.items()):
        if file in ("missing", "empty"):
            continue  # a new index is made there
        with workdir() as d:
            corpus_db, path = os.path.join(d, "c.db"), os.path.join(d, "thing")
            kit.write_db(corpus_db, made[name])
            make(path)
            before = stored(path)
            R.context = {"kind": name, "index": file}
            result = invoke([kind.group, "index", corpus_db, path])
            R.run()
            R.step()
            R.state((name, file))
            R.check(result.exit_code != 0, "something that is not an index is indexed into", result.output)
            del result
            gc.collect()
            R.equal(stored(path), before, "a refused index command changes its target")
            R.equal(kit.read_db(corpus_db), made[name], "a refused index command changes the corpus")
    for (name, kind), other, modelled in itertools.product(KINDS.items(), [*KINDS, "index"], (False, True)):
        if other == name:
            continue
        with workdir() as d:
            corpus_db, path = os.path.join(d, "c.db"), os.path.join(d, "i.db")
            kit.write_db(corpus_db, made[name])
            R.context = {"kind": name, "corpus": other}
            _, data, state = started(R, kind, d)
            if modelled:
                run(R, kind, d, corpus_db, path, state, "model")
            before = kit.dump(path)
            wrong = os.path.join(d, "wrong.db")
            kit.write_db(wrong, made.get(other) or data)
            was = kit.dump(wrong)
            result = invoke([kind.group, "index", wrong, path])
            R.run()
            R.step()
            R.state((name, other, modelled))
            R.check(result.exit_code != 0, "a corpus of another kind is indexed", result.output)
            del result
            gc.collect()
            R.equal(kit.dump(path), before, "a failing index command changes the index")
            R.equal(kit.dump(wrong), was, "a failing index command changes what it should have read")


def job_wide(R):
    """More documents than the default batch."""
    lines = [f"every w{i % 7} v{i % 4001} line" + (f" u{i}" if i % 100 == 0 else "") for i in range(12003)]
    moved = lines[5001:] + ["every last line"] * 3
    with workdir() as d:
        source, corpus_db, path = (os.path.join(d, n) for n in ("t.txt", "c.db", "i.db"))
        kept = None
        for n, texts in enumerate((lines, moved)):
            with open(source, "w", encoding="utf-8") as f:
                f.write("".join(t + "\n" for t in texts))
            R.context = {"wide": n}
            if not succeeded(R, invoke(["plaintext-corpus", "create", source, corpus_db]), "changing the corpus"):
                return
            if not succeeded(R, invoke(["plaintext-corpus", "index", corpus_db, path]), "an index command"):
                return
            R.run()
            R.step()
            R.state(n)
            want, counts = {}, 0
            for i, t in enumerate(texts, 1):
                tokens = utilities.tokens(t)
                counts += len(tokens)
                for token in tokens:
                    want.setdefault(token, set()).add(i)
            with kit.opened(path) as idx:
                keys = kit.doc_keys(idx)
                R.equal(sorted(keys.values()), list(range(1, len(texts) + 1)), "the documents are not those of the corpus")
                got = {value: (n, {keys[i] for i in docs}) for value, n, docs in idx.iter_field_docs("text")}
                R.check(got == {v: (len(s), s) for v, s in want.items()}, "the index differs from one of the current corpus")
                R.equal(
                    [tuple(row) for row in idx.indexed_field_summary()],
                    [("text", len(want), min(want), max(want), counts)],
                    "the index differs from one of the current corpus: summary",
                )
                some = idx.lookup_feature_id(("text", "w3"))
                found = idx.score_passages_dnf([[some]], 3)
                R.equal(
                    {keys[i]: p for i, p in found.items()}, {i: [("text", 1, 1, 1)] for i in want["w3"]}, "passages differ from those of the current corpus"
                )
            ids = {v: f for f, v in kit.features_of(path).items()}
            if kept:
                R.check(all(ids[v] == f for v, f in kept.items()), "a feature did not keep its id")
            kept = ids
            if n == 0:
                succeeded(R, invoke(["model", path, "--clusters", "5", "--iterations", "1", "--random-seed", "1"]), "a model command")
                model = kit.model_of(path)
            else:
                R.equal(kit.model_of(path), model, "indexing changed clusters or pins")
                R.check(not (e := kit.summary_errors(path)), "cluster summaries do not follow the new documents", e)
