"""
C20 A plain text corpus holds exactly the documents it was given.
"""

import itertools
import json
import os
import sqlite3

from click.testing import CliRunner

from mc import crash, faults, kit
from mc.env import CTL, SqlHook, workdir

from hyperreal import cli, utilities
from hyperreal.corpus import PlainTextSqliteCorpus

TECHNIQUE = (
    "exhaustive enumeration of contents and files, of failure points of the input and the database, of crash points and log prefixes, and of reader interleavings, on the real corpus"
)
NOTE = (
    "Every failing position, statement and row; every file state a killed process can leave; every placement of a reader's steps "
    "between the steps of a replacement."
)
LEVEL = "model_checking"
BOUNDS = {
    "quick": "replacements of up to 3100 documents by up to 3100, also from files, every committed state and failing at every 100th; all sequences of up to 4 of 9 texts after each of 3 earlier contents; all files of up to 3 of 16 lines and every 30th of 4; replacements of 0..4 documents by 0..4 "
    "with every failure and crash point, normal and one-page cache; a reader with every split of its steps",
    "thorough": "all sequences of up to 5 texts, every fourth file of 4 lines; longer readers",
}
ASSUMPTIONS = ["a process crash loses nothing already written to the file system"]

TEXTS = ["", "one", " lead and trail ", 'a "quote", comma', "it’s “curly”", "two\nlines\r\n", "nul\x00inside", "é😀", "<b>&amp;"]
EARLIER = [None, [], ["old one", "old two", "one"]]


def jobs(tier, seed):
    deep = tier == "thorough"
    n = 8 if not deep else 32
    out = [("contents", i, n, deep) for i in range(n)]
    out += [("files", i, n, deep) for i in range(n)]
    out += [("failing", i) for i in range(len(EARLIER))]
    sizes = [(0, 2), (2, 0), (3, 2), (2, 4), (None, 3)]
    out += [("crashes", *s, small) for s in sizes for small in (False, True)]
    out += [("large", small) for small in (False, True)]
    out += [("readers", *s) for s in ((2, 2), (3, 1), (0, 2), (1, 3))]
    out += [("wide", n, m) for n, m in ((2500, 3100), (3100, 40), (None, 2500), (1500, 0))]
    if deep:
        out += [("readers", *s) for s in ((5, 4), (4, 6))]
    return out


def content(path_or_corpus):
    """[(key, text)] as the corpus gives them, None when there is no content yet."""
    own = not isinstance(path_or_corpus, PlainTextSqliteCorpus)
    corpus = PlainTextSqliteCorpus(path_or_corpus) if own else path_or_corpus
    try:
        return [(key, doc["text"]) for key, doc in corpus.docs()]
    except sqlite3.OperationalError as e:
        if "no such table" in str(e):
            return None
        raise
    finally:
        if own:
            corpus.close()


def texts_of(pairs):
    return None if pairs is None else [t for _, t in pairs]


def fill(path, texts):
    for suffix in ("", "-wal", "-shm", "-journal"):
        if os.path.exists(path + suffix):
            os.unlink(path + suffix)
    if texts is not None:
        corpus = PlainTextSqliteCorpus(path)
        corpus.replace_docs(texts)
        corpus.close()


def judge(R, corpus, texts):
    """Everything a corpus can be asked for."""
    docs = list(corpus.docs())
    keys = list(corpus.keys())
    R.equal([doc["text"] for _, doc in docs], texts, "other documents than were given, or another order")
    R.equal([k for k, _ in docs], keys, "keys and documents differ")
    R.equal(len(set(keys)), len(texts), "keys are not unique")
    known = dict(zip(keys, texts))
    for wanted in (keys, keys[::-1], keys[1:2], []):
        R.equal(
            [(k, d["text"]) for k, d in corpus.docs(doc_keys=wanted)],
            [(k, known[k]) for k in wanted],
            "a key retrieves another document",
        )
    R.equal([(k, d["text"]) for k, d in corpus], [(k, known[k]) for k in keys], "going through the corpus gives other documents")
    for k, doc in docs:
        R.equal([(x, d["text"]) for x, d in corpus[k]], [(k, known[k])], "a key retrieves another document")
        R.equal(corpus.index(doc), {"text": utilities.tokens(known[k])}, "indexed text is not the document's")
    R.equal(
        [(k, row["text"]) for k, row in corpus.render_docs_table(keys[::-1])],
        [(k, known[k]) for k in keys[::-1]],
        "a table shows other texts",
    )
    R.equal(
        [(k, str(t)) for k, t in corpus.render_docs_html(keys)], [(k, known[k]) for k in keys], "a page shows other texts"
    )


def job_contents(R, part, parts, deep):
    every = [c for n in range(6 if deep else 5) for c in itertools.product(TEXTS, repeat=n)]
    with workdir() as d:
        path = os.path.join(d, "c.db")
        for i, texts in enumerate(every[part::parts]):
            for j, earlier in enumerate(EARLIER):
                if j and i % 3 != j:
                    continue
                fill(path, earlier)
                corpus = PlainTextSqliteCorpus(path)
                R.context = {"texts": texts, "earlier": earlier}
                given = [list(texts), tuple(texts), (t for t in texts), iter(texts)][i % 4]
                corpus.replace_docs(given)
                R.run()
                R.step()
                R.state((texts, j))
                R.outcome(texts)
                judge(R, corpus, list(texts))
                corpus.close()
                other = PlainTextSqliteCorpus(path)
                R.equal(texts_of(content(other)), list(texts), "another connection finds other documents")
                other.close()


# ------------------------------------------------------------ command line ----
LINES = [
    "plain text",
    "comma, separated, values",
    '"A quoted line, of dialogue," he said',
    '"Stop!" she said, "or else"',
    '"json \\n with \\"escapes\\" \\u00e9"',
    '"plain json"',
    '"broken \\x json"',
    '"unclosed quote',
    "ends with a quote\"",
    "  leading and trailing  ",
    "",
    "   ",
    "\t",
    "don't “curl”",
    "[1, 2]",
    "é😀 <b>",
]


def expected(line):
    """[document] or []"""
    if not line.strip():
        return []
    if len(line) > 1 and line[0] == line[-1] == '"':
        try:
            return [json.loads(line)]
        except ValueError:
            pass
    return [line]


def job_files(R, part, parts, deep):
    every = []
    for n in range(5):
        every += list(itertools.product(LINES, repeat=n))[:: {4: 4 if deep else 30}.get(n, 1)]
    runner = CliRunner()
    with workdir() as d:
        path, source = os.path.join(d, "c.db"), os.path.join(d, "texts.txt")
        for i, lines in enumerate(every[part::parts]):
            ending = ("\n", "\r\n")[i // 3 % 2]
            data = ending.join(lines) + ("" if i % 2 else ending)
            with open(source, "wb") as f:
                f.write(data.encode())
            fill(path, EARLIER[i % 3])
            R.context = {"file": data}
            result = runner.invoke(cli.cli, ["plaintext-corpus", "create", source, path])
            R.run()
            R.step()
            R.state((lines, i % 6))
            if result.exception is not None:
                if not isinstance(result.exception, (Exception,)):
                    raise result.exception
                R.violation("the command fails", repr(result.exception))
                continue
            want = [t for line in lines for t in expected(line)]
            R.equal(texts_of(content(path)), want, "other documents than the lines of the file")
            R.outcome(want)
        # a file that stops being text part way
        for i, lines in enumerate(itertools.product(LINES[:4], repeat=2)):
            if i % parts == part:
                with open(source, "wb") as f:
                    f.write("\n".join(lines).encode() + b"\nmore " * 5000 + b"\n\xff\xfe broken\nend\n")
                fill(path, EARLIER[2])
                R.context = {"file": "text, then bytes that are not text"}
                result = runner.invoke(cli.cli, ["plaintext-corpus", "create", source, path])
                R.run()
                R.step()
                R.check(result.exit_code != 0, "the command reports success for a broken file")
                R.equal(texts_of(content(path)), EARLIER[2], "a failed command changes the content")


# --------------------------------------------------------------- failures ----
class Broken(Exception):
    pass


class BrokenHarder(BaseException):
    pass


def job_failing(R, which):
    earlier = EARLIER[which]
    with workdir() as d:
        path = os.path.join(d, "c.db")

        def after(corpus, what):
            """The old content, and an object that still works."""
            R.equal(texts_of(content(corpus)), earlier, "a failed replacement changes the content", what)
            R.equal(texts_of(content(path)), earlier, "a failed replacement changes the content", what)
            if not R.check(not corpus.db.in_transaction, "a failed replacement leaves a transaction open", what):
                corpus.close()
                return
            corpus.replace_docs(["next", "again"])
            R.equal(texts_of(content(corpus)), ["next", "again"], "later replacements fail", what)
            corpus.close()
            R.equal(texts_of(content(path)), ["next", "again"], "later replacements are lost", what)

        # the input fails
        for length in range(5):
            for error in (Broken("no"), ValueError("no"), OSError("no"), KeyboardInterrupt(), BrokenHarder(), sqlite3.IntegrityError("no"), StopAsyncIteration()):

                def failing():
                    for i in range(length):
                        yield f"new {i}"
                    raise error

                fill(path, earlier)
                corpus = PlainTextSqliteCorpus(path)
                what = R.context = {"earlier": earlier, "fails after": length, "error": repr(error)}
                R.run()
                R.step()
                R.state((which, length, repr(error)))
                try:
                    corpus.replace_docs(failing())
                except type(error) as e:
                    R.outcome(repr(e))
                else:
                    R.violation("a failed replacement is not reported", what)
                    corpus.close()
                    continue
                after(corpus, what)
        # texts that cannot be stored
        for bad in ("\ud800", object(), ["list"]):
            for position in range(3):
                texts = ["a", "b"]
                texts.insert(position, bad)
                fill(path, earlier)
                corpus = PlainTextSqliteCorpus(path)
                what = R.context = {"earlier": earlier, "texts": repr(texts)}
                R.run()
                R.step()
                R.state((which, position, repr(bad)))
                try:
                    corpus.replace_docs(texts)
                except Exception as e:
                    R.outcome(type(e).__name__)
                else:
                    R.violation("a failed replacement is not reported", what)
                after(corpus, what)
        # the database fails
        target = 0
        while True:
            fill(path, earlier)
            corpus = PlainTextSqliteCorpus(path)
            corpus.db
            with faults.injected(target) as hook:
                failed = None
                try:
                    corpus.replace_docs(["new 0", "new 1"])
                except faults.INJECTED as e:
                    failed = e
            what = R.context = {"earlier": earlier, "fault": hook.fired}
            R.run()
            R.step()
            R.state((which, hook.fired))
            if hook.fired is None:
                corpus.close()
                break
            if R.check(failed is not None, "a failed replacement is not reported", what):
                after(corpus, what)
            target += 1
        R.sample({"earlier": earlier, "fault points": target})


# ---------------------------------------------------------------- crashes ----
def raw_content(conn):
    if not list(conn.execute("select 1 from sqlite_master where name = 'doc'")):
        return None
    return [t for (t,) in conn.execute("select text from doc order by doc_id")]


def job_crashes(R, before, after, small, words=1):
    old = None if before is None else [f"old {i} " * words for i in range(before)]
    new = [f"new {i} " * words for i in range(after)]
    with workdir() as d:
        if small:
            CTL.on_connect = crash.small_cache
        path, target = os.path.join(d, "c.db"), os.path.join(d, "crashed.db")
        fill(path, old)
        if old is None:
            kit.orig_connect(path).close()
        corpus = PlainTextSqliteCorpus(path)
        corpus.db.execute("select * from sqlite_master").fetchall()
        R.context = {"before": before, "after": after}
        with crash.watched(path, lambda c: raw_content(c)) as hook:
            corpus.replace_docs(new)
        R.run()
        R.step(hook.points)
        # a reader may have to wait while the file is prepared, which is no mix
        seen = [c for _, c in hook.seen if not isinstance(c, str)]
        seen = [c for i, c in enumerate(seen) if not i or seen[i - 1] != c]
        R.check(seen in ([old, new], [new]) or (old == new), "a reader sees something between the old and the new content", seen)
        images = list(hook.images.values()) + [("the call returned", hook.final)]
        images += [(f"log cut to {w}", f) for w, f in crash.wal_prefixes(hook.final, len(images[0][1].get("-wal", b"")))]
        for what, files in images:
            crash.write_image(target, files)
            got = texts_of(content(target))
            R.run()
            R.state((what, got))
            R.outcome(got)
            if not R.check(got in (old, new), "a crash leaves something between the old and the new content", {"when": what, "got": got}):
                break
            if what == "the call returned":
                R.equal(got, new, "a crash after the call loses the new content")
        corpus.close()


def job_large(R, small):
    """Contents larger than the page cache."""
    job_crashes(R, 40, 30, small, words=400)


# ---------------------------------------------------------------- readers ----
class Interleave(SqlHook):
    """Runs a reader's steps at chosen points of the writer."""

    def __init__(self, path, points, keyed):
        self.path = path
        self.points = points  # how many points pass before each step of the reader
        self.keyed = keyed
        self.count = 0
        self.got = []
        self.busy = False
        self.reader = None
        self.done = False

    def step(self):
        if self.reader is None:
            self.corpus = PlainTextSqliteCorpus(self.path)
            keys = None if self.keyed is None else list(self.keyed)
            self.reader = self.corpus.docs(keys)
        try:
            key, doc = next(self.reader)
            self.got.append(doc["text"])
        except StopIteration:
            self.done = True

    def point(self):
        if self.busy or self.done:
            return
        self.busy = True
        while self.points and self.points[0] == self.count:
            self.points.pop(0)
            self.step()
        self.busy = False
        self.count += 1

    def finish(self):
        self.busy = True
        while not self.done:
            self.step()
        self.corpus.close()

    def before(self, conn, kind, sql, args):
        self.point()
        if kind == "executemany" and args and not self.busy:
            return (self._rows(args[0]),) + tuple(args[1:])
        return None

    def _rows(self, rows):
        for row in rows:
            self.point()
            yield row

    def after(self, conn, kind, sql, error):
        self.point()


def job_readers(R, before, after):
    old = [f"old {i}" for i in range(before)]
    new = [f"new {i}" for i in range(after)]
    with workdir() as d:
        path = os.path.join(d, "c.db")

        def run(points, keyed):
            fill(path, old)
            # the file stays as it is while a connection is open
            keep = kit.orig_connect(path)
            keep.execute("select * from doc").fetchall()
            writer = PlainTextSqliteCorpus(path)
            hook = Interleave(path, list(points), keyed)
            CTL.sql_hook = hook
            R.context = {"before": before, "after": after, "reader's steps at": points, "keys": keyed}
            try:
                writer.replace_docs(new)
                hook.finish()
            finally:
                CTL.sql_hook = None
            writer.close()
            keep.close()
            R.run()
            R.step(hook.count)
            R.state((before, after, tuple(points), keyed is None))
            R.outcome(hook.got)
            if keyed is None:
                R.check(hook.got in (old, new), "a reader sees a mix of old and new documents", hook.got)
            else:
                R.check(hook.got in ([old[k - 1] for k in keyed], [new[k - 1] for k in keyed]), "a reader sees a mix of old and new documents", hook.got)
            R.equal(texts_of(content(path)), new, "a replacement is lost next to a reader")
            return hook.count

        total = run([], None)
        both = min(before, after)
        for keyed in (None, list(range(1, both + 1))[::-1]):
            if keyed is not None and len(keyed) < 1:
                continue
            steps = (before if keyed is None else len(keyed)) or 1
            for points in itertools.combinations_with_replacement(range(total + 1), min(steps, 3)):
                run(points, keyed)


def job_wide(R, before, after):
    """Thousands of documents."""
    old = None if before is None else [f"old {i}" * (i % 9) for i in range(before)]
    new = [f"new {i} " * (i % 200 + 1) for i in range(after)]
    with workdir() as d:
        path, source = os.path.join(d, "c.db"), os.path.join(d, "texts.txt")
        fill(path, old)
        if old is None:
            kit.orig_connect(path).close()
        for at in range(0, after + 1, 100):
            corpus = PlainTextSqliteCorpus(path)

            def failing():
                yield from new[:at]
                raise Broken("no")

            R.context = {"before": before, "fails after": at}
            R.run()
            R.step()
            R.state((before, after, at))
            with crash.observed(path, raw_content) as hook:
                try:
                    corpus.replace_docs(failing())
                except Broken:
                    pass
                else:
                    R.violation("a failed replacement is not reported")
            # the empty tables may be there already
            R.check(len(hook.seen) <= (1 if before is not None else 2), "a failed replacement is visible", lambda: [w for w, _ in hook.seen])
            R.check(texts_of(content(path)) in (old, old or []), "a failed replacement changes the content")
            R.check(not corpus.db.in_transaction, "a failed replacement leaves a transaction open")
            corpus.close()
        corpus = PlainTextSqliteCorpus(path)
        R.context = {"before": before, "after": after}
        with crash.observed(path, raw_content) as hook:
            corpus.replace_docs(iter(new))
        R.run()
        R.step(hook.points)
        seen = [c or [] for _, c in hook.seen]
        seen = [c for i, c in enumerate(seen) if not i or seen[i - 1] != c]
        R.check(seen == ([old or [], new] if (old or []) != new else [new]), "a reader sees something between the old and the new content", len(seen))
        judge(R, corpus, new)
        corpus.close()
        if old is not None:
            with open(source, "w", encoding="utf-8") as f:
                f.write("\n".join(t or " " for t in old))
            result = CliRunner().invoke(cli.cli, ["plaintext-corpus", "create", source, path])
            R.run()
            R.check(result.exit_code == 0, "the command fails", repr(result.exception))
            R.check(texts_of(content(path)) == [t for t in old if t], "other documents than the lines of the file")
