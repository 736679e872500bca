"""
C21 Stack Exchange dumps load atomically, idempotently and per site.
"""

import itertools
import os
import sqlite3
from collections import Counter
from xml.sax.saxutils import quoteattr

from click.testing import CliRunner

from mc import crash, faults, kit
from mc.env import CTL, workdir

from hyperreal import cli, utilities
from hyperreal.corpus import StackExchangeCorpus

TECHNIQUE = "exhaustive enumeration of dumps, load histories, failure points and crash points (statement boundaries, log prefixes) on the real loader, against a reference of what the dumps say"
NOTE = (
    "Dumps vary in tags, names, answers, other post types and comments; two sites share all their ids. "
    "Documents are read through the corpus and its index method; the order of comments is left open."
)
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all 288 dumps alone and loaded twice; every 13th of all pairs of dumps of one site with another site loaded before, between or after; "
    "a site of 1500 posts, 3000 comments and 400 users, loaded, loaded again smaller, and with another site; every statement, row and interruption of a load, every truncation of its files at an element; all crash states with normal and one-page cache",
    "thorough": "every third of all pairs of dumps; faults of 6 loads",
}
ASSUMPTIONS = [
    "rows missing from a newer dump are documented to stay",
    "a process crash loses nothing already written to the file system",
]

SITES = {"A": "https://a.example.com", "B": "https://B.example.com/Q&A/"}
DATES = {1: "2021-03-04T05:06:07.123", 2: "2021-04-01T00:00:00.000", 3: "2020-12-31T23:59:59.999", 4: "2020-01-01T00:00:00.000", 5: "2022-02-02T02:02:02.000"}


def body(text, code=None, after=None):
    parts = [f"<p>{text}</p>"]
    if code:
        parts.append(f"<pre><code>{code}</code></pre>")
    if after:
        parts.append(f"<p>{after}</p>")
    return "".join(parts)


def dump(site, tags=("a", "b"), name="Ann", answer=True, more=True, other=True, comment="first", title="How"):
    """A dump as lists of attributes, everything named after its site."""
    s = site.lower()
    posts = [
        {
            "Id": "1", "PostTypeId": "1", "Title": f"{title} is it on {site}?", "OwnerUserId": "1",
            "Body": body(f"Question of {site} <b>bold</b>", f"code {s}", "after the code"), "Tags": "".join(f"<{t}-{s}>" for t in tags),
            "ContentLicense": "CC", "Score": "3",
        }
    ]
    if not tags:
        del posts[0]["Tags"]
    if answer:
        posts.append({"Id": "2", "PostTypeId": "2", "ParentId": "1", "OwnerUserId": "2", "Body": body(f"Answer of {site}")})
    if more:
        posts.append({"Id": "3", "PostTypeId": "1", "Title": f"Other {site}", "Body": "", "Tags": f"<c-{s}>"})
        posts.append({"Id": "5", "PostTypeId": "2", "ParentId": "3", "OwnerUserId": "9", "Body": body(f"Late {site}")})
    if other:
        posts.insert(1, {"Id": "4", "PostTypeId": "5", "OwnerUserId": "1", "Body": body("wiki"), "Tags": "<wiki>", "Title": "Wiki"})
        posts.append({"Id": "6", "PostTypeId": "6", "Body": body("nomination")})
    for p in posts:
        p["CreationDate"] = DATES.get(int(p["Id"]), DATES[1])
        # The same for all versions and sites.
        p.update({"LastActivityDate": DATES[5], "CommentCount": "2", "ViewCount": "70", "FavoriteCount": "1", "AcceptedAnswerId": "2"})
    comments = [{"Id": "3", "PostId": "4", "UserId": "1", "Text": "about the wiki"}]
    if comment:
        comments.append({"Id": "1", "PostId": "1", "UserId": "2", "Text": f"{comment} remark on {site}", "ContentLicense": "CC"})
        comments.append({"Id": "2", "PostId": "1", "Text": "deleted remark"})
        comments.append({"Id": "4", "PostId": "2", "UserId": "1", "Text": "to the answer"})
    users = [
        {"Id": "1", "DisplayName": f"{name} of {site}"},
        {"Id": "2", "DisplayName": f"Bob of {site}"},
    ]
    for c in comments:
        c.update({"CreationDate": DATES[5], "Score": "1"})
    for u in users:
        u.update({"AccountId": "7" + u["Id"], "Reputation": "1", "CreationDate": DATES[4], "LastAccessDate": DATES[5], "Views": "0"})
    return {"posts": posts, "comments": comments, "users": users}


OPTIONS = list(
    itertools.product((("a", "b"), ("b", "c"), ()), ("Ann", "Anna"), (True, False), (True, False), (True, False), (None, "first", "second"), ("How", "Why"))
)


def jobs(tier, seed):
    deep = tier == "thorough"
    n = 16 if not deep else 64
    out = [("histories", i, n, 3 if deep else 13) for i in range(n)]
    out += [("failing", i, part, 4) for i in range(len(LOADS) if deep else 3) for part in range(4)]
    out += [("crashes", i, small) for i in range(len(LOADS)) for small in (False, True)]
    out += [("bodies",), ("command",), ("reads",), ("wide",)]
    return out


# -------------------------------------------------------------- reference ----
class Reference:
    """What the loaded dumps say."""

    def __init__(self):
        self.posts, self.comments, self.users = {}, {}, {}

    def copy(self):
        other = Reference()
        other.posts, other.comments, other.users = dict(self.posts), dict(self.comments), dict(self.users)
        return other

    def load(self, site, d):
        self.posts.update({(site, p["Id"]): p for p in d["posts"] if p["PostTypeId"] in ("1", "2")})
        self.comments.update({(site, c["Id"]): c for c in d["comments"]})
        self.users.update({(site, u["Id"]): u for u in d["users"]})

    def name(self, site, user):
        return self.users.get((site, user), {}).get("DisplayName", "<Deleted User>")

    def documents(self):
        out = {}
        remarks_on = {}
        for (s, _), c in self.comments.items():
            remarks_on.setdefault((s, c["PostId"]), []).append(c)
        for (site, i), p in self.posts.items():
            question = self.posts.get((site, p.get("ParentId", i)), {})
            remarks = remarks_on.get((site, i), [])
            out[SITES[site], int(i)] = {
                "UserPosting": {self.name(site, p.get("OwnerUserId"))},
                "Tag": {t for t in question.get("Tags", "").replace(">", "<").split("<") if t},
                "UserCommenting": {self.name(site, c.get("UserId")) for c in remarks},
                "Comment": Counter(t for c in remarks for t in utilities.tokens(c["Text"])),
                "Site": {SITES[site]},
                "PostType": {{"1": "Question", "2": "Answer"}[p["PostTypeId"]]},
                "Post": utilities.tokens(p.get("Title", "")) + utilities.tokens(text_of(p["Body"])),
                "CodeBlock": utilities.tokens(code_of(p["Body"])),
                "created_day": {p["CreationDate"][:10] + "T00:00:00"},
                "created_month": {p["CreationDate"][:7] + "-01T00:00:00"},
                "created_year": {p["CreationDate"][:4] + "-01-01T00:00:00"},
            }
        return out


def code_of(b):
    return b.split("<pre><code>")[1].split("</code>")[0] if "<pre><code>" in b else ""


def text_of(b):
    if "<pre><code>" in b:
        b = b.split("<pre><code>")[0] + b.split("</code>")[1]
    for tag in ("p", "b", "pre"):
        b = b.replace(f"<{tag}>", " ").replace(f"</{tag}>", " ")
    return b


# ------------------------------------------------------------------ files ----
def write(d, data, cut=None):
    """The files of a dump; cut: (name, element count) truncates a file."""
    out = []
    for name in ("posts", "comments", "users"):
        path = os.path.join(d, name + ".xml")
        rows = ["  <row " + " ".join(f"{k}={quoteattr(v)}" for k, v in r.items()) + " />\n" for r in data[name]]
        text = f'<?xml version="1.0" encoding="utf-8"?>\n<{name}>\n'
        if cut and cut[0] == name:
            text += "".join(rows[: cut[1]]) + "  <row Id="
        else:
            text += "".join(rows) + f"</{name}>\n"
        with open(path, "w", encoding="utf-8") as f:
            f.write(text)
        out.append(path)
    return out


def load(corpus, d, site, data):
    corpus.add_site_data(*write(d, data), SITES[site])


def documents(path_or_corpus):
    """{(site, id): (key, indexed features)}"""
    own = not isinstance(path_or_corpus, StackExchangeCorpus)
    corpus = StackExchangeCorpus(path_or_corpus) if own else path_or_corpus
    out = {}
    try:
        through = [key for key, _ in corpus]
        for key, doc in corpus.docs():
            indexed = {k: v for k, v in corpus.index(doc).items()}
            indexed["Comment"] = Counter(indexed["Comment"])
            where = (doc["site_url"], doc["Id"])
            # what cannot be right is shown as a document no dump holds
            if list(corpus[key]) != [(key, doc)]:
                out["other than retrieved", where] = (key, indexed)
            if where in out:
                out["twice", where] = (key, indexed)
            out[where] = (key, indexed)
        if through != [key for key, _ in out.values()]:
            out["other than gone through"] = (None, through)
    except sqlite3.OperationalError as e:
        if "no such table" not in str(e):
            raise
    finally:
        if own:
            corpus.close()
    return out


def judge(R, corpus, ref, known=None):
    """Compares everything; returns the keys of the documents."""
    got = documents(corpus)
    want = ref.documents()
    R.equal({w: i for w, (_, i) in got.items()}, want, "documents differ from the loaded dumps")
    keys = {w: k for w, (k, _) in got.items()}
    R.equal(len(set(keys.values())), len(keys), "two posts share a key")
    R.equal(sorted(corpus.keys()), sorted(keys.values()), "keys and documents differ")
    for where, key in (known or {}).items():
        R.equal(keys.get(where), key, "a document got another key", where)
    order = sorted(keys.values())
    rows = corpus.render_docs_table(order)
    R.equal([k for k, _ in rows], order, "a table shows other documents")
    names = {v: k for k, v in keys.items()}
    sites = {v: k for k, v in SITES.items()}
    for key, row in rows:
        url, i = names[key]
        site = sites[url]
        p = ref.posts[site, str(i)]
        question = ref.posts.get((site, p.get("ParentId", str(i))), {})
        R.equal(
            (row["site_url"], row["Id"], row["DisplayName"], row["Body"], row["QuestionTitle"], row["LiveLink"], set(row["tags"].split(", ")) - {""}),
            (
                url, i, ref.users.get((site, p.get("OwnerUserId")), {}).get("DisplayName"), p["Body"], p.get("Title", question.get("Title")),
                f"{url}/questions/{i}", want[url, i]["Tag"],
            ),
            "a table row differs from the loaded dumps",
        )
    return keys


def fresh(path):
    for suffix in ("", "-wal", "-shm", "-journal"):
        if os.path.exists(path + suffix):
            os.unlink(path + suffix)


def job_histories(R, part, parts, step):
    histories = [[("A", o)] for o in OPTIONS] + [[("A", o), ("A", o)] for o in OPTIONS]
    for i, (x, y) in enumerate(itertools.product(OPTIONS, repeat=2)):
        if i % step == 0:
            j = i // step
            z = OPTIONS[(i * 7) % len(OPTIONS)]
            histories.append(
                [[("A", x), ("A", y)], [("B", z), ("A", x), ("A", y)], [("A", x), ("B", z), ("A", y)], [("A", x), ("A", y), ("B", z), ("A", x)]][j % 4]
            )
    with workdir() as d:
        path = os.path.join(d, "sx.db")
        for i, history in enumerate(histories):
            if i % parts != part:
                continue
            fresh(path)
            corpus = StackExchangeCorpus(path)
            ref, keys = Reference(), {}
            R.run()
            for n, (site, options) in enumerate(history):
                R.context = {"loads": history[: n + 1]}
                data = dump(site, *options)
                load(corpus, d, site, data)
                ref.load(site, data)
                R.step()
                R.state(history[: n + 1])
                if n == len(history) - 1:
                    keys = judge(R, corpus, ref, keys)
                    R.outcome(ref.documents())
                else:
                    keys = {w: k for w, (k, _) in documents(corpus).items()}
            corpus.close()
        R.sample({"histories": len(histories)})


# loads that change a lot: (history before, site, dump)
LOADS = [
    ([], "A", OPTIONS[1]),
    ([("A", OPTIONS[1]), ("B", OPTIONS[4])], "A", (("b", "c"), "Anna", True, True, True, "second", "Why")),
    ([("A", (("a",), "Ann", False, False, False, None, "How"))], "A", OPTIONS[1]),
    ([("B", OPTIONS[1])], "A", OPTIONS[1]),
    ([("A", OPTIONS[1])], "A", ((), "Anna", False, True, False, None, "Why")),
    ([("A", OPTIONS[1]), ("A", OPTIONS[40])], "B", OPTIONS[80]),
]


def prepared(d, which):
    """(database bytes, site, dump, documents before, reference after)"""
    history, site, options = LOADS[which]
    ref = Reference()

    def make(path):
        corpus = StackExchangeCorpus(path)
        for s, o in history:
            load(corpus, d, s, dump(s, *o))
        if not history:
            corpus.db.execute("create table other(x)")
        corpus.close()

    for s, o in history:
        ref.load(s, dump(s, *o))
    before = ref.copy()
    ref.load(site, dump(site, *options))
    return kit.template(f"c21-{which}", make), site, dump(site, *options), before, ref


def contents(got):
    return {w: i for w, (_, i) in got.items()}


def job_failing(R, which, part, parts):
    with workdir() as d:
        path = os.path.join(d, "sx.db")
        data, site, new, before, after = prepared(d, which)

        def attempt(what, action, errors):
            kit.write_db(path, data)
            corpus = StackExchangeCorpus(path)
            corpus.db.execute("select * from sqlite_master").fetchall()
            keys = documents(path)
            failed = None
            try:
                hook = action(corpus)
            except errors as e:
                failed, hook = e, None
            what = R.context = {"load": which, "fails": what}
            R.run()
            R.step()
            R.state((which, repr(what)))
            R.outcome(type(failed).__name__)
            if not R.check(failed is not None, "a failed load is not reported"):
                return
            R.equal(documents(corpus), keys, "a failed load changes the corpus")
            R.equal(documents(path), keys, "a failed load changes the corpus")
            R.equal(contents(keys), before.documents(), "the corpus differs from the loaded dumps")
            R.check(not corpus.db.in_transaction, "a failed load leaves a transaction open")
            load(corpus, d, site, new)
            corpus.close()
            got = documents(path)
            R.equal(contents(got), after.documents(), "loading after a failed load gives other documents")
            for w, (k, _) in keys.items():
                R.equal(got[w][0], k, "a document got another key", w)

        # the files end early
        cuts = [(name, i) for name in new for i in range(len(new[name]) + 1)]
        for i, cut in enumerate(cuts):
            if i % parts == part:

                def action(corpus):
                    corpus.add_site_data(*write(d, new, cut), SITES[site])

                attempt({"truncated": cut}, action, (SyntaxError,))
        if part == 0:
            for i in range(3):

                def action(corpus):
                    files = write(d, new)
                    os.unlink(files[i])
                    corpus.add_site_data(*files, SITES[site])

                attempt({"missing file": i}, action, (OSError,))
        # the database fails or the user interrupts
        kit.write_db(path, data)
        corpus = StackExchangeCorpus(path)
        corpus.db
        files = write(d, new)
        with faults.injected() as hook:
            corpus.add_site_data(*files, SITES[site])
        corpus.close()
        total = len(hook.points)
        for target in range(part, total, parts):

            def action(corpus):
                files = write(d, new)
                with faults.injected(target) as hook:
                    corpus.add_site_data(*files, SITES[site])

            attempt({"fault": hook.points[target]}, action, faults.INJECTED)
        R.note("fault points", total if part == 0 else 0)


def job_crashes(R, which, small):
    with workdir() as d:
        if small:
            CTL.on_connect = crash.small_cache
        path, target = os.path.join(d, "sx.db"), os.path.join(d, "crashed.db")
        data, site, new, before, after = prepared(d, which)
        kit.write_db(path, data)
        corpus = StackExchangeCorpus(path)
        corpus.db.execute("select * from sqlite_master").fetchall()
        # what a reader sees is read by a copy of the committed content
        with crash.watched(path, committed) as hook:
            load(corpus, d, site, new)
        R.context = {"load": which}
        R.run()
        R.step(hook.points)
        seen = [c for _, c in hook.seen if not isinstance(c, str)]
        seen = [c for i, c in enumerate(seen) if not i or seen[i - 1] != c]
        R.check(len(seen) <= 2, "a reader sees a load part way", {"states": len(seen)})
        images = list(hook.images.values()) + [("the call returned", hook.final)]
        images += [(f"log cut to {w}", f) for w, f in crash.wal_prefixes(hook.final, len(images[0][1].get("-wal", b"")))]
        old, new_docs = before.documents(), after.documents()
        for what, files in images:
            crash.write_image(target, files)
            got = contents(documents(target))
            R.run()
            R.state((what, len(got)))
            R.outcome(sorted(got))
            if not R.check(got in (old, new_docs), "a crash leaves a load part way", {"when": what, "documents": sorted(got)}):
                break
            if what == "the call returned":
                R.equal(got, new_docs, "a crash after the load loses it")
        corpus.close()


def committed(conn):
    """The rows behind documents, nothing when there are no tables yet."""
    tables = {n for (n,) in conn.execute("select lower(name) from sqlite_master")}
    return {
        t: sorted(map(repr, conn.execute(f"select * from {t}"))) if t in tables else [] for t in ("post", "comment", "user", "posttag")
    }


BODIES = [
    ("<p>one two</p>", "one two", ""),
    ("<p>one</p><pre><code>x = 1</code></pre><p>two</p>", "one two", "x = 1"),
    ("<pre><code>first</code></pre><p>mid</p><pre><code>second</code></pre>", "mid", "first second"),
    ("<pre><code>x</code> kept text</pre><p>end</p>", "kept text end", "x"),
    ("<p>inline <code>stays</code> here</p>", "inline stays here", ""),
    ("just text", "just text", ""),
    ("<p>a &lt;b&gt; &amp; c</p>", "a <b> & c", ""),
    ("<pre>no code</pre>", "no code", ""),
    ("<ul><li>one</li><li><pre><code>in list</code></pre> two</li></ul>", "one two", "in list"),
    ("<pre class='x'><code>a\n<span>b</span></code></pre>\n", "", "a b"),
    ("", "", ""),
]


def job_bodies(R):
    """Text and code of every pair of bodies."""
    with workdir() as d:
        path = os.path.join(d, "sx.db")
        for (x, text_x, code_x), (y, text_y, code_y) in itertools.product(BODIES, repeat=2):
            fresh(path)
            corpus = StackExchangeCorpus(path)
            data = dump("A")
            data["posts"][0]["Body"] = x + " " + y
            R.context = {"body": x + " " + y}
            load(corpus, d, "A", data)
            R.run()
            R.step()
            R.state(x + y)
            (indexed,) = [i for (_, n), (_, i) in documents(corpus).items() if n == 1]
            R.equal(
                (indexed["Post"], indexed["CodeBlock"]),
                (utilities.tokens("How is it on A?") + utilities.tokens(text_x + " " + text_y), utilities.tokens(code_x + " " + code_y)),
                "the indexed text differs from the post's",
            )
            R.outcome(indexed["Post"])
            corpus.close()


def job_command(R):
    with workdir() as d:
        path = os.path.join(d, "sx.db")
        runner = CliRunner()
        for i, options in enumerate(OPTIONS[::17]):
            fresh(path)
            ref = Reference()
            for site in ("A", "B", "A"):
                data = dump(site, *options)
                result = runner.invoke(cli.cli, ["stackexchange-corpus", "add-site", *write(d, data), SITES[site], path])
                R.context = {"site": site, "dump": options}
                R.equal(result.exit_code, 0, "the command fails", repr(result.exception))
                ref.load(site, data)
                R.run()
                R.step()
                R.state((site, options))
            corpus = StackExchangeCorpus(path)
            judge(R, corpus, ref)
            corpus.close()


def job_reads(R):
    """Reads that fail or are left early do not stand in the way of the next load."""
    with workdir() as d:
        path = os.path.join(d, "sx.db")

        def finish(it, steps):
            it = iter(it)
            for _ in range(steps):
                next(it, None)
            if hasattr(it, "close"):
                it.close()

        reads = [
            ("docs", lambda c, keys: list(c.docs(doc_keys=keys))),
            ("html", lambda c, keys: list(c.render_docs_html(keys))),
            ("table", lambda c, keys: list(c.render_docs_table(keys))),
            ("docs left after one", lambda c, keys: finish(c.docs(doc_keys=keys), 1)),
            ("all left after one", lambda c, keys: finish(c.docs(), 1)),
            ("keys left after one", lambda c, keys: finish(c.keys(), 1)),
        ]
        for before, (what, read), shape in itertools.product((1, 2), reads, itertools.product("ku", repeat=2)):
            fresh(path)
            corpus = StackExchangeCorpus(path)
            ref = Reference()
            R.context = {"read": what, "keys": shape, "loads before": before}
            for site in "AB"[:before]:
                load(corpus, d, site, dump(site))
                ref.load(site, dump(site))
            keys = [next(iter(corpus.keys())) if s == "k" else 987 for s in shape]
            R.run()
            R.state(str(R.context))
            try:
                read(corpus, keys)
            except Exception as e:
                R.check("u" in shape, "reading known documents fails", repr(e))
            R.check(not corpus.db.in_transaction, "a read leaves a transaction open")
            newer = dump("A", ("b", "c"), "Anna", True, True, True, "second", "Why")
            load(corpus, d, "A", newer)
            ref.load("A", newer)
            R.step()
            judge(R, corpus, ref)
            other = StackExchangeCorpus(path)
            judge(R, other, ref)
            other.close()
            corpus.close()


def many(site, posts, shift=0):
    """A large dump: questions with none to two answers, an unnamed user, users that are not in the dump."""
    out = {"posts": [], "comments": [], "users": []}
    for i in range(1 + shift, posts + 1 + shift):
        p = {"Id": str(i), "PostTypeId": "1" if i % 3 else "2", "Body": body(f"Body {i} {'word ' * (i % 9)}", f"code {i % 11}" if i % 4 == 0 else None)}
        if i % 3:
            p.update(Title=f"Title {i % 70} of {site} after {shift}", Tags="".join(f"<t{(i + j) % 90}>" for j in range(i % 5)))
        else:
            p["ParentId"] = str(i - 1 if i % 2 else i // 2)
        if i % 7:
            p["OwnerUserId"] = str(i % 500 - 1)
        p["CreationDate"] = f"20{i % 20 + 10}-{i % 12 + 1:02d}-{i % 28 + 1:02d}T{i % 24:02d}:00:00.000"
        out["posts"].append(p)
        for j in range(i % 5):
            c = {"Id": str(i * 5 + j), "PostId": str(i), "Text": f"remark {i % 13} {j} {site} {shift}"}
            if j:
                c["UserId"] = str((i * j) % 450)
            out["comments"].append(c)
    out["users"] = [{"Id": str(i), "DisplayName": f"User {i % 390} {shift}" if i else ""} for i in range(-1, 400)]
    return out


def job_wide(R):
    with workdir() as d:
        path = os.path.join(d, "sx.db")
        corpus = StackExchangeCorpus(path)
        ref, keys = Reference(), {}
        for site, n, shift in (("A", 1500, 0), ("B", 30, 0), ("A", 700, 900), ("B", 1300, 10)):
            R.context = {"wide": [site, n, shift]}
            data = many(site, n, shift)
            for name, at in (("posts", n // 2), ("comments", n * 2 - 3), ("users", 390)):
                before = committed(corpus.db)
                with crash.observed(path, committed) as hook:
                    try:
                        corpus.add_site_data(*write(d, data, (name, at)), SITES[site])
                    except SyntaxError:
                        pass
                    else:
                        R.violation("a failed load is not reported")
                R.run()
                R.check(
                    committed(corpus.db) == before and len([c for _, c in hook.seen]) == 1 and not corpus.db.in_transaction,
                    "a failed load changes the corpus",
                    lambda: [w for w, _ in hook.seen],
                )
            with crash.observed(path, committed) as hook:
                load(corpus, d, site, data)
            R.check(len(hook.seen) <= 2, "a reader sees a load part way", lambda: [w for w, _ in hook.seen])
            ref.load(site, data)
            R.run()
            R.step(hook.points)
            R.state((site, n, shift))
            keys = judge(R, corpus, ref, keys)
        corpus.close()
