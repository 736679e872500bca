"""
C32 Documents are shown and tabulated with exactly their own content.
"""

import itertools
import json
import os
import re
import sqlite3
from collections import Counter

from lxml import html

from checks import c21, c29
from hyperreal.corpus import PlainTextSqliteCorpus, StackExchangeCorpus, TwittersphereCorpus
from mc import kit
from mc.env import CTL, workdir

TECHNIQUE = "exhaustive enumeration of documents (owners, kinds, tags, remarks, relations, users over time), loading histories and requests on the real corpora and index, against what was loaded"
NOTE = "Every piece of content is a word that occurs nowhere else, so that any piece missing from, or foreign to, a shown document is seen."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "posts: 3 owners x question or answer x 0-2 tags x 13 lists of up to 2 remarks, on two sites using the same numbers, in 6 loading histories, with a long post of 150 remarks; "
    "tweets: 11 relations x 6 ways of being collected x 2 histories, all seen again later; all with text that looks like HTML; 15 texts, one long; requests for single documents, all pairs of 12, "
    "every order of 3, repetitions; through an index: every feature x whole and samples of 0 to 3 in every outcome of 6, also with keys in another order than the documents",
    "thorough": "as quick with remarks up to 3 and every outcome of 24 of the samples",
}
ASSUMPTIONS = ["the pages are compared as sets of words and links, not as layout"]

# text that must be shown as such, not taken for HTML
MARKUP = "1<2 <i>a</i> &amp; \"b\" & <script>c</script>"
WORD = re.compile(r"\b(?:Ti|Bo|Ta|Re|Us|Li)\d+[AB]v\d\b")
PEOPLE = {"known": "1", "other": "2", "unknown": "9", "none": None}
HISTORIES = [
    [("A", 1)], [("A", 1), ("B", 1)], [("B", 1), ("A", 1)], [("A", 1), ("A", 2)], [("A", 1), ("B", 1), ("A", 2)], [("B", 1), ("A", 2), ("B", 2)],
]


def jobs(tier, seed):
    deep = tier == "thorough"
    out = [("posts", i, deep) for i in range(len(HISTORIES))]
    out += [("tweets", i) for i in range(2)]
    out += [("indexed", kind, deep) for kind in ("plain", "shuffled", "posts", "tweets")]
    return out


# ------------------------------------------------------------------- posts ----
def dump(site, version, deep, few=False):
    """Questions and answers of every kind; the words say where they belong."""

    def w(kind, n):
        return f"{kind}{n}{site}v{version}"

    posts, comments = [], []
    n = 0
    remarks = [r for k in range(4 if deep else 3) for r in itertools.product(("known", "other", "unknown", "none")[:: 1 if k < 3 else 2], repeat=k)]
    if few:
        remarks = remarks[:4]
    for owner, answer, tags, said in itertools.product(("known", "unknown", "none"), (False, True), range(3), remarks):
        n += 1
        question = {
            "Id": str(n), "PostTypeId": "1", "Title": f"{w('Ti', n)} {MARKUP}", "Body": f"<p>{w('Bo', n)}</p>", "CreationDate": c21.DATES[1],
            "Tags": "".join(f"<{w('Ta', 10 * n + t)}>" for t in range(tags)), "ContentLicense": w("Li", n),
        }
        if not tags:
            del question["Tags"]
        posts.append(question)
        target = question
        if answer:
            n += 1
            target = {
                "Id": str(n), "PostTypeId": "2", "ParentId": question["Id"], "Body": f"<p>{w('Bo', n)}</p>", "CreationDate": c21.DATES[2],
                "ContentLicense": w("Li", n),
            }
            posts.append(target)
        if PEOPLE[owner]:
            target["OwnerUserId"] = PEOPLE[owner]
        for k, who in enumerate(said):
            c = {"Id": str(10 * n + k), "PostId": target["Id"], "Text": f"{w('Re', 10 * n + k)} is {MARKUP}", "ContentLicense": w("Li", 10**4 + 10 * n + k)}
            if PEOPLE[who]:
                c["UserId"] = PEOPLE[who]
            comments.append(c)
    # a long post with many remarks
    posts[0]["Body"] = f"<p>{w('Bo', 1)}</p>" + "".join(f"<p>more and more {w('Bo', 10**6 + k)}</p>" for k in range(40 if few else 1200))
    for k in range(20 if few else 150):
        i = 10**7 + k
        comments.append({"Id": str(i), "PostId": posts[0]["Id"], "Text": f"{w('Re', i)} it is {MARKUP}", "ContentLicense": w("Li", i), "UserId": "12"[k % 2]})
    comments[-1]["Text"] += " and on" * 3000 + w("Re", 2 * 10**7)
    for p in posts:
        p.update({"LastActivityDate": c21.DATES[5], "CommentCount": "2", "ViewCount": "70", "FavoriteCount": "1", "AcceptedAnswerId": "2", "Score": "3"})
    for c in comments:
        c.update({"CreationDate": c21.DATES[5], "Score": "1"})
    users = [
        {
            "Id": i, "DisplayName": f"{w('Us', i)} {MARKUP}", "AccountId": "7" + i, "Reputation": "1", "CreationDate": c21.DATES[4],
            "LastAccessDate": c21.DATES[5], "Views": "0",
        }
        for i in "12"
    ]
    return {"posts": posts, "comments": comments, "users": users}


def words(text):
    return set(WORD.findall(str(text)))


def expected(ref):
    """{(site url, id): what its page and row say}"""
    remarks = {}
    for (site, _), c in ref.comments.items():
        remarks.setdefault((site, c["PostId"]), []).append(c)
    out = {}
    for (site, i), p in ref.posts.items():
        url = c21.SITES[site]
        question = ref.posts[site, p.get("ParentId", i)]
        known = {u: d["DisplayName"] for (s, u), d in ref.users.items() if s == site}
        said = remarks.get((site, i), [])
        people = {p.get("OwnerUserId"), *(c.get("UserId") for c in said)} - {None}
        out[url, int(i)] = {
            "title": question["Title"],
            "body": p["Body"],
            "license": p["ContentLicense"],
            "kind": {"1": "Question", "2": "Answer"}[p["PostTypeId"]],
            "tags": words(question.get("Tags", "")),
            "owner": known.get(p.get("OwnerUserId")),
            "remarks": Counter((c["Text"], c["ContentLicense"], known.get(c.get("UserId"))) for c in said),
            "live": f"{url}/questions/{i}",
            "people": {f"{url}/users/{u}" for u in people},
            "known": {f"{url}/users/{u}" for u in people if u in known},
        }
    return out


def shown_post(R, page, want):
    tree = html.fromstring(f"<div>{page}</div>")
    text = " ".join(tree.itertext())
    wanted = words([want["title"], want["body"], want["license"], want["owner"] or "", *want["tags"], *want["remarks"]])
    R.equal(words(text), wanted, "the page of a post shows other content than its own")
    shown = " ".join(text.split())
    for piece in [want["title"], want["owner"] or "", *(x for c in want["remarks"] for x in (c[0], c[2] or ""))]:
        R.check(piece in shown, "text is shown as something else", (piece, shown))
    R.check(want["kind"] in text.split() and {"Question": "Answer", "Answer": "Question"}[want["kind"]] not in text.split(), "a post is shown as another kind")
    links = {a.get("href") for a in tree.iter("a")}
    R.check({want["live"], *want["known"]} <= links <= {want["live"], *want["people"]}, "a page links somewhere else", sorted(links))
    for remark, license, name in want["remarks"]:
        # the smallest part of the page holding the remark names its author
        around = [" ".join(e.itertext()) for e in tree.iter() if isinstance(e.tag, str)]
        smallest = min((t for t in around if remark in t), key=len, default="")
        R.equal(words(smallest), words([remark, license, name or ""]), "a remark is shown with another author or license")


def tabulated_post(R, row, want):
    got = [(c["Text"], c["ContentLicense"], c["DisplayName"]) for c in json.loads(row["comments"])]
    R.equal(Counter(got), want["remarks"], "a row has other remarks than the post")
    R.equal(
        (row["QuestionTitle"], row["Body"], row["ContentLicense"], row["PostType"], words(row["tags"]), row["DisplayName"], row["LiveLink"]),
        tuple(want[k] for k in ("title", "body", "license", "kind", "tags", "owner", "live")),
        "a row differs from the post",
    )


def requests(keys):
    """Lists of keys to ask for."""
    yield list(keys)
    yield list(keys)[::-1]
    yield []
    some = list(keys)[:: max(1, len(keys) // 12)][:12]
    yield from map(list, itertools.permutations(some, 2))
    yield from map(list, itertools.permutations(some[-3:], 3))
    yield [some[0]] * 3
    yield from ([k] for k in keys)


def judge_posts(R, corpus, ref):
    want = expected(ref)
    names = {key: (doc["site_url"], doc["Id"]) for key, doc in corpus.docs()}
    R.equal(sorted(names.values()), sorted(want), "the documents are not the posts")
    seen = {}
    for n, keys in enumerate(requests(sorted(names))):
        R.step()
        pages, rows = list(corpus.render_docs_html(keys)), list(corpus.render_docs_table(keys))
        R.equal([k for k, _ in pages], keys, "pages for other documents than asked for")
        R.equal([k for k, _ in rows], keys, "rows for other documents than asked for")
        for (key, page), (_, row) in zip(pages, rows):
            R.context = {"post": names[key], "asked": keys[:4]}
            # tags have no order
            shown = sorted(str(page).split())
            if seen.setdefault(key, shown) != shown:
                R.violation("a post is shown differently with others", (key, keys[:4]))
            if n == 0:
                shown_post(R, page, want[names[key]])
            tabulated_post(R, row, want[names[key]])
            R.state((names[key], tuple(keys[:4])))
    return names


def job_posts(R, which, deep):
    with workdir() as d:
        corpus = StackExchangeCorpus(os.path.join(d, "se.db"))
        ref = c21.Reference()
        for site, version in HISTORIES[which]:
            data = dump(site, version, deep)
            # loaded by another object, as the commands do
            other = StackExchangeCorpus(os.path.join(d, "se.db"))
            c21.load(other, d, site, data)
            other.close()
            ref.load(site, data)
            R.run()
            judge_posts(R, corpus, ref)
        corpus.close()


# ------------------------------------------------------------------ tweets ----
def collected(path, again):
    """A database of tweets whose words say where they belong; {tweet: its words}"""
    world = c29.World()
    world.related()
    cases = itertools.product(c29.RELATIONS, c29.COLLECTED, (False, True))
    for n, (relation, how, twice) in enumerate(cases):
        world.add(str(10**6 + n), ("Ann", "bob", "cat")[n % 3], relation, "none", how, twice)
    if again:
        # seen again later, under another name
        world.add_user("Ann", "2024-01-01T00:00:00", "AnnLater")
        world.add_user("keith", "2024-01-01T00:00:00", "KeithLater")
    world.write(path)
    db = sqlite3.connect(path)
    rows = db.execute("select distinct tweet_id, retrieved_at from tweet_at_time order by 1, 2").fetchall()
    latest = {}
    for n, (tweet, when) in enumerate(rows):
        numbers = [10**7 + 10 * n + k for k in range(4)]
        db.execute(
            "update tweet_at_time set text = ?, retweet_count = ?, reply_count = ?, like_count = ?, quote_count = ? where (tweet_id, retrieved_at) = (?, ?)",
            # Twitter escapes these characters itself
            [f"Bo{n}Av1 {MARKUP}".replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;"), *numbers, tweet, when],
        )
        latest[tweet] = {"text": f"Bo{n}Av1 {MARKUP}", "numbers": {str(x) for x in numbers}, "when": when}
    people = {}
    for n, (user, when) in enumerate(db.execute("select distinct user_id, retrieved_at from user_at_time order by 1, 2").fetchall()):
        db.execute("update user_at_time set name = ?, username = ?, profile_image_url = ? where (user_id, retrieved_at) = (?, ?)", [
            f"Us{n}Av1 {MARKUP}", f"Ti{n}Av1", f"https://img/Li{n}Av1", user, when
        ])
        people[user] = n
    db.commit()
    db.close()
    out = {}
    for tweet, t in world.tweets.items():
        if t["labels"]:
            n = people[t["user"]]
            out[tweet] = dict(latest[tweet], user=t["user"], name=f"Us{n}Av1 {MARKUP}", username=f"Ti{n}Av1", image=f"https://img/Li{n}Av1", created=t["created"])
    return out


def later(path, want):
    """Everybody is seen again under another name, every tweet with other counts."""
    db = sqlite3.connect(path)
    people = {}
    for n, (user,) in enumerate(db.execute("select distinct user_id from user_at_time order by 1").fetchall(), start=1000):
        db.execute(
            "insert into user_at_time(user_id, retrieved_at, username, name, profile_image_url) values (?, ?, ?, ?, ?)",
            [user, "2030-01-01T00:00:00", f"Ti{n}Av1", f"Us{n}Av1", f"https://img/Li{n}Av1"],
        )
        people[user] = n
    for k, (tweet, w) in enumerate(want.items()):
        numbers = [10**7 + 10**6 + 10 * k + j for j in range(4)]
        db.execute(
            "update tweet_at_time set text = ?, retweet_count = ?, reply_count = ?, like_count = ?, quote_count = ? where (tweet_id, retrieved_at) = (?, ?)",
            [f"Bo{5000 + k}Av1", *numbers, tweet, w["when"]],
        )
        n = people[w["user"]]
        w.update(text=f"Bo{5000 + k}Av1", numbers={str(x) for x in numbers}, name=f"Us{n}Av1", username=f"Ti{n}Av1", image=f"https://img/Li{n}Av1")
    db.commit()
    db.close()


def shown_tweet(R, page, tweet, want):
    tree = html.fromstring(f"<div>{page}</div>")
    text = " ".join(tree.itertext())
    R.equal(words(text), words([want["text"], want["name"], want["username"]]), "the page of a tweet shows other content than its own")
    shown = " ".join(text.split())
    R.check(want["text"] in shown and want["name"] in shown, "text is shown as something else", shown)
    R.equal(set(re.findall(r"\b1\d{7}\b", text)), want["numbers"], "a tweet is shown with other counts than its latest")
    R.equal({e.get("src") for e in tree.iter("img")}, {want["image"]}, "a tweet is shown with another picture")
    profile = f"https://twitter.com/{want['username']}"
    R.equal({e.get("href") for e in tree.iter("a")}, {profile, f"{profile}/status/{tweet}"}, "a tweet links somewhere else")
    R.check(want["created"] in text and want["when"] in text, "a tweet is shown with other times")


def job_tweets(R, again):
    with workdir() as d:
        path = os.path.join(d, "t.db")
        want = collected(path, again)
        corpus = TwittersphereCorpus(path)
        R.equal(sorted(corpus.keys()), sorted(want), "the documents are not the directly collected tweets")
        seen = {}
        for n, keys in enumerate(requests(sorted(want))):
            R.run()
            R.step()
            pages = list(corpus.render_docs_html(keys))
            R.equal([k for k, _ in pages], keys, "pages for other documents than asked for")
            for key, page in pages:
                R.context = {"tweet": key, "asked": keys[:4]}
                R.equal(seen.setdefault(key, str(page)), str(page), "a tweet is shown differently with others")
                if n == 0:
                    shown_tweet(R, page, key, want[key])
                R.state((key, tuple(keys[:4])))
        # collected again by another program
        later(path, want)
        for key, page in corpus.render_docs_html(sorted(want)):
            R.step()
            R.state((key, "later"))
            R.context = {"tweet": key, "collected": "again"}
            shown_tweet(R, page, key, want[key])
        corpus.close()


# ---------------------------------------------------------- through an index ----
class Outcome:
    """The n-th of all ways to choose documents."""

    def __init__(self, n):
        self.n, self.calls = n, 0

    def _next(self):
        self.calls += 1
        return (self.n * 7919 + self.calls * (2 * self.n + 1) * 104729) % 99991

    def random(self):
        return self._next() / 99991

    def randbelow(self, n):
        return self._next() % n


class Shuffled(PlainTextSqliteCorpus):
    """Goes through its documents in another order than that of their keys."""

    def keys(self):
        return iter(sorted(super().keys(), key=lambda k: k * 7 % 16))


def job_indexed(R, kind, deep):
    """An index shows exactly the matching documents, or as many of them as asked for."""
    with workdir() as d:
        path = os.path.join(d, "c.db")
        if kind in ("plain", "shuffled"):
            corpus = (PlainTextSqliteCorpus if kind == "plain" else Shuffled)(path)
            texts = [f"Ti{n}Av1 {'ab c'[n % 4]} {'xy'[n % 2]} {MARKUP} Bo{n}Av1" for n in range(14)] + ["a long c " + "and so on " * 30000 + "Bo14Av1"]
            corpus.replace_docs(texts)
            own = {key: doc["text"] for key, doc in corpus.docs()}
            R.equal(Counter(own.values()), Counter(texts), "the documents are not the texts")
            for keys in requests(sorted(own)):
                R.step()
                R.state(("plain", tuple(keys[:4])))
                R.context = {"asked": keys[:4]}
                R.equal([(k, str(p)) for k, p in corpus.render_docs_html(keys)], [(k, own[k]) for k in keys], "a text is shown otherwise")
                R.equal([(k, dict(r)) for k, r in corpus.render_docs_table(keys)], [(k, {"text": own[k]}) for k in keys], "a text is tabulated otherwise")
        elif kind == "posts":
            corpus = StackExchangeCorpus(path)
            for site in "AB":
                c21.load(corpus, d, site, dump(site, 1, False, few=True))
        else:
            collected(path, True)
            corpus = TwittersphereCorpus(path)
        pages = {k: sorted(str(p).split()) for k, p in corpus.render_docs_html(list(corpus.keys()))}
        tables = kind != "tweets"

        def plain(row):
            row = dict(row)
            if "tags" in row:
                row["tags"] = sorted(row["tags"].split(", "))
            return row

        rows = {k: plain(r) for k, r in corpus.render_docs_table(list(corpus.keys()))} if tables else {}
        index = os.path.join(d, "i.db")
        with kit.opened(index, corpus) as idx:
            idx.index(doc_batch_size=5)
            names = kit.doc_keys(idx)
            R.equal(sorted(names.values(), key=str), sorted(pages, key=str), "the indexed documents are not the corpus's")
            features = sorted(kit.features_of(idx))
            features = features[:: max(1, len(features) // 120)]
            for f in features:
                matching = {names[i] for i in idx[f]}
                for size, n in [(None, 0)] + list(itertools.product(range(4), range(24 if deep else 6))):
                    R.context = {"feature": kit.features_of(idx)[f] if size is None else f, "sample": size, "outcome": n}
                    R.run()
                    R.step()
                    R.state((kind, f, size, n))
                    CTL.random = Outcome(n)
                    got = list(idx.render_docs_html(idx[f], random_sample_size=size))
                    chosen = [key for _, key, _ in got]
                    enough = len(matching) if size is None else min(size, len(matching))
                    R.check(len(chosen) == len(set(chosen)) == enough and set(chosen) <= matching, "not the matching documents are shown", (chosen, sorted(matching, key=str)))
                    R.equal([names[i] for i, _, _ in got], chosen, "a shown document has another's number")
                    R.equal({k: sorted(str(p).split()) for _, k, p in got}, {k: pages[k] for k in chosen if k in pages}, "a document is shown with another's content")
                    if tables:
                        got = list(idx.render_docs_table(idx[f], random_sample_size=size))
                        chosen = [key for key, _ in got]
                        R.check(len(chosen) == len(set(chosen)) == enough and set(chosen) <= matching, "not the matching documents are tabulated", (chosen, sorted(matching, key=str)))
                        R.equal({k: plain(r) for k, r in got}, {k: rows[k] for k in chosen if k in rows}, "a row with another's content")
                    CTL.random = None
        corpus.close()
