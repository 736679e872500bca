"""
C29 Tweets are indexed by exactly their own content and relations.
"""

import datetime
import itertools
import os
import pickle
import sqlite3

from mc import kit
from mc.env import workdir

from hyperreal import utilities
from hyperreal.corpus import TwittersphereCorpus

TECHNIQUE = "exhaustive enumeration of databases made of all combinations of tweet shapes, indexed by the real corpus and index and compared with the description each database was made from"
NOTE = (
    "The databases use a stand-in for the part of the Twittersphere schema that the corpus reads (the package itself is not "
    "available here), so a change of that schema is not covered."
)
LEVEL = "model_checking"
BOUNDS = {
    "quick": "a corpus object read before and after its database changes, for all pairs of 12 shapes, and between all pairs of 8 reads (also of unknown tweets, or left early) and a change, with either kind of journal; a tweet of each of 11 relations x 9 sets of entities x 6 ways of being collected x 2 histories (once, twice with changes); all pairs of 12 shapes; "
    "a database of 1500 tweets; indexed together, with and without positions; 8 batch sizes",
    "thorough": "all combinations of relations with two entity sets, all triples of shapes",
}
ASSUMPTIONS = ["the schema of the databases is that of the queries in TwittersphereCorpus"]

SCHEMA = """
create table metadata(key primary key, value);
create table tweet_at_time(
    tweet_id text, retrieved_at text, user_id text, conversation_id text, created_at text, text text,
    replied_to_tweet_id text, retweeted_tweet_id text, quoted_tweet_id text,
    like_count integer, reply_count integer, quote_count integer, retweet_count integer,
    context_id integer, directly_collected integer,
    primary key (tweet_id, retrieved_at, context_id)
);
create view tweet_latest as
    select tweet_id, max(retrieved_at) as retrieved_at, user_id, conversation_id, created_at, text,
        replied_to_tweet_id, retweeted_tweet_id, quoted_tweet_id, like_count, reply_count, quote_count, retweet_count
    from tweet_at_time group by tweet_id;
create view directly_collected_tweet as
    select distinct tweet_id from tweet_at_time where directly_collected = 1;
create table collection_context(context_id integer primary key, label text);
create table tweet_hashtag(tweet_id text, hashtag text, start integer);
create table tweet_mention(tweet_id text, mentioned_username text, start integer);
create table tweet_url(tweet_id text, retrieved_at text, url text);
create table url(url text, retrieved_at text, expanded_url text, unwound_url text);
create table user_at_time(
    user_id text, retrieved_at text, username text, name text, profile_image_url text,
    primary key (user_id, retrieved_at)
);
create view user_latest as
    select user_id, max(retrieved_at) as retrieved_at, username, name, profile_image_url from user_at_time group by user_id;
"""

LABELS = {1: "Query one", 2: "Timeline", 3: "Unused"}

# relation -> (replied to, retweeted, quoted); K is a tweet in the database, U is not.
RELATIONS = {
    "original": (None, None, None),
    "reply-known": ("K", None, None),
    "reply-unknown": ("U", None, None),
    "quote-known": (None, None, "K"),
    "quote-unknown": (None, None, "U"),
    "reply-quote": ("K", None, "L"),
    "reply-quote-half": ("U", None, "K"),
    "reply-self": ("self", None, None),
    "retweet-known": (None, "K", None),
    "retweet-unknown": (None, "U", None),
    "retweet-quote": (None, "K", "L"),
}

# (text, hashtags, mentions, urls: (url, expanded, unwound))
ENTITIES = {
    "none": ("plain", [], [], []),
    "empty": ("", [], [], []),
    "tags": ("Word #Tag #tag #Ünï", ["Tag", "tag", "Ünï"], [], []),
    "mentions": ("@Some @sOME hi", [], ["Some", "sOME", "Other"], []),
    "url": ("see https://t.co/1 ok", [], [], [("https://t.co/1", "https://Example.org/A?b", None)]),
    "unwound": ("see", [], [], [("https://t.co/8", "https://bit.ly/x", "http://news.example.com:80/page"), ("https://t.co/2", None, None)]),
    "internal": ("quote", [], [], [("https://t.co/3", "https://twitter.com/a/status/1", None), ("https://t.co/4", "https://twitter.co/x", None), ("https://t.co/11", "https://example.net/?on=https://twitter.com/a", None)]),
    "odd": ("A &lt;b&gt; &amp; C", [], [], [("https://t.co/5", "mailto:x@example.org", None), ("https://t.co/6", "http://[bad", None), ("https://t.co/7", "/path", None)]),
    "all": ("“Mixed” @Me http://t.co/z #x don’t", ["x"], ["Me"], [("https://t.co/9", "https://a.example/x", None), ("https://t.co/10", "https://a.example/y", None)]),
}

# (context, directly collected)
COLLECTED = {
    "one": [(1, 1)],
    "two": [(1, 1), (2, 1)],
    "mixed": [(1, 1), (2, 0)],
    "mixed-first": [(1, 0), (2, 1)],
    "referenced": [(1, 0)],
    "other": [(2, 1)],
}


# (Twitter's short links always lead to the same place, so the sets do not share any.)


class World:
    """A database and what its description says about each document."""

    def __init__(self, version=15):
        self.rows = {t: [] for t in ("tweet_at_time", "tweet_hashtag", "tweet_mention", "tweet_url", "url", "user_at_time")}
        self.expected = {}
        self.users = {}  # id -> [(retrieved_at, username)]
        self.tweets = {}  # id -> (user id, latest retrieval)
        self.version = version

    def add_user(self, user_id, when, username):
        if (user_id, when) not in {(u, w) for u, w, *_ in self.rows["user_at_time"]}:
            self.rows["user_at_time"].append((user_id, when, username, f"Name of {username}", f"https://img/{user_id}"))
            self.users.setdefault(user_id, []).append((when, username))

    def add(self, tweet_id, user_id, relation, entities, collected, twice, created="2021-03-04T05:06:07.000Z"):
        replied, retweeted, quoted = [tweet_id if r == "self" else r for r in RELATIONS[relation]]
        text, tags, mentions, urls = ENTITIES[entities]
        whens = (["2021-12-01T00:00:00"] if twice else []) + ["2022-01-01T00:00:00"]
        for n, when in enumerate(whens):
            latest = n == len(whens) - 1
            shown = text if latest else "outdated words"
            self.add_user(user_id, when, user_id if latest else f"{user_id}Old")
            for context, direct in COLLECTED[collected]:
                self.rows["tweet_at_time"].append(
                    (tweet_id, when, user_id, f"conv-{tweet_id}", created, shown, replied, retweeted, quoted, n, 0, 0, 0, context, direct)
                )
            for url, expanded, unwound in urls:
                self.rows["tweet_url"].append((tweet_id, when, url))
                row = (url, when, expanded if latest or expanded is None else expanded + "/old", unwound)
                if row not in self.rows["url"]:
                    self.rows["url"].append(row)
        for tag in tags:
            self.rows["tweet_hashtag"].append((tweet_id, tag, 0))
        for mention in mentions:
            self.rows["tweet_mention"].append((tweet_id, mention, 0))
        self.tweets[tweet_id] = dict(
            user=user_id, when=whens[-1], replied=replied, retweeted=retweeted, quoted=quoted, text=text, tags=tags, mentions=mentions,
            urls=urls, created=created, labels={LABELS[c] for c, d in COLLECTED[collected] if d},
        )

    def related(self):
        """The tweets the others refer to, which nobody collected directly."""
        self.add("K", "keith", "original", "tags", "referenced", False)
        self.add("L", "Lena", "original", "mentions", "referenced", True)
        # Users seen again later, under another name.
        self.add_user("Lena", "2023-01-01T00:00:00", "LenaLater")
        self.add_user("bob", "2023-01-01T00:00:00", "bobLater")

    def write(self, path, again=False):
        db = sqlite3.connect(path, isolation_level=None)
        db.execute("pragma synchronous=0")
        db.execute("begin")
        if again:
            for table in ["metadata", "collection_context", *self.rows]:
                db.execute(f"delete from {table}")
        else:
            for statement in SCHEMA.split(";"):
                db.execute(statement)
        if self.version is not None:
            db.execute("insert into metadata values('twittersphere_schema_version', ?)", [self.version])
        db.executemany("insert into collection_context values(?, ?)", LABELS.items())
        for table, rows in self.rows.items():
            if rows:
                db.executemany(f"insert into {table} values({', '.join('?' * len(rows[0]))})", rows)
        db.execute("commit")
        db.close()

    def documents(self):
        """{tweet id: {field: values}}, sequences where the order matters."""
        out = {}
        for tweet_id, t in self.tweets.items():
            if not t["labels"]:
                continue
            latest_user = {u: max(v)[1] for u, v in self.users.items()}

            def user_at(other):
                if other not in self.tweets:
                    return set()
                o = self.tweets[other]
                return {name for when, name in self.users[o["user"]] if when == o["when"]}

            some = lambda v: set() if v is None else {v}
            fields = {"by": {latest_user[t["user"]]}}
            if t["retweeted"] is not None:
                fields["retweeted_tweet_id"] = {t["retweeted"]}
                fields["retweeted_user"] = user_at(t["retweeted"])
            else:
                full = {unwound or expanded or url for url, expanded, unwound in t["urls"]}
                full = {u for u in full if not u.startswith("https://twitter.com/")}
                fields.update(
                    {
                        "text": utilities.social_media_tokens(unescaped(t["text"])),
                        "#": {h.lower() for h in t["tags"]},
                        "@": {m.lower() for m in t["mentions"]},
                        "conversation_id": {f"conv-{tweet_id}"},
                        "url": full,
                        "domain": {d for d in map(domain, full) if d},
                        "quoted_tweet_id": some(t["quoted"]),
                        "quoted_user": user_at(t["quoted"]),
                        "replied_to_tweet_id": some(t["replied"]),
                        "replied_to_user": user_at(t["replied"]),
                        "collection_label": t["labels"],
                    }
                )
            when = datetime.datetime.fromisoformat(t["created"].replace("Z", "+00:00"))
            for name, gone in (
                ("minute", {}), ("hour", {"minute": 0}), ("day", {"minute": 0, "hour": 0}),
                ("month", {"minute": 0, "hour": 0, "day": 1}), ("year", {"minute": 0, "hour": 0, "day": 1, "month": 1}),
            ):
                fields[f"created_{name}"] = {when.replace(second=0, microsecond=0, **gone).isoformat()}
            out[tweet_id] = {f: v for f, v in fields.items() if v}
        return out


def unescaped(text):
    return text.replace("&lt;", "<").replace("&gt;", ">").replace("&amp;", "&")


DOMAINS = {
    "https://Example.org/A?b": "example.org",
    "http://news.example.com:80/page": "news.example.com",
    "https://t.co/2": "t.co",
    "https://twitter.co/x": "twitter.co",
    "https://example.net/?on=https://twitter.com/a": "example.net",
    "https://a.example/x": "a.example",
    "https://a.example/y": "a.example",
}


def domain(url):
    return DOMAINS.get(url)


def jobs(tier, seed):
    deep = tier == "thorough"
    n = 8 if not deep else 16
    out = [("shapes", i, n, deep) for i in range(n)]
    out += [("together", i, n, deep) for i in range(n)]
    out += [("versions",), ("times",), ("wide",)] + [("growing", i, 4) for i in range(4)]
    out += [("reads", i, 4) for i in range(4)]
    return out


def meaning(fields):
    """The features without what does not matter: empty fields, kind of container."""
    return {f: (list(v) if f == "text" else sorted(set(v), key=str)) for f, v in fields.items() if v}


def judge(R, corpus, world, what):
    want = world.documents()
    got = dict(corpus.docs())
    R.equal(list(corpus.keys()), sorted(want), "the documents are not the directly collected tweets", what)
    R.equal([k for k, _ in corpus.docs()], sorted(want), "other documents than keys", what)
    R.equal([k for k, _ in corpus], sorted(want), "going through the corpus gives other documents", what)
    R.equal([[k for k, _ in corpus[key]] for key in got], [[key] for key in got], "a key retrieves another tweet", what)
    for key, doc in got.items():
        R.state((key, str(sorted((f, str(sorted(v))) for f, v in want[key].items()))))
        features = corpus.index(doc)
        for field in set(features) | set(want[key]):
            g = [v for v in features.get(field, ())]
            if None in g:
                R.violation("an absent relation contributes a feature", (what, key, field, g))
                continue
            w = want[key].get(field, ())
            if field == "text":
                R.equal(g, list(w), "the tokens of a tweet are not those of its latest text", (what, key))
            else:
                R.equal(sorted(set(g)), sorted(w), f"the {field} of a tweet are not its own", (what, key))
        R.step()
    keys = sorted(want)
    R.equal([k for k, _ in corpus.docs(doc_keys=keys[::-1])], keys[::-1], "keys retrieve other tweets", what)
    R.equal([(k, meaning(corpus.index(d))) for k, d in corpus.docs(keys[-1:])], [(k, meaning(want[k])) for k in keys[-1:]], "a key retrieves another tweet", what)
    R.equal(list(corpus.docs(doc_keys=[])), [], "no keys retrieve tweets", what)
    return want


def job_shapes(R, part, parts, deep):
    entities = list(ENTITIES)
    n = 0
    with workdir() as d:
        path = os.path.join(d, "t.db")
        for relation, entity, collected, twice in itertools.product(RELATIONS, entities, COLLECTED, (False, True)):
            others = entities if deep else [entities[n % len(entities)]]
            for other in others:
                n += 1
                if n % parts != part:
                    continue
                world = World()
                world.related()
                world.add("100", "Ann", relation, entity, collected, twice)
                world.add("20", "bob", "original", other, "one", n % 2 == 0)
                if os.path.exists(path):
                    os.unlink(path)
                world.write(path)
                corpus = TwittersphereCorpus(path)
                R.run()
                judge(R, corpus, world, (relation, entity, collected, twice, other))
                corpus.close()


SHAPES = [
    (r, e, c, t)
    for r, e, c, t in [
        ("original", "none", "one", False), ("original", "all", "two", True), ("original", "tags", "mixed", False),
        ("reply-known", "mentions", "one", True), ("reply-unknown", "url", "other", False), ("quote-known", "unwound", "one", False),
        ("quote-unknown", "internal", "mixed-first", True), ("reply-quote", "odd", "one", True), ("retweet-known", "all", "one", False),
        ("retweet-unknown", "none", "two", True), ("original", "empty", "one", False), ("reply-self", "none", "referenced", False),
    ]
]


def job_together(R, part, parts, deep):
    """Indexing whole databases, with all settings."""
    n = 0
    with workdir() as d:
        for size in (1, 2, 3) if deep else (1, 2):
            for combo in itertools.product(range(len(SHAPES)), repeat=size):
                n += 1
                if n % parts != part:
                    continue
                world = World()
                world.related()
                for i, c in enumerate(combo):
                    world.add(f"{7 - i}0", ["Ann", "bob", "Ann"][i], *SHAPES[c])
                path, index = (os.path.join(d, f) for f in ("t.db", "i.db"))
                for f in (path, index, index + "-wal", index + "-shm"):
                    if os.path.exists(f):
                        os.unlink(f)
                world.write(path)
                corpus = pickle.loads(pickle.dumps(TwittersphereCorpus(path)))
                want = world.documents()
                if not want:
                    continue
                for positions in (True, False):
                    what = (combo, positions)
                    R.run()
                    R.step()
                    with kit.opened(index, corpus) as idx:
                        idx.index(doc_batch_size=1 + (n + positions) % 4, index_positions=positions)
                        got = {}
                        for _, field, value in stored_features(idx):
                            for key in idx.convert_query_to_keys(idx[(field, value)]):
                                got.setdefault(key, {}).setdefault(field, set()).add(value)
                        R.equal(
                            {k: {f: sorted(v) for f, v in fs.items()} for k, fs in got.items()},
                            {k: {f: sorted(set(v)) for f, v in fs.items()} for k, fs in want.items()},
                            "the index does not hold exactly the features of the tweets",
                            what,
                        )
                        if positions:
                            for key, fields in want.items():
                                R.state((combo, key))


def stored_features(idx):
    """Every (id, field, value) that retrieves something, through the public listing of fields."""
    for field, *_ in idx.indexed_field_summary():
        for value, *_ in idx.iter_field_docs(field):
            yield None, field, value


def job_growing(R, part, parts):
    """More is collected while a corpus object is in use."""
    with workdir() as d:
        path = os.path.join(d, "t.db")
        for i, (x, y) in enumerate(itertools.product(SHAPES, repeat=2)):
            if i % parts != part:
                continue
            if os.path.exists(path):
                os.unlink(path)
            corpus = None
            R.run()
            for n, (relation, entity, collected, twice) in enumerate((x, y)):
                world = World()
                world.related()
                world.add("100", "Ann", relation, entity, collected, twice)
                world.add("20", "bob", "original", "none", "one", not n)
                if n:
                    world.add_user("Ann", "2024-01-01T00:00:00", "AnnLater")
                    world.add("7", "cat", relation, "all", "one", False)
                try:
                    world.write(path, again=n > 0)
                except sqlite3.OperationalError as e:
                    R.violation("a read that is over keeps tweets from being collected", repr(e))
                    break
                corpus = corpus or TwittersphereCorpus(path)
                judge(R, corpus, world, (x, y, n))
            corpus.close()


def finish(it, steps):
    it = iter(it)
    for _ in range(steps):
        next(it, None)
    if hasattr(it, "close"):
        it.close()


READS = {
    "docs": lambda c, keys: list(c.docs(doc_keys=keys)),
    "html": lambda c, keys: list(c.render_docs_html(keys)),
    "docs left after one": lambda c, keys: finish(c.docs(doc_keys=keys), 1),
    "docs left at once": lambda c, keys: finish(c.docs(doc_keys=keys), 0),
    "all left after one": lambda c, keys: finish(c.docs(), 1),
    "all": lambda c, keys: list(c),
    "keys": lambda c, keys: list(c.keys()),
    "one": lambda c, keys: [list(c[k]) for k in keys],
}


def job_reads(R, part, parts):
    """Finished reads, also failing ones and ones left early, keep nothing from being collected or seen."""
    with workdir() as d:
        path = os.path.join(d, "t.db")
        cases = list(itertools.product(READS, READS, itertools.product("ku", repeat=2), ("delete", "wal")))
        for first, second, shape, mode in cases[part::parts]:
            for suffix in ("", "-wal", "-shm", "-journal"):
                if os.path.exists(path + suffix):
                    os.unlink(path + suffix)
            R.context = {"reads": (first, second), "keys": shape, "journal": mode}
            world = World()
            world.related()
            world.add("100", "Ann", "original", "none", "one", False)
            world.write(path)
            db = sqlite3.connect(path)
            db.execute(f"pragma journal_mode={mode}").fetchall()
            db.close()
            corpus = TwittersphereCorpus(path)
            keys = ["100" if k == "k" else "987" for k in shape]
            R.run()
            R.state(str(R.context))
            for what in (first, second):
                try:
                    READS[what](corpus, keys)
                except Exception as e:
                    R.check("u" in shape, "reading known tweets fails", repr(e))
            world = World()
            world.related()
            world.add("100", "Ann", "reply-known", "all", "one", True)
            world.add("7", "cat", "original", "all", "one", False)
            try:
                world.write(path, again=True)
            except sqlite3.OperationalError as e:
                R.violation("a read that is over keeps tweets from being collected", repr(e))
                corpus.close()
                continue
            R.step()
            judge(R, corpus, world, "again")
            R.equal([k for k, _ in corpus.render_docs_html(["7", "100"])], ["7", "100"], "new tweets are not shown")
            corpus.close()


def job_versions(R):
    with workdir() as d:
        for i, (version, fine) in enumerate([(15, True), (16, True), (99, True), (14, False), (1, False), (None, False)]):
            path = os.path.join(d, f"{i}.db")
            world = World(version)
            world.related()
            world.add("5", "Ann", "original", "none", "one", False)
            world.write(path)
            R.run()
            try:
                corpus = TwittersphereCorpus(path)
            except ValueError:
                R.check(not fine, "a database of a supported version is refused", version)
            else:
                R.check(fine, "a database of an unsupported version or kind is accepted", version)
                judge(R, corpus, world, version)
                corpus.close()


def job_times(R):
    times = [
        "2021-03-04T05:06:07.000Z", "2020-02-29T23:59:59.999Z", "2019-12-31T00:00:00.000Z", "2021-01-01T00:00:00+00:00",
        "2021-10-31T12:34:56Z", "0999-01-01T01:01:01Z",
    ]
    with workdir() as d:
        for i, (time, relation) in enumerate(itertools.product(times, ("original", "retweet-known", "quote-unknown"))):
            path = os.path.join(d, f"{i}.db")
            world = World()
            world.related()
            world.add("5", "Ann", relation, "all", "one", False, created=time)
            world.write(path)
            corpus = TwittersphereCorpus(path)
            R.run()
            judge(R, corpus, world, (time, relation))
            corpus.close()


def job_wide(R):
    """More tweets than any batch."""
    with workdir() as d:
        path, index = os.path.join(d, "t.db"), os.path.join(d, "i.db")
        world = World()
        world.related()
        rs, es, cs = list(RELATIONS), list(ENTITIES), list(COLLECTED)
        for i in range(1500):
            world.add(
                str(10**6 + i * 7), f"user{i % 300}" if i % 9 else "Ann", rs[i % len(rs)], es[i % len(es)], cs[i % 5], i % 4 == 0,
                created=f"20{i % 20 + 10}-{i % 12 + 1:02d}-{i % 28 + 1:02d}T{i % 24:02d}:{i % 60:02d}:00.000Z",
            )
        world.write(path)
        corpus = TwittersphereCorpus(path)
        R.run()
        want = judge(R, corpus, world, "wide")
        keys = sorted(want)[::-1]
        R.equal([(k, meaning(corpus.index(t))) for k, t in corpus.docs(keys)], [(k, meaning(want[k])) for k in keys], "keys retrieve other tweets")
        with kit.opened(index, corpus) as idx:
            idx.index()
            got = {}
            for _, field, value in stored_features(idx):
                for key in idx.convert_query_to_keys(idx[(field, value)]):
                    got.setdefault(key, {}).setdefault(field, set()).add(value)
            R.equal(
                {k: {f: sorted(v) for f, v in fs.items()} for k, fs in got.items()},
                {k: {f: sorted(set(v)) for f, v in fs.items()} for k, fs in want.items()},
                "the index does not hold exactly the features of the tweets",
            )
        corpus.close()
