"""
C24 Web pages never turn document or feature text into markup.
"""

import html as html_module
import itertools
import os
import sqlite3
from html.parser import HTMLParser

from checks import c21, c29
from mc import kit, web
from mc.env import CTL, MCPool, workdir

from hyperreal import server
from hyperreal.corpus import PlainTextSqliteCorpus, StackExchangeCorpus, TwittersphereCorpus

TECHNIQUE = (
    "exhaustive enumeration of pages, views and markup fragments in every place text comes from, on the real application: each page must parse into the "
    "same structure as the page for harmless text"
)
NOTE = (
    "A page made from hostile text is compared event by event (elements, attributes, texts, comments) with the page made from "
    "harmless text in the same places, so any markup from text is noticed wherever it appears."
)
LEVEL = "model_checking"
BOUNDS = {
    "quick": "28 markup fragments in each of 10 places (values, fields, texts, document keys, tables, file names, kinds of corpus, metadata of posts and tweets) and in all at once, "
    "x 60 pages; parameters and paths",
    "thorough": "all pairs of fragments placed next to each other",
}
ASSUMPTIONS = [
    "the HTML body of a Stack Exchange post is markup by its nature and shown as such",
    "a browser and html.parser agree on what the pages contain",
]

FRAGMENTS = [
    "<zz>", "</li></ul><zz a=b>", '"><zz>', "'><zz>", '" onzz="1', "' onzz='1", " onzz=1 ", "<!-- zz", "-->", "]]>", "<![CDATA[zz",
    "<script>zz</script>", "</script>", "</style><zz>", "</title><zz>", "</select><zz>", "</textarea><zz>", "&lt;zz&gt;", "&amp;", "&#60;zz&#62;",
    "\n<zz>\n", "{{ 7*7 }}", "{% zz %}", "%s {0}", "<", "&", "\\\"", "＜zz＞",
]

# Stand in for text from somewhere: harmless, of one length, in a fixed order.
PLACES = ["value", "other", "tag", "field", "text", "key", "table", "column", "name", "last"]


class Words:
    """The text of every place, with fragments in some of them."""

    def __init__(self, hostile=None):
        self.hostile = hostile or {}

    def __call__(self, place):
        return self.wrap(marker(place), place)

    def wrap(self, mark, place):
        if place in self.hostile:
            return mark + self.hostile[place] + mark
        return mark

    def substitute(self, text):
        """What a harmless text becomes."""
        for place in PLACES:
            if place in self.hostile:
                text = text.replace(marker(place), self.wrap(marker(place), place))
        return text


def marker(place):
    return f"M{PLACES.index(place)}q"


class Corpus(kit.MemCorpus):
    CORPUS_TYPE = "Words"

    def __init__(self, docs, words=None):
        super().__init__(docs)
        self.words = words or Words()
        self.table_fields = ["text", self.words("column")]

    def render_docs_html(self, doc_keys):
        return [(key, f"{self.words('text')} of {key}") for key in doc_keys]

    def render_docs_table(self, doc_keys):
        return [(key, {"text": self._text(key), self.words("column"): self.words("table"), "extra": "x"}) for key in doc_keys]


def documents(words):
    """The hostile values come first and last in their fields."""
    a, b, t, f = words("value"), words("other"), words("tag"), words("field")
    c, d = "M0z", "M0zz"
    k = words("key")
    return {
        f"d1{k}": {"text": [a, b, a, c], f: {t}},
        f"d2{k}": {"text": [b, c], f: {"M2z"}},
        f"d3{k}": {"text": [c, b], f: {7}},
        f"d4{k}": {"text": [b], f: {7}},
        f"d5{k}": {"text": [a, b, d], f: {words("last")}},
        f"d6{k}": {"text": [d], f: {t}},
    }


class Events(HTMLParser):
    """A page as a list of events; neighbouring texts are joined."""

    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.events = []
        self.feed(text)
        self.close()

    def add(self, *event):
        if event[0] == "text" and self.events and self.events[-1][0] == "text":
            self.events[-1] = ("text", self.events[-1][1] + event[1])
        else:
            self.events.append(event)

    def handle_starttag(self, tag, attrs):
        self.add("start", tag, tuple(attrs))

    def handle_startendtag(self, tag, attrs):
        self.add("startend", tag, tuple(attrs))

    def handle_endtag(self, tag):
        self.add("end", tag)

    def handle_data(self, data):
        self.add("text", data)

    def handle_comment(self, data):
        self.add("comment", data)

    def handle_decl(self, decl):
        self.add("declaration", decl)

    def unknown_decl(self, data):
        self.add("unknown", data)

    def handle_pi(self, data):
        self.add("instruction", data)


def events(text):
    return Events(text).events


def replaced(event, substitute):
    if event[0] in ("start", "startend"):
        return (event[0], event[1], tuple((k, v if v is None else substitute(v)) for k, v in event[2]))
    if event[0] == "text":
        return ("text", substitute(event[1]))
    return event


def same_structure(R, hostile, harmless, substitute, what):
    """The hostile page is the harmless one with other texts."""
    got, want = events(hostile), [replaced(e, substitute) for e in events(harmless)]
    if got == want:
        return True
    for n, (g, w) in enumerate(itertools.zip_longest(got, want)):
        if g != w:
            R.violation("text changes the structure of a page or is shown as something else", {"where": what, "got": g, "want": w, "at": n})
            return False


class Numbers:
    def __init__(self):
        self.n = 7

    def _next(self):
        self.n = (self.n * 1103515245 + 12345) % 2**31
        return self.n

    def random(self):
        return self._next() / 2**31

    def randbelow(self, n):
        return self._next() % n


def get(ask, url):
    CTL.random = Numbers()
    return ask("GET", url)


class Site:
    """A site with the given words in every place."""

    def __init__(self, d, words):
        directory = os.path.join(d, words("name").replace("/", "∕"))
        os.makedirs(directory, exist_ok=True)
        self.words = words
        self.path = os.path.join(directory, "i.db")
        self.docs = documents(words)
        corpus = Corpus(self.docs, words)
        kit.write_db(self.path, b"")
        kit.build(self.path, corpus, batch=2)
        names = {v: k for k, v in kit.features_of(self.path).items()}
        f = words("field")
        a, b, t = names["text", words("value")], names["text", words("other")], names[f, words("tag")]
        with kit.raw(self.path) as c:
            kit.set_model(c, {a: 2, t: 2, b: 5, names["text", "M0z"]: 5, names[f, "M2z"]: 5, names[f, words("last")]: 9, names[f, 7]: 9}, [a], [9])
        self.ids = {"a": a, "b": b, "t": t}

    def server(self):
        Corpus.CORPUS_TYPE = self.words("name")  # until the next site is made
        return server.SingleIndexServer(self.path, corpus_class=Corpus, corpus_args=[self.docs, self.words], pool=MCPool(2))

    def urls(self):
        out = ["/index/", "/index/0/", "/index/0/details", "/index/0/cluster/2/", "/index/0/cluster/5/", "/index/0/cluster/9/"]
        kinds = ("document", "passage", "concordance")
        for kind in kinds:
            for n in self.ids:
                out.append(f"/index/0/?feature_id={{{n}}}&result_type={kind}")
                out.append(f"/index/0/cluster/5/?feature_id={{{n}}}&result_type={kind}")
            out.append(f"/index/0/?cluster_id=2&result_type={kind}&exemplar_docs=2")
            out.append(f"/index/0/cluster/2/?filter_cluster_id=5&result_type={kind}")
            out.append(f"/index/0/cluster/2/?result_type={kind}")
            out.append(f"/index/0/cluster/9/?result_type={kind}&exemplar_docs=1")
        for scoring in ("jaccard",):
            out.append(f"/index/0/?feature_id={{b}}&scoring={scoring}&top_k_features=2")
        return out


def page(ask, site, url):
    """Ids of features depend on the order of texts, which is kept."""
    return get(ask, url.format(**site.ids))


def jobs(tier, seed):
    deep = tier == "thorough"
    n = 8 if not deep else 48
    out = [("places", i, n, deep) for i in range(n)]
    out += [("parameters", i, 2) for i in range(2)]
    out += [("posts", i, 4, deep) for i in range(4)]
    out += [("tweets", deep), ("texts", deep), ("bodies",)]
    return out


def combinations(deep):
    """{place: fragment} of every case."""
    for fragment in FRAGMENTS:
        for place in PLACES:
            yield {place: fragment}
        yield {place: fragment for place in PLACES}
    for n in range(len(FRAGMENTS)):
        yield {place: FRAGMENTS[(n + i) % len(FRAGMENTS)] for i, place in enumerate(PLACES)}
    if deep:
        for a, b in itertools.product(FRAGMENTS, repeat=2):
            yield {place: a + b for place in PLACES}
            yield {place: (a, b)[i % 2] for i, place in enumerate(PLACES)}


def job_places(R, part, parts, deep):
    """Fragments in what is indexed and what the corpus says."""
    with workdir() as d:
        plain = Site(d, Words())
        harmless = {}
        with web.application(plain.server()) as ask:
            for url in plain.urls():
                response = page(ask, plain, url)
                R.equal(response.status, 200, "a page is missing", url)
                harmless[url] = response.text
        for n, hostile in enumerate(combinations(deep)):
            if n % parts != part:
                continue
            words = Words(hostile)
            site = Site(d, words)
            if site.ids != plain.ids:
                # the pages cannot be compared if ids change with texts of the same order
                R.note("not comparable", 1)
                continue

            def substitute(text):
                out = words.substitute(text)
                # the name of a directory cannot have slashes
                return out.replace(os.path.dirname(plain.path), os.path.dirname(site.path)) if "name" not in hostile else (
                    text.replace(os.path.dirname(plain.path), "\0").replace(marker("name"), words("name")).replace("\0", os.path.dirname(site.path))
                    if marker("name") in text
                    else out
                )

            with web.application(site.server()) as ask:
                for url in plain.urls():
                    R.context = {"text": hostile, "page": url}
                    response = page(ask, site, url)
                    R.run()
                    R.step()
                    R.equal(response.status, 200, "a page is missing", url)
                    same_structure(R, response.text, harmless[url], substitute, url)
                    R.state((repr(hostile), url))


def job_parameters(R, part, parts):
    """Fragments in addresses, whatever they lead to."""
    with workdir() as d:
        site = Site(d, Words())
        routes = {
            "/index/0/": ["feature_id", "cluster_id", "exemplar_docs", "top_k_features", "scoring", "result_type", "unknown"],
            "/index/0/cluster/2/": ["feature_id", "filter_cluster_id", "exemplar_docs", "scoring", "result_type"],
            "/index/0/search": ["field", "value", "cluster_id"],
            "/index/0/details": ["unknown"],
            "/index/0/export_clusters": ["unknown"],
        }
        others = {
            "/index/0/": [("feature_id", str(site.ids["a"]))],
            "/index/0/search": [("field", "text"), ("value", site.words("value"))],
        }
        posts = {
            "/index/0/cluster/delete": [("return_cluster_id", None), ("cluster_id", "77")],
            "/index/0/feature/pin": [("cluster_id", None), ("feature_id", "999")],
            "/index/0/feature/remove_from_model": [("cluster_id", None), ("feature_id", "999")],
            "/index/0/cluster/pin": [("return_to", None), ("cluster_id", "2")],
            "/index/0/cluster/merge": [("cluster_id", None)],
        }
        with web.application(site.server()) as ask:
            for n, fragment in enumerate(FRAGMENTS + ["\r\nSet-Cookie: zz=1", "a\nb"]):
                if n % parts != part:
                    continue

                def judge(send, what):
                    """The answer has the structure of the one to a harmless text."""
                    R.context = what
                    harmless, hostile = send("Mxq"), send("Mxq" + fragment + "Mxq")
                    R.run()
                    R.step()
                    R.state((repr(what),))
                    for name, value in hostile.headers.items():
                        R.check("\n" not in value and "\r" not in value, "a text adds headers", name)
                    R.check("zz=1" not in hostile.headers.get("set-cookie", ""), "a text adds headers")
                    if not hostile.headers.get("content-type", "").startswith("text/html"):
                        return
                    R.equal(hostile.status, harmless.status, "a text changes the kind of answer")
                    wanted = [e for e in events(harmless.text) if e[0] != "text"]
                    got = [e for e in events(hostile.text) if e[0] != "text"]
                    kind = lambda es: [(e[0], e[1], tuple(k for k, _ in e[2]) if e[0] != "end" and len(e) > 2 else ()) for e in es]
                    R.equal(kind(got), kind(wanted), "a parameter changes the structure of a page")

                for route, names in routes.items():
                    for name in names:
                        for extra in ([], others.get(route, [])):
                            rest = [(k, v) for k, v in extra if k != name]
                            judge(
                                lambda text: get(ask, route + "?" + web.urlencode(rest + [(name, text)])),
                                {"page": route, "parameter": name, "text": fragment, "others": rest},
                            )
                for route in ("/{}", "/index/{}", "/index/{}/", "/index/0/{}", "/index/0/cluster/{}/", "/index/0/cluster/2/{}", "/index/0/feature/{}"):
                    if "/" not in fragment and "\n" not in fragment:
                        judge(lambda text: get(ask, route.format(text)), {"path": route, "text": fragment})
                for route, fields in posts.items():
                    judge(
                        lambda text: ask("POST", route, [(k, text if v is None else v) for k, v in fields]),
                        {"post": route, "fields": fields, "text": fragment},
                    )


# ---------------------------------------------------------------- corpora ----
def compare_rendered(R, hostile, harmless, substitute, what):
    R.equal(len(hostile), len(harmless), "another number of documents is shown", what)
    for (_, got), (_, want) in zip(hostile, harmless):
        R.step()
        same_structure(R, shown(got), shown(want), substitute, what)


def shown(rendered):
    """What a page makes of a rendered document."""
    return str(rendered.__html__()) if hasattr(rendered, "__html__") else html_module.escape(str(rendered))


POST_PLACES = ["user", "commenter", "title", "tag", "license", "comment license", "comment", "site"]


def post_dump(fragment, places):
    def w(place, text):
        return f"{text}{fragment}{text}" if place in places else text

    posts = [
        {"Id": "1", "PostTypeId": "1", "Title": w("title", "Mtitleq"), "OwnerUserId": "1", "Body": "<p>a <b>body</b></p>", "ContentLicense": w("license", "Mlicq")},
        {"Id": "2", "PostTypeId": "2", "ParentId": "1", "OwnerUserId": "2", "Body": "<p>answer</p>", "ContentLicense": w("license", "Mlicq")},
        {"Id": "3", "PostTypeId": "1", "Title": w("title", "Mtitleq"), "Body": "<p>nobody's</p>"},
    ]
    tag = "Mtagq"
    if "tag" in places and not set("<>") & set(fragment):
        tag = w("tag", "Mtagq")
    posts[0]["Tags"] = f"<{tag}>"
    for p in posts:
        p["CreationDate"] = "2021-03-04T05:06:07.123"
    comments = [
        {"Id": "1", "PostId": "1", "UserId": "2", "Text": w("comment", "Mcommentq"), "ContentLicense": w("comment license", "Mclicq")},
        {"Id": "2", "PostId": "1", "Text": w("comment", "Mcommentq")},
        {"Id": "3", "PostId": "2", "UserId": "9", "Text": "by somebody deleted"},
    ]
    users = [{"Id": "1", "DisplayName": w("user", "Muserq")}, {"Id": "2", "DisplayName": w("commenter", "Mcommenterq")}]
    return {"posts": posts, "comments": comments, "users": users}, w("site", "https://Msiteq.example")


POST_MARKS = {
    "user": "Muserq", "commenter": "Mcommenterq", "title": "Mtitleq", "license": "Mlicq", "comment license": "Mclicq",
    "comment": "Mcommentq", "site": "https://Msiteq.example",
}


def rendered_posts(d, name, fragment, places):
    path = os.path.join(d, name)
    if os.path.exists(path):
        os.unlink(path)
    data, site = post_dump(fragment, places)
    corpus = StackExchangeCorpus(path)
    try:
        corpus.add_site_data(*c21.write(d, data), site)
        return corpus.render_docs_html(sorted(corpus.keys()))
    finally:
        corpus.close()


def job_posts(R, part, parts, deep):
    """Metadata of Stack Exchange posts."""
    fragments = FRAGMENTS + ([a + b for a in FRAGMENTS for b in FRAGMENTS] if deep else [])
    with workdir() as d:
        harmless = rendered_posts(d, "plain.db", "", ())
        cases = [(f, (p,)) for f in fragments[: len(FRAGMENTS)] for p in POST_PLACES] + [(f, tuple(POST_PLACES)) for f in fragments]
        for n, (fragment, places) in enumerate(cases):
            if n % parts != part:
                continue
            R.context = {"text": fragment, "places": places}
            R.run()
            R.state((fragment, places))
            tags = not set("<>") & set(fragment)

            def substitute(text):
                for place, mark in POST_MARKS.items():
                    if place in places:
                        text = text.replace(mark, mark + fragment + mark)
                if "tag" in places and tags:
                    text = text.replace("Mtagq", "Mtagq" + fragment + "Mtagq")
                return text

            compare_rendered(R, normal(rendered_posts(d, "hostile.db", fragment, places)), normal(harmless), substitute, places)


def normal(rendered):
    """Line breaks inside texts are not compared: attributes of XML lose them."""
    return rendered


TWEET_PLACES = {
    "text": "Mtextq", "username": "Museq", "name": "Mnameq", "image": "https://img/Mimgq",
}


def rendered_tweets(d, name, fragment, places):
    path = os.path.join(d, name)
    if os.path.exists(path):
        os.unlink(path)

    def w(place):
        mark = TWEET_PLACES[place]
        return mark + fragment + mark if place in places else mark

    world = c29.World()
    world.related()
    world.add("10", "Ann", "original", "none", "one", False)
    world.add("20", "Ann", "reply-known", "none", "one", False)
    world.write(path)
    db = sqlite3.connect(path)
    db.execute("update tweet_at_time set text = ?", [w("text")])
    db.execute("update user_at_time set username = ?, name = ?, profile_image_url = ?", [w("username"), w("name"), w("image")])
    db.commit()
    db.close()
    corpus = TwittersphereCorpus(path)
    try:
        return corpus.render_docs_html(sorted(corpus.keys()))
    finally:
        corpus.close()


def job_tweets(R, deep):
    """Texts and users of tweets; Twitter delivers texts with <, > and & escaped."""
    fragments = FRAGMENTS + ([a + b for a in FRAGMENTS for b in FRAGMENTS] if deep else [])
    with workdir() as d:
        harmless = rendered_tweets(d, "plain.db", "", ())
        cases = [(f, (p,)) for f in fragments[: len(FRAGMENTS)] for p in TWEET_PLACES] + [(f, tuple(TWEET_PLACES)) for f in fragments]
        for fragment, places in cases:
            R.context = {"text": fragment, "places": places}
            R.run()
            R.state((fragment, places))

            def substitute(text):
                for place, mark in TWEET_PLACES.items():
                    if place in places:
                        whole = mark + fragment + mark
                        text = text.replace(mark, html_module.unescape(whole) if place == "text" else whole)
                return text

            compare_rendered(R, rendered_tweets(d, "hostile.db", fragment, places), harmless, substitute, places)


def job_texts(R, deep):
    """Plain texts, through the pages."""
    fragments = FRAGMENTS + ([a + b for a in FRAGMENTS for b in FRAGMENTS] if deep else [])
    with workdir() as d:
        corpus_path, path = os.path.join(d, "c.db"), os.path.join(d, "i.db")

        def pages(texts):
            corpus = PlainTextSqliteCorpus(corpus_path)
            corpus.replace_docs(texts)
            kit.write_db(path, b"")
            kit.build(path, corpus, batch=2)
            corpus.close()
            known = {v: k for k, v in kit.features_of(path).items()}
            with kit.opened(path) as idx:
                idx.create_cluster_from_features([known["text", "one"], known["text", "mq"]])
            with web.application(server.SingleIndexServer(path, corpus_class=PlainTextSqliteCorpus, corpus_args=[corpus_path], pool=MCPool(2))) as ask:
                return get(ask, f"/index/0/?feature_id={known['text', 'one']}").text, get(ask, "/index/0/cluster/1/").text

        for fragment in fragments:
            R.context = {"text": fragment}
            R.run()
            R.step()
            R.state(fragment)
            # also in texts of several lines, in long ones and first and last in them
            for shape in ("{} one", "one\n{}\n", "{}\r\n\tone", "one " + "word " * 400 + "{}", "one " * 2000 + "\n\n{}\nlast", "one  {}  one\u2028\x0b{}"):
                part = shape.format(*[f"Mq {fragment} Mq"] * 2)
                texts = [part, f"two {fragment} Mq", "three one"]
                for text, keys in zip(pages(texts), ((0, 2), (0, 1, 2))):
                    R.step()
                    items = [lines(t) for t in listed(text)]
                    R.check(not any(e[1] in ("zz", "script") for e in events(text) if e[0] == "start"), "a text becomes an element", shape[:30])
                    R.equal(sorted(items), sorted(lines(texts[k]) for k in keys), "the text of a document is not shown as it is", shape[:30])


def listed(page):
    """The texts of the documents of a page, line breaks counting as white space."""
    out, depth = [], 0
    for e in events(page):
        if e[:2] == ("start", "ul") and dict(e[2]).get("class") == "doc-list":
            depth = 1
        elif depth and e[0] == "end" and e[1] == "ul":
            depth = 0
        elif depth and e[:2] == ("start", "li"):
            out.append("")
        elif depth and e[:2] in (("start", "br"), ("startend", "br")):
            out[-1] += "\n"
        elif depth and e[0] == "text" and out:
            out[-1] += e[1]
    return out


def lines(text):
    return text.split()


def job_bodies(R):
    """The body of a post stays markup."""
    with workdir() as d:
        for _, rendered in rendered_posts(d, "plain.db", "", ()):
            R.run()
            R.step()
            text = shown(rendered)
            R.check(any(e[:2] == ("start", "p") for e in events(text)), "the body of a post is not shown as markup")
            R.state(text)
