"""
C23 Web requests change the index only by POST and exactly as asked.
"""

import gc
import itertools
import os
import re
import sqlite3
from html.parser import HTMLParser

from mc import kit, web, wide
from mc.env import CTL, MCPool, workdir
from mc.explore import explore
from mc.sched import Scheduler, SchedSqlHook

from hyperreal import server

TECHNIQUE = (
    "exhaustive enumeration of routes, methods, parameter shapes, request sequences and interleavings of two requests on the real application, "
    "compared with the library calls they ask for"
)
NOTE = (
    "Requests go straight into the WSGI application that the start-up code mounts, with the real dispatching and tools; only the "
    "HTTP parser and the thread pool of the server are left out."
)
LEVEL = "model_checking"
BOUNDS = {
    "quick": "every route with 6 methods and all single parameters of its alphabet and pairs of them; about 500 edit requests on a model with pins; all sequences of 2 of "
    "26 requests; every form of the pages; all pairs of 10 edits interleaved at every statement with 1 preemption; "
    "15 edit requests with up to 2000 ids on 92 clusters",
    "thorough": "every edit request from 4 models, all sequences of 3 of 26 requests, pairs interleaved with 2 preemptions",
}
ASSUMPTIONS = ["the random numbers of a request start from a fixed state, so that the library call can be repeated"]

DOCS = {
    "d1": {"text": ["a", "b", "a", "c"], "tag": {"x"}},
    "d2": {"text": ["b", "c"], "tag": {"x", "y"}},
    "d3": {"text": ["c", "b"], "tag": {"w"}},
    "d4": {"text": ["b"], "tag": {"y", "w"}},
    "d5": {"text": ["d", "a", "b"], "tag": {"z"}},
    "d6": {"text": ["a", "d"], "tag": {"x", "z", "w"}},
}


class Numbers:
    """A short deterministic sequence of random numbers."""

    def __init__(self):
        self.n = 7

    def _next(self):
        self.n = (self.n * 1103515245 + 12345) % 2**31
        return self.n

    def random(self):
        return self._next() / 2**31

    def randbelow(self, n):
        return self._next() % n


class Fixed:
    def random(self):
        return 0.25

    def randbelow(self, n):
        return 0


MODELS = ("pinned", "plain", "none", "single", "odd")


def base(name):
    def builder(path):
        if name == "wide":
            kit.write_db(path, wide.base(n=900, words=700))
            with kit.raw(path) as c:
                kit.set_model(c, wide.model(kit.features_of(path), [300, 100] + [9] * 60 + [1] * 30))
            return
        if name == "odd":
            # a field without a name, and features that have no documents any more
            odd = {k: {**v, "": {"n" + k, ""}, "gone": [k], "tag": {*v["tag"], "q" + k}} for k, v in DOCS.items()}
            kit.build(path, odd, batch=2)
            kit.build(path, {k: {**v, "": {"n" + k, ""}} for k, v in DOCS.items()}, batch=2)
            with kit.raw(path) as c:
                kit.set_model(c, {i: (0, 2, 5)[n % 3] for n, i in enumerate(sorted(kit.features_of(path))) if n % 4})
            return
        kit.build(path, DOCS, batch=2)
        f = {v: k for k, v in kit.features_of(path).items()}
        with kit.raw(path) as c:
            if name == "pinned":
                kit.set_model(
                    c,
                    {f[("text", "a")]: 2, f[("tag", "x")]: 2, f[("text", "b")]: 5, f[("text", "c")]: 5, f[("tag", "z")]: 9, f[("tag", "y")]: 5},
                    [f[("text", "a")]],
                    [9],
                )
            elif name == "plain":
                kit.set_model(c, {i: (0, 5, 9)[n % 3] for n, i in enumerate(sorted(f.values()))})
            elif name == "single":
                kit.set_model(c, {i: 2 for i in sorted(f.values())[:4]})

    return kit.template("c23-" + name, builder)


# ---------------------------------------------------------- edit requests ----
# A request is (path, fields). Feature ids are written as the number of the
# feature among the sorted ids, marked with "f".
IDS = [[], ["2"], ["5"], ["2", "5"], ["9", "2", "5"], ["0"], ["5", "0"], ["77"], ["2", "77"], ["2", "2"], ["x"], ["2", "x"], [""], ["2.5"]]
FEATURES = [[], ["f0"], ["f1", "f4"], ["f7"], ["f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7"], ["f3", "f3"], ["999"], ["f1", "999"], ["x"], ["f1", "x"], [""]]


def fields(name, values):
    return [(name, v) for v in values]


def edit_requests():
    for ids in IDS:
        k = fields("cluster_id", ids)
        yield "cluster/delete", k
        yield "cluster/delete", k + [("return_cluster_id", "5")]
        yield "cluster/delete", k + [("return_cluster_id", "0")]
        yield "cluster/delete", k + [("return_to", "model"), ("target_clusters", "")]
        yield "cluster/merge", k
        yield "cluster/merge", k + [("return_to", "model"), ("target_clusters", "4")]
        for pinned in (None, "1", "0", "x", ""):
            extra = [] if pinned is None else [("pinned", pinned)]
            yield "cluster/pin", k + extra
            yield "cluster/pin", k + extra + [("return_to", "model")]
        for target in (None, "", "1", "2", "3", "6", "x"):
            extra = [] if target is None else [("target_clusters", target)]
            yield "cluster/refine", k + extra + [("iterations", "2")]
            yield "cluster/refine", k + extra + [("iterations", "1"), ("return_to", "model"), ("minimum_cluster_features", "2")]
        for iterations in (None, "0", "-1", "x"):
            extra = [] if iterations is None else [("iterations", iterations)]
            yield "cluster/refine", k + extra
        yield "cluster/refine", k + [("minimum_cluster_features", "x")]
        yield "cluster/refine", k + [("unknown", "1")]
    for ids in FEATURES:
        f = fields("feature_id", ids)
        yield "cluster/create", f
        yield "cluster/create", f + [("cluster_id", "2")]
        yield "feature/remove_from_model", f
        for k in ("2", "0"):
            yield "feature/remove_from_model", f + [("cluster_id", k)]
        for pinned in (None, "1", "0", "x"):
            extra = [] if pinned is None else [("pinned", pinned)]
            yield "feature/pin", f + extra
            for k in ("2", "0"):
                yield "feature/pin", f + extra + [("cluster_id", k)]
    for include in ([], ["text"], ["tag", "text"], ["nope"], ["text", "text"], [""], ["", "tag"], ["gone"]):
        i = fields("include_fields", include)
        for clusters, docs in itertools.product((None, "1", "3", "x"), (None, "1", "0", "3", "x")):
            extra = [] if clusters is None else [("clusters", clusters)]
            extra += [] if docs is None else [("min_docs", docs)]
            yield "recreate_model", i + extra + [("iterations", "2")]
        for iterations, least in itertools.product((None, "1", "0", "-2", "x"), (None, "2", "x")):
            extra = [] if iterations is None else [("iterations", iterations)]
            extra += [] if least is None else [("minimum_cluster_features", least)]
            yield "recreate_model", i + extra + [("min_docs", "1"), ("clusters", "3")]
    for iterations, target, least in itertools.product((None, "1", "0", "x"), (None, "", "0", "2", "6", "x"), (None, "2", "x")):
        extra = [] if iterations is None else [("iterations", iterations)]
        extra += [] if target is None else [("target_clusters", target)]
        extra += [] if least is None else [("minimum_cluster_features", least)]
        yield "refine_model", extra


class Malformed(Exception):
    pass


def number(text):
    try:
        return int(text)
    except ValueError:
        raise Malformed(text)


def asked_for(idx, path, form):
    """
    Make the library calls that a request asks for. Returns where it should
    lead, without the index, or None when that is not said.
    """
    lists = {}
    for name, value in form:
        lists.setdefault(name, []).append(value)
    one = {name: values[0] for name, values in lists.items()}
    clusters = [number(v) for v in lists.get("cluster_id", [])]
    features = [number(v) for v in lists.get("feature_id", [])]
    if path == "cluster/delete":
        idx.delete_clusters(clusters)
        back = one.get("return_cluster_id")
        return f"cluster/{back}" if back else ""
    if path == "cluster/merge":
        return f"cluster/{idx.merge_clusters(clusters)}"
    if path == "cluster/create":
        return f"cluster/{idx.create_cluster_from_features(features)}"
    if path in ("cluster/pin", "cluster/refine"):
        if not clusters:
            raise Malformed("no clusters")
        if path == "cluster/pin":
            idx.pin_clusters(clusters, number(one.get("pinned", "1")))
        else:
            if set(lists) - {"cluster_id", "target_clusters", "iterations", "return_to", "minimum_cluster_features"}:
                raise Malformed("unknown field")
            target = one.get("target_clusters") or None
            target = target and number(target)
            idx.refine_clusters(
                cluster_ids=clusters,
                target_clusters=target,
                iterations=number(one.get("iterations", "10")),
                minimum_cluster_features=number(one.get("minimum_cluster_features", "1")),
            )
        return f"cluster/{clusters[0]}" if one.get("return_to", "cluster") == "cluster" else f"?cluster_id={clusters[0]}"
    if path in ("feature/pin", "feature/remove_from_model"):
        if path == "feature/pin":
            idx.pin_features(features, number(one.get("pinned", "1")))
        else:
            idx.delete_features(features)
        return f"cluster/{one['cluster_id']}" if "cluster_id" in one else ""
    if path == "recreate_model":
        n, docs = number(one.get("clusters", "64")), number(one.get("min_docs", "10"))
        iterations, least = number(one.get("iterations", "10")), number(one.get("minimum_cluster_features", "1"))
        if iterations < 1:
            raise Malformed("iterations")
        idx.initialise_clusters(n, docs, lists.get("include_fields") or None)
        idx.refine_clusters(iterations=iterations, minimum_cluster_features=least)
        return ""
    if path == "refine_model":
        target = one.get("target_clusters", "0") or None
        target = target and number(target)
        idx.refine_clusters(
            iterations=number(one.get("iterations", "10")),
            target_clusters=target,
            minimum_cluster_features=number(one.get("minimum_cluster_features", "1")),
        )
        return ""
    raise AssertionError(path)


def place(location):
    """Where a redirect leads, written in one way."""
    if location is None:
        return None
    path, _, query = location.partition("?")
    return path.rstrip("/") + ("?" + query if query else "")


def state(path):
    """The content of the index, without its history."""
    return {k: v for k, v in kit.dump(path).items()}


def writable(path):
    """Nobody holds a lock or a transaction."""
    with kit.raw(path) as c:
        try:
            c.execute("begin immediate")
            c.execute("rollback")
            return True
        except sqlite3.OperationalError:
            return False


def held(path):
    """How often this process has the files of the index open."""
    gc.collect()
    n = 0
    for fd in os.listdir("/proc/self/fd"):
        try:
            n += os.readlink(f"/proc/self/fd/{fd}").startswith(path)
        except OSError:
            pass
    return n


class Site:
    """An index at path and the application on it."""

    def __init__(self, d, model, corpus=True):
        self.path = os.path.join(d, "site.db")
        self.copy = os.path.join(d, "copy.db")
        self.model = model
        args = dict(corpus_class=kit.MemCorpus, corpus_args=[DOCS]) if corpus else {}
        self.server = server.SingleIndexServer(self.path, pool=MCPool(2), **args)
        self.reset()
        self.features = sorted(kit.features_of(self.path))

    def reset(self):
        kit.write_db(self.path, base(self.model))
        kit.write_db(self.copy, base(self.model))

    def real(self, form):
        """With the ids of features filled in."""
        return [(n, str(self.features[int(v[1:])]) if re.fullmatch(r"f\d", v) else v) for n, v in form]

    def expect(self, path, form):
        """What the library does at the copy: (place to go to, or None if it fails)"""
        CTL.random = Numbers()
        before = kit.read_db(self.copy)
        try:
            with kit.opened(self.copy) as idx:
                page = asked_for(idx, path, form)
                gone = re.fullmatch(r"cluster/(.*)", page)
                if gone and path not in ("cluster/pin", "feature/pin", "cluster/merge") and gone[1] not in map(str, idx.cluster_ids):
                    # where its page was
                    page = ""
                return "/" + page
        except Exception:
            kit.write_db(self.copy, before)
            return None


def request(R, site, ask, path, form, what):
    """One POST and its comparison with the library. True if it succeeded."""
    form = site.real(form)
    before = state(site.path)
    wanted = site.expect(path, form)
    CTL.random = Numbers()
    response = ask("POST", f"/index/0/{path}", form)
    R.run()
    R.step()
    if wanted is None:
        R.check(response.status >= 400, f"a {what} request that cannot be served looks like a success", response.status)
        R.equal(state(site.path), before, f"a failing {what} request changes the index")
    else:
        R.check(300 <= response.status < 400, f"a {what} request does not redirect", response.status)
        got = place(response.location)
        R.equal(got, place(f"/index/0{wanted}"), f"a {what} request leads to another page")
        R.equal(state(site.path), state(site.copy), f"a {what} request does not do what the library does")
    for error in kit.summary_errors(site.path):
        R.violation("the summaries of clusters are wrong", error)
    R.check(writable(site.path), "a request leaves the index locked", path)
    return wanted is not None


def jobs(tier, seed):
    deep = tier == "thorough"
    out = [("edits", i, 6, model) for model in (MODELS if deep else MODELS[:1]) for i in range(6)]
    if not deep:
        out += [("edits", i, 24, model) for n, model in enumerate(MODELS[1:]) for i in (n, n + 8)]
    out += [("recreate", i, 2) for i in range(2)]
    out += [("reads", i, 4, model) for model in ("pinned", "none") for i in range(4)]
    n = 6 if not deep else 48
    out += [("sequences", i, n, 3 if deep else 2) for i in range(n)]
    out += [("wide", i, 4) for i in range(4)]
    out += [("forms", model) for model in MODELS]
    pairs = list(itertools.combinations_with_replacement(range(len(CONCURRENT)), 2))
    out += [("concurrent", p, 2 if deep else 1) for p in pairs]
    return out


def job_recreate(R, part, parts):
    job_edits(R, part, parts, "odd", "recreate_model")


def job_edits(R, part, parts, model, only=None):
    with workdir() as d:
        site = Site(d, model)
        with web.application(site.server) as ask:
            for path, form in [r for r in edit_requests() if only in (None, r[0])][part::parts]:
                R.context = {"model": model, "post": path, "form": form}
                site.reset()
                request(R, site, ask, path, form, path)
                R.state((model, path, repr(form)))
                R.outcome(repr(kit.model_of(site.path)))


def job_wide(R, part, parts):
    """Requests with thousands of ids."""
    with workdir() as d:
        site = Site(d, "wide")
        ids = [str(k) for k, _ in kit.model_of(site.path)[0]]
        fs = [str(f) for f in site.features]
        requests = [
            ("cluster/delete", fields("cluster_id", ids[1:80])),
            ("cluster/delete", fields("cluster_id", ids)),
            ("cluster/merge", fields("cluster_id", ids[::-1])),
            ("cluster/merge", fields("cluster_id", ids[2:70])),
            ("cluster/pin", fields("cluster_id", ids)),
            ("cluster/pin", fields("cluster_id", ids[:60]) + [("pinned", "0")]),
            ("cluster/create", fields("feature_id", fs[1:1500])),
            ("cluster/create", fields("feature_id", fs + ["9999999"])),
            ("feature/pin", fields("feature_id", fs[1:1700])),
            ("feature/remove_from_model", fields("feature_id", fs[:1300])),
            ("cluster/refine", fields("cluster_id", ids[3:60]) + [("iterations", "1"), ("target_clusters", "20"), ("return_to", "model")]),
            ("recreate_model", [("clusters", "300"), ("min_docs", "1"), ("iterations", "1")]),
            ("recreate_model", [("iterations", "1")]),
            ("refine_model", [("target_clusters", "150"), ("iterations", "1")]),
            ("refine_model", [("target_clusters", "10"), ("iterations", "1"), ("minimum_cluster_features", "3")]),
        ]
        with web.application(site.server) as ask:
            for path, form in requests[part::parts]:
                R.context = {"model": "wide", "post": path, "fields": len(form)}
                site.reset()
                request(R, site, ask, path, form, path)
                R.state(("wide", path, len(form)))


# ------------------------------------------------------------------- reads ----
EDIT_ROUTES = [
    "cluster/delete", "cluster/merge", "cluster/create", "cluster/refine", "cluster/pin", "feature/pin", "feature/remove_from_model",
    "recreate_model", "refine_model",
]
READ_ROUTES = [
    "/", "/index/", "/index/0", "/index/0/", "/index/1/", "/index/x/", "/index/0/details", "/index/0/export_clusters", "/index/0/search",
    "/index/0/cluster/", "/index/0/cluster/2/", "/index/0/cluster/2", "/index/0/cluster/9/", "/index/0/cluster/77/", "/index/0/cluster/x/",
    "/index/0/cluster/2/search", "/index/0/feature/", "/index/0/nope", "/index/0/cluster/2/delete", "/index/0/cluster/2/pin",
]
PARAMETERS = {
    "feature_id": ["f0", "f4", "999", "x"],
    "cluster_id": ["2", "9", "77", "x"],
    "filter_cluster_id": ["5", "77", "x"],
    "exemplar_docs": ["1", "0", "x"],
    "top_k_features": ["1", "0", "x"],
    "scoring": ["jaccard", "chi_squared", "nope"],
    "result_type": ["document", "passage", "concordance", "nope"],
    "field": ["text", "nope"],
    "value": ["a", "nope"],
    "pinned": ["0"],
    "iterations": ["1"],
    "return_cluster_id": ["5"],
    "include_fields": ["text"],
}
METHODS = ("GET", "HEAD", "PUT", "DELETE", "OPTIONS", "PATCH")


def queries():
    """No parameter, each alone, and pairs of the first values."""
    yield []
    for name, values in PARAMETERS.items():
        for v in values:
            yield [(name, v)]
    for (a, va), (b, vb) in itertools.combinations(PARAMETERS.items(), 2):
        yield [(a, va[0]), (b, vb[0])]
    for f, r, e in itertools.product(("f0", "f4"), PARAMETERS["result_type"], ("1", "30")):
        yield [("feature_id", f), ("result_type", r), ("exemplar_docs", e)]
        yield [("feature_id", f), ("filter_cluster_id", "5"), ("result_type", r)]
    for k, r in itertools.product(("2", "9"), PARAMETERS["result_type"]):
        yield [("cluster_id", k), ("result_type", r)]
    yield [("field", "text"), ("value", "a"), ("cluster_id", "2")]
    yield [("cluster_id", "2"), ("cluster_id", "5")]
    yield [("feature_id", "f0"), ("feature_id", "f1")]


def job_reads(R, part, parts, model):
    """Requests that are not POST."""
    with workdir() as d:
        site = Site(d, model)
        with web.application(site.server) as ask:
            before = state(site.path)
            files = held(site.path)
            fresh = {u: ask("GET", u).text for u in ("/index/0/", "/index/0/cluster/2/", "/index/0/details", "/index/0/export_clusters")}
            routes = READ_ROUTES + [f"/index/0/{r}" for r in EDIT_ROUTES]
            n = 0
            for route, query in itertools.product(routes, list(queries())):
                n += 1
                if n % parts != part:
                    continue
                url = route + ("?" + web.urlencode(site.real(query)) if query else "")
                edits = any(route == f"/index/0/{r}" for r in EDIT_ROUTES)
                for method in METHODS if not query or edits else ("GET",):
                    R.context = {"model": model, "method": method, "url": url}
                    CTL.random = Numbers()
                    response = ask(method, url)
                    R.run()
                    R.step()
                    if edits:
                        R.check(response.status >= 400, "an edit address accepts something else than POST", response.status)
                    R.state((model, method, route, repr(query)))
                    if n % 3 == 0 or edits:
                        R.equal(state(site.path), before, "a request that is not a POST changes the index")
                    R.check(writable(site.path), "a request leaves the index locked", url)
                for steps in (0, 1, 2) if n % 9 == 0 else ():
                    # clients that stop reading
                    ask("GET", url, steps=steps)
                    R.step()
                    R.check(writable(site.path), "an abandoned request leaves the index locked", url)
                if n % 5 == 0:
                    for u, text in fresh.items():
                        R.equal(ask("GET", u).text, text, "an earlier request changes a page", u)
            R.context = {"model": model, "part": part}
            R.equal(state(site.path), before, "a request that is not a POST changes the index")
            R.check(held(site.path) <= files + 5, "requests leave the index open more and more often", held(site.path))
            # POST to addresses that only read
            for route in READ_ROUTES:
                for query in ([], [("cluster_id", "2")], [("feature_id", "f0")], [("field", "text"), ("value", "a")]):
                    R.context = {"model": model, "post": route, "form": query}
                    ask("POST", route, site.real(query))
                    R.step()
                    R.equal(state(site.path), before, "a request to an address that only reads changes the index")


# --------------------------------------------------------------- sequences ----
REQUESTS = [
    ("POST", "cluster/delete", [("cluster_id", "2")]),
    ("POST", "cluster/delete", [("cluster_id", "5"), ("cluster_id", "9")]),
    ("POST", "cluster/delete", [("cluster_id", "x")]),
    ("POST", "cluster/merge", [("cluster_id", "5"), ("cluster_id", "2")]),
    ("POST", "cluster/merge", [("cluster_id", "9"), ("cluster_id", "77")]),
    ("POST", "cluster/merge", []),
    ("POST", "cluster/create", [("feature_id", "f0")]),
    ("POST", "cluster/create", [("feature_id", "f2"), ("feature_id", "f6")]),
    ("POST", "cluster/create", [("feature_id", "f1"), ("feature_id", "999")]),
    ("POST", "cluster/pin", [("cluster_id", "2")]),
    ("POST", "cluster/pin", [("cluster_id", "9"), ("pinned", "0")]),
    ("POST", "cluster/pin", []),
    ("POST", "cluster/refine", [("cluster_id", "5"), ("target_clusters", "3")]),
    ("POST", "cluster/refine", [("iterations", "1")]),
    ("POST", "feature/pin", [("feature_id", "f3"), ("feature_id", "f4")]),
    ("POST", "feature/pin", [("feature_id", "f4"), ("pinned", "0"), ("cluster_id", "2")]),
    ("POST", "feature/remove_from_model", [("feature_id", "f4"), ("feature_id", "f5")]),
    ("POST", "recreate_model", [("min_docs", "2"), ("clusters", "3")]),
    ("POST", "recreate_model", [("min_docs", "x")]),
    ("POST", "refine_model", [("target_clusters", "4"), ("iterations", "1")]),
    ("POST", "refine_model", [("target_clusters", "1"), ("iterations", "2")]),
    ("GET", "/index/0/?feature_id=f0", None),
    ("GET", "/index/0/?cluster_id=5&scoring=nope", None),
    ("GET", "/index/0/cluster/77/", None),
    ("GET", "/index/0/cluster/2/?feature_id=f4&result_type=passage", None),
    ("GET", "/index/0/search?field=text&value=nope", None),
]


def job_sequences(R, part, parts, length):
    with workdir() as d:
        site = Site(d, "pinned")
        with web.application(site.server) as ask:
            for n, steps in enumerate(itertools.product(range(len(REQUESTS)), repeat=length)):
                if n % parts != part:
                    continue
                site.reset()
                for done, step in enumerate(steps):
                    method, path, form = REQUESTS[step]
                    R.context = {"requests": [REQUESTS[s] for s in steps[: done + 1]]}
                    if method == "POST":
                        request(R, site, ask, path, form, path)
                    else:
                        before = state(site.path)
                        ask("GET", re.sub(r"f(\d)", lambda m: str(site.features[int(m[1])]), path))
                        R.step()
                        R.equal(state(site.path), before, "a request that is not a POST changes the index")
                    R.state(repr(kit.model_of(site.path)))
                R.state(steps)


# ------------------------------------------------------------------- forms ----
class Forms(HTMLParser):
    """The forms of a page: (method, address, fields, choices, button)."""

    def __init__(self, text):
        super().__init__()
        self.forms, self.form, self.select, self.button = [], None, None, None
        self.outside = []
        self.feed(text)

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag == "form":
            self.form = {
                "method": (a.get("method") or "get").upper(), "action": a.get("action"), "id": a.get("id"), "fields": [], "choices": {}, "buttons": [],
                "numbers": [],
            }
            self.forms.append(self.form)
        elif tag == "input" and a.get("type") == "checkbox":
            self.outside.append((a.get("form"), a["name"], a["value"]))
        elif tag == "input" and self.form is not None and a.get("name"):
            self.form["fields"].append((a["name"], a.get("value", "")))
            if a.get("type") == "number":
                self.form["numbers"].append(a["name"])
        elif tag == "select" and self.form is not None:
            self.select = a["name"]
            self.form["choices"][self.select] = []
        elif tag == "option" and self.select:
            self.form["choices"][self.select].append(a["value"])
        elif tag == "button" and self.form is not None:
            self.button = [a.get("formaction"), ""]

    def handle_data(self, data):
        if self.button:
            self.button[1] += data

    def handle_endtag(self, tag):
        if tag == "form":
            self.form = None
        elif tag == "select":
            self.select = None
        elif tag == "button" and self.button:
            self.form["buttons"].append((self.button[0], " ".join(self.button[1].split())))
            self.button = None


def submissions(page):
    """(address, form fields, button) of everything one can submit on a page."""
    for form in page.forms:
        if form["method"] != "POST":
            continue
        boxes = [(n, v) for i, n, v in page.outside if i is not None and i == form["id"]]
        for action, text in form["buttons"]:
            address = action or form["action"]
            options = [[(n, v) for v in choice] for n, values in form["choices"].items() for choice in ([], values[:1], values[1:3], values)]
            chosen = [boxes[:1], boxes[1:], boxes] if boxes else options or [[]]
            for extra in chosen:
                yield address, form["fields"] + extra, text


def job_forms(R, model):
    """Everything that can be submitted on the pages is a request the library understands."""
    with workdir() as d:
        site = Site(d, model)
        with web.application(site.server) as ask:
            known = [k for k, _ in kit.model_of(site.path)[0]]
            urls = ["/index/0/", "/index/0/details"] + [f"/index/0/cluster/{k}/" for k in known]
            urls += [f"/index/0/?cluster_id={k}" for k in known] + [f"/index/0/cluster/{k}/?feature_id={site.features[4]}" for k in known]
            for url in urls:
                site.reset()
                response = ask("GET", url)
                if response.status != 200:
                    R.check(model == "none", "a page is missing", url)
                    continue
                page = Forms(response.text)
                searches(R, site, ask, page, url)
                for address, form, button in submissions(page):
                    R.context = {"model": model, "page": url, "button": button, "form": form}
                    site.reset()
                    R.check(address.startswith("/index/0/"), "a form leads somewhere else", address)
                    before = kit.model_of(site.path)
                    served = request(R, site, ask, address[len("/index/0/") :], form, "submitted")
                    R.state((model, url, address, repr(form)))
                    if served:
                        meaning(R, button, form, before, kit.model_of(site.path), url)


def searches(R, site, ask, page, url):
    """The search forms of a page lead back to it, with the feature."""
    here = url.split("?")[0]
    for form in page.forms:
        if form["method"] == "POST" or "field" not in form["choices"]:
            continue
        with kit.raw(site.path) as c:
            present = {f for f, in c.execute("select field from inverted_index where docs_count > 0")}
        R.check(set(form["choices"]["field"]) == present, "a search form offers other fields", form["choices"])
        for (field, value), feature in feature_ids(site).items():
            query = [("field", field)] + [(n, value if n == "value" else v) for n, v in form["fields"]]
            R.context = {"model": site.model, "page": url, "search": query}
            response = ask("GET", form["action"] + "?" + web.urlencode(query))
            R.step()
            R.state((site.model, url, "search", field, value))
            R.check(300 <= response.status < 400, "a search from a page fails", response.status)
            R.equal(place(response.location), place(f"{here}?feature_id={feature}"), "a search leads to another page")


def feature_ids(site):
    return {v: k for k, v in kit.features_of(site.path).items()}


def meaning(R, button, form, before, after, url):
    """What the buttons say."""
    chosen = {int(v) for n, v in form if n == "cluster_id"}
    picked = {int(v) for n, v in form if n == "feature_id"}
    was, now = {k: set(v) for k, v in before[0]}, {k: set(v) for k, v in after[0]}
    words = button.lower()
    if words.startswith("unpin cluster"):
        R.equal(set(after[2]), set(before[2]) - chosen, "the button does something else", button)
    elif words.startswith("pin cluster"):
        R.equal(set(after[2]), set(before[2]) | chosen, "the button does something else", button)
    elif words.startswith("delete selected"):
        R.equal(set().union(*now.values()), set().union(*was.values()) - picked, "the button does something else", button)
    elif words.startswith("delete"):
        R.equal(set(now), set(was) - chosen, "the button does something else", button)
    elif words.startswith("create"):
        if picked:
            new = set(now) - set(was)
            R.check(len(new) == 1 and now[min(new)] == picked, "the button does something else", (button, after))
    elif words.startswith("merge"):
        union = set().union(*(was[k] for k in chosen))
        R.check(union in now.values() and len(now) == len(was) - len(chosen) + 1, "the button does something else", (button, after))


# -------------------------------------------------------------- concurrent ----
CONCURRENT = [
    ("cluster/create", [("feature_id", "f0"), ("feature_id", "f2")]),
    ("cluster/create", [("feature_id", "f4"), ("feature_id", "f6")]),
    ("cluster/merge", [("cluster_id", "5"), ("cluster_id", "2")]),
    ("cluster/delete", [("cluster_id", "2")]),
    ("cluster/pin", [("cluster_id", "5")]),
    ("cluster/refine", [("cluster_id", "5"), ("target_clusters", "3"), ("iterations", "1")]),
    ("feature/pin", [("feature_id", "f3"), ("feature_id", "f4")]),
    ("feature/remove_from_model", [("feature_id", "f5")]),
    ("refine_model", [("target_clusters", "5"), ("iterations", "1")]),
    ("cluster/merge", [("cluster_id", "x")]),
]


def job_concurrent(R, pair, bound):
    """Two requests at once."""
    CTL.random = Fixed()
    with workdir() as d:
        site = Site(d, "pinned")
        pair = [CONCURRENT[i] for i in pair]
        serial = {}

        def alone(order):
            if order not in serial:
                site.reset()
                for i in order:
                    with kit.opened(site.copy) as idx:
                        asked_for(idx, pair[i][0], site.real(pair[i][1]))
                serial[order] = kit.model_of(site.copy)
            return serial[order]

        with web.application(site.server) as ask:

            def run(ch):
                site.reset()
                sched = Scheduler(ch)
                hook = SchedSqlHook(sched, ch, filter=lambda conn, sql: getattr(conn, "mc_role", "") != "worker")
                answers = [None, None]

                def body(i):
                    answers[i] = ask("POST", f"/index/0/{pair[i][0]}", site.real(pair[i][1]))

                for i in (0, 1):
                    sched.spawn(lambda i=i: body(i), f"request {i}")
                CTL.sql_hook = hook
                try:
                    sched.run()
                finally:
                    CTL.sql_hook = None
                R.run()
                R.step(sched.points)
                R.context = {"requests": pair, "schedule": ch.choices, "status": [a.status for a in answers]}
                good = tuple(i for i in (0, 1) if answers[i].status < 400)
                got = kit.model_of(site.path)
                R.state((got, good))
                malformed = [i for i in (0, 1) if pair[i][1] == [("cluster_id", "x")]]
                R.check(not set(good) & set(malformed), "a request that cannot be served looks like a success")
                if len(good) < 2 - len(malformed) and not hook.conflicts:
                    R.violation("a request fails without a conflict", [a.status for a in answers])
                    return
                if not any(got == alone(order) for order in itertools.permutations(good)):
                    R.violation("the outcome is not that of the successful requests one after the other", got)
                    return
                for error in kit.summary_errors(site.path):
                    R.violation("the summaries of clusters are wrong", error)
                R.check(writable(site.path), "a request leaves the index locked")

            n, capped = explore(run, bound=bound)
            R.note("schedules", n)
            R.sample({"requests": pair, "schedules": n, "bound": bound})
