"""
C30 Web pages show what the library returns and lead through the whole model.
"""

import itertools
import os
import queue
import re
import threading
from urllib.parse import parse_qsl, urlsplit

import lxml.html

from checks.c23 import Forms, submissions
from checks.c24 import Numbers, get
from checks.c31 import KINDS
from mc import kit, web, wide
from mc.env import CTL, MCPool, workdir

from hyperreal import server

TECHNIQUE = (
    "exhaustive exploration of the real web application: from each state of the model every link is followed and every form submitted, the states reached "
    "are explored again, and every page is compared with the library"
)
NOTE = "Pages are read as a browser does: links, forms, lists and tables of the parsed page, not its source."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "4 models of 6 documents x all views x 4 limits, and 36 clusters with up to 230 features over 900 documents, compared with the library; "
    "all pages, links and forms of 6 models, and of every model one submission away; all histories of 2 of 9 changes by requests, other programs and reindexing for "
    "3 kinds of corpora, with all pages looked at by changing threads in between; searches for 37 odd values in 9 odd fields",
    "thorough": "larger grids of views; all models two submissions away; histories of 3 changes",
}
ASSUMPTIONS = ["the random numbers of a request start from a fixed state, so that a page can be compared with the library"]


def jobs(tier, seed):
    deep = tier == "thorough"
    out = [("wide", i, 4) for i in range(4)]
    out += [("listing", model, i, 3, deep) for model in MODELS for i in range(3)]
    out += [("pages", model) for model in SITES]
    out += [("searches", i, 2) for i in range(2)]
    changes = ("remove", "create", "delete", "recreate", "refine", "outside", "reindex")
    out += [("sessions", k, op, 3 if deep else 2) for k, kind in KINDS.items() for op in (*changes, *list(kind.contents)[1:3])]
    parts = 4 if not deep else 8
    out += [("crawl", model, i, parts, 2 if deep else 1) for model in SITES for i in range(parts)]
    return out


# ---------------------------------------------------------------- listing ----
MODELS = ("pinned", "all", "single", "empty")

DOCS = {
    "d1": {"text": ["a", "b", "a", "c"], "tag": {"x"}},
    "d2": {"text": ["b", "c"], "tag": {"x", "y"}},
    "d3": {"text": ["c", "b"], "tag": {7}},
    "d4": {"text": ["b"], "tag": {"y", 7}},
    "d5": {"text": ["d", "a", "b"], "tag": {"z"}},
    "d6": {"text": ["a", "d"], "tag": {"x", "z", 7}},
}


def listing_base(model):
    def builder(path):
        kit.build(path, DOCS, batch=2)
        f = {v: k for k, v in kit.features_of(path).items()}
        with kit.raw(path) as c:
            if model == "pinned":
                kit.set_model(c, {f["text", "a"]: 2, f["tag", "x"]: 2, f["text", "b"]: 5, f["text", "c"]: 5, f["tag", "z"]: 9}, [f["text", "a"]], [9])
            elif model == "all":
                kit.set_model(c, {i: (2, 0, 9, 4)[n % 4] for n, i in enumerate(sorted(f.values()))})
            elif model == "single":
                kit.set_model(c, {i: 2 for i in sorted(f.values())})

    return kit.template("c30-" + model, builder)


def score(x):
    return f"{x:.2e}"


def listed_clusters(tree):
    """[(cluster, score, [(feature id, field, value, score)])] of a page"""
    out = []
    for box in tree.xpath("//div[@class='feature-cluster']"):
        header = " ".join(box.xpath(".//div[contains(@class, 'cluster-header')]")[0].text_content().split())
        m = re.fullmatch(r"Cluster (\d+)(?: - (\S+))?", header)
        features = []
        for link in box.xpath(".//a[.//div[@class='feature']]"):
            [i] = re.findall(r"feature_id=(\d+)", link.get("href"))
            field, value, s = (
                link.xpath(f".//*[contains(concat(' ', @class, ' '), ' {name} ')]")[0].text_content() for name in ("field", "value", "score")
            )
            features.append((int(i), field, value, s))
        out.append((m and int(m[1]), m and m[2], features))
    return out


def listed_results(tree, kind):
    if kind == "concordance":
        rows, out = [], []
        spans = {}
        for tr in tree.xpath("//table[@class='concordance-table']//tbody/tr"):
            cells, row = list(tr), []
            for column in range(4):
                if spans.get(column, (0, None))[0] > 0:
                    n, cell = spans[column]
                    spans[column] = (n - 1, cell)
                elif not cells:
                    return "a table with missing cells"
                else:
                    cell = cells.pop(0)
                    spans[column] = (int(cell.get("rowspan", "1")) - 1, cell)
                row.append(cell)
            if cells:
                return "a table with more cells than columns"
            rows.append(row)
        for key, field, value, lines in rows:
            out.append((key.text_content(), field.text_content(), value.text_content(), tuple(li.text_content() for li in lines.xpath(".//li"))))
        return out
    items = tree.xpath("//ul[@class='doc-list']/li")
    if kind == "passage":
        return [tuple((dt.text_content(), dd.text_content()) for dt, dd in zip(li.xpath(".//dt"), li.xpath(".//dd"))) for li in items]
    return [" ".join(li.text_content().split()) if len(li) else li.text_content() for li in items]


def results(idx, kind, query, features, dnf, n):
    """What the library returns for the same request."""
    if kind == "concordance":
        return [
            (str(key), field, str(value), tuple(lines))
            for key, _, matches in idx.concordances(query, features, 15, random_sample_size=n)
            for field, values in matches.items()
            for value, lines in values.items()
        ]
    if kind == "passage":
        passages = idx.score_passages_dnf(dnf, 25)
        return [
            tuple((field, str(v)) for field, values in row.items() for v in values)
            for _, _, row in idx.render_passages_table(passages, random_sample_size=n)
        ]
    return [shown_text(doc) for _, _, doc in idx.render_docs_html(query, random_sample_size=n)]


def shown_text(doc):
    """What a browser shows of a rendered document."""
    if not hasattr(doc, "__html__"):
        return str(doc)
    li = lxml.html.fromstring("<li>" + str(doc) + "</li>")
    return " ".join(li.text_content().split()) if len(li) else li.text_content()


def job_listing(R, model, part, parts, deep):
    """Pages list what the library returns for the same request."""
    with workdir() as d:
        path = kit.write_db(os.path.join(d, "i.db"), listing_base(model))
        corpus = kit.MemCorpus(DOCS)
        features = sorted(kit.features_of(path))
        clusters = [k for k, _ in kit.model_of(path)[0]]
        kinds = (None, "document", "passage", "concordance")
        targets = [("overview", {})]
        targets += [("overview", {"feature_id": f}) for f in features] + [("overview", {"cluster_id": k}) for k in clusters]
        for k in clusters:
            targets += [(k, {})] + [(k, {"feature_id": f}) for f in features] + [(k, {"filter_cluster_id": o}) for o in clusters]
            targets += [(k, {"feature_id": features[1], "filter_cluster_id": o}) for o in clusters]
        n = 0
        for with_corpus in (True, False):
            args = dict(corpus_class=kit.MemCorpus, corpus_args=[DOCS]) if with_corpus else {}
            with web.application(server.SingleIndexServer(path, pool=MCPool(2), **args)) as ask:
                if model == "empty":
                    # redirects to where a model can be made
                    response = get(ask, "/index/0/")
                    R.run()
                    R.step()
                    R.check(300 <= response.status < 400 and (response.location or "").startswith("/index/0/details"), "no model: another page", response.status)
                    R.state("empty")
                    page_of_details(R, get(ask, "/index/0/details"), path)
                    continue
                page_of_details(R, get(ask, "/index/0/details"), path)
                for (what, params), scoring, kind in itertools.product(targets, (None, "jaccard", "nope"), kinds):
                    n += 1
                    if n % parts != part or (not deep and n % 2 and kind and scoring):
                        continue
                    top = (None, "1", "2", "99")[n % 4] if what == "overview" else None
                    sample = (None, "2", "1", "99")[n // 4 % 4]
                    compare_page(R, ask, model, path, corpus if with_corpus else None, what, params, scoring, kind, top, sample)


def compare_page(R, ask, model, path, corpus, what, params, scoring, kind, top, sample):
    """One page and what the library returns for the same request."""
    form = [(k, v) for k, v in {**params, "scoring": scoring, "result_type": kind, "top_k_features": top, "exemplar_docs": sample}.items() if v is not None]
    url = ("/index/0/" if what == "overview" else f"/index/0/cluster/{what}/") + "?" + web.urlencode(form)
    R.context = {"model": model, "page": url, "corpus": corpus is not None}
    response = get(ask, url)
    R.run()
    R.step()
    with kit.opened(path, corpus) as idx:
        CTL.random = Numbers()
        try:
            wanted = expected(idx, what, params, scoring or "jaccard", kind or "document", int(top or 40), int(sample or (5 if what == "overview" else 30)))
        except Exception as e:
            R.check(response.status >= 400, "a page shows what the library refuses", repr(e))
            return
    R.equal(response.status, 200, "a page is missing")
    if response.status != 200:
        return
    tree = lxml.html.fromstring(response.text)
    boxes, total, shown_results = wanted
    R.equal(listed_clusters(tree), boxes, "a page lists other clusters or features than the library")
    R.equal(listed_results(tree, kind or "document"), shown_results, "a page shows other results than the library")
    if shown_results:
        header = " ".join(tree.xpath("//ul[@class='cluster-list']/li/div[@class='cluster-header']")[0].text_content().split())
        R.equal(re.findall(r"\d+", header), [str(total)], "a page counts other documents than the library", header)
    with kit.opened(path) as idx:
        (look_at_overview if what == "overview" else look_at_cluster)(R, idx, url, response.text)
    R.state((model, url, corpus is not None))
    R.outcome((boxes, total, shown_results))


MANY = {k: {f: v for f, v in x.items() if f != "own"} for k, x in wide.docs(n=900, words=300).items()}


def job_wide(R, part, parts):
    """Pages of a large model: more clusters, features and results than any default."""
    with workdir() as d:
        path = kit.write_db(os.path.join(d, "i.db"), kit.template("c30wide", lambda p: kit.build(p, MANY, batch=400)))
        known = kit.features_of(path)
        model = wide.model(known, [230, 45, 41, 40, 39, 12] + [1] * 30)
        with kit.raw(path) as c:
            kit.set_model(c, model)
        fs = sorted(known)
        corpus = kit.MemCorpus(MANY)
        targets = [("overview", {}, t, None) for t in (None, "1", "100", "5000")]
        targets += [("overview", {"feature_id": f}, t, s) for f in (fs[0], fs[200], max(fs)) for t, s in ((None, None), ("500", "500"), ("41", "31"))]
        targets += [("overview", {"cluster_id": k}, t, s) for k in (0, 3, 21) for t, s in ((None, None), ("100", "2000"))]
        targets += [(k, p, None, s) for k in (0, 6, 105) for p in ({}, {"feature_id": fs[3]}, {"filter_cluster_id": 9}) for s in (None, "300")]
        work = [(*t, k) for t in targets for k in ("document", "passage", "concordance")]
        with web.application(server.SingleIndexServer(path, pool=MCPool(2), corpus_class=kit.MemCorpus, corpus_args=[MANY])) as ask:
            page_of_details(R, get(ask, "/index/0/details"), path)
            for what, params, top, sample, kind in work[part::parts]:
                compare_page(R, ask, "wide", path, corpus, what, params, None, kind, top, sample)


def expected(idx, what, params, scoring, kind, top, sample):
    """(clusters listed, number of documents, results shown)"""
    text = lambda fs: [(f, field, str(value), score(s)) for f, field, value, s in fs]
    feature, cluster, other = (params.get(n) for n in ("feature_id", "cluster_id", "filter_cluster_id"))
    if what == "overview":
        if feature is None and cluster is None:
            return [(k, score(s), text(fs)) for k, s, fs in idx.top_cluster_features(top_k=top)], 0, []
        if feature is not None:
            query, features, dnf = idx[feature], [feature], [[feature]]
        else:
            members = idx.cluster_features(cluster)
            query, features, dnf = idx.cluster_docs(cluster), [f[1:3] for f in members], [[f[0] for f in members]]
        boxes = [(k, score(s), text(fs)) for k, s, fs in idx.pivot_clusters_by_query(query, scoring=scoring, top_k=top)]
    else:
        members = idx.cluster_features(what)
        query, features, dnf = idx.cluster_docs(what), [f[1:3] for f in members], [[f[0] for f in members]]
        if feature is not None:
            query &= idx[feature]
            features.append(feature)
            dnf.append([feature])
        if other is not None:
            query &= idx.cluster_docs(other)
            features += [f[1:3] for f in idx.cluster_features(other)]
            dnf.append([f[0] for f in idx.cluster_features(other)])
        found = list(idx.pivot_clusters_by_query(query, cluster_ids=[what], top_k=len(members), scoring=scoring))
        boxes = [(what, None, text(found[0][-1] if found else members))]
    shown_results = results(idx, kind, query, features, dnf, sample) if idx.corpus is not None else []
    return boxes, len(query), shown_results


def page_of_details(R, response, path):
    tree = lxml.html.fromstring(response.text)
    with kit.opened(path) as idx:
        rows = [tuple(str(v) for v in row) for row in idx.indexed_field_summary()]
    got = [tuple(td.text_content() for td in tr.xpath("./td")) for tr in tree.xpath("//tbody/tr")]
    R.step()
    R.equal(got, rows, "the summary of fields differs from the library")
    R.equal(
        [o.get("value") for o in tree.xpath("//select[@name='include_fields']/option")], [r[0] for r in rows], "other fields are offered for a model"
    )


# ------------------------------------------------------------- navigation ----
# {cluster: features by number}, pinned features, pinned clusters
SITES = {
    "three": ({2: (0, 5), 5: (1, 2), 9: (6,)}, (0,), (9,)),
    "all": ({0: (0, 4), 2: (1, 5), 4: (2, 6), 9: (3, 7)}, (), ()),
    "two": ({0: (0,), 3: (1, 2, 3)}, (1,), ()),
    "one": ({2: (0, 1, 4)}, (), ()),
    "zero": ({0: (3,)}, (), ()),
    "nothing": ({}, (), ()),
    "pins": ({1: (0, 1), 7: (2, 3)}, (0, 2), (1, 7)),
}


class Site:
    def __init__(self, d, model, corpus=True):
        self.path = os.path.join(d, "i.db")
        kit.write_db(self.path, kit.template("c30site", lambda p: kit.build(p, DOCS, batch=2)))
        self.features = sorted(kit.features_of(self.path))
        clusters, pins, fixed = SITES[model]
        with kit.raw(self.path) as c:
            kit.set_model(
                c, {self.features[n]: k for k, members in clusters.items() for n in members}, [self.features[n] for n in pins], list(fixed)
            )
        args = dict(corpus_class=kit.MemCorpus, corpus_args=[DOCS]) if corpus else {}
        self.server = server.SingleIndexServer(self.path, pool=MCPool(2), **args)


def address(url):
    """An address written in one way."""
    parts = urlsplit(url)
    return parts.path.rstrip("/") or "/", tuple(sorted(parse_qsl(parts.query, keep_blank_values=True)))


def at(path, **query):
    return f"/index/0{path}".rstrip("/"), tuple(sorted((k, str(v)) for k, v in query.items()))


def has_class(node, name):
    return name in (node.get("class") or "").split()


def by_text(nodes):
    out = {}
    for n in nodes:
        out.setdefault(" ".join(n.text_content().split()), []).append(n)
    return out


def follow(ask, url, most=6):
    """(status, address in the end, response)"""
    for _ in range(most):
        response = get(ask, url)
        if not 300 <= response.status < 400:
            return response.status, url, response
        url = response.location
    return 399, url, response


def job_pages(R, model):
    """What every page links to, offers and marks."""
    with workdir() as d:
        for corpus in (True, False):
            site = Site(d, model, corpus)
            with web.application(site.server) as ask, kit.opened(site.path) as idx:
                R.context = {"model": model, "page": "/"}
                status, where, response = follow(ask, "/")
                R.run()
                R.equal((status, address(where)), (200, ("/index", ())), "the first page leads somewhere else")
                tree = lxml.html.fromstring(response.text)
                links = [a for a in tree.xpath("//main//a")]
                R.equal([address(a.get("href")) for a in links], [at("")], "the list of indexes leads somewhere else")
                R.check(all(site.path in a.text_content() for a in links), "the list of indexes names another one")
                known = idx.cluster_ids
                if not known:
                    status, where, response = follow(ask, "/index/0")
                    R.equal((status, address(where)), (200, at("/details")), "no model: another page")
                look_at_details(R, ask, idx)
                for page in views(site.features, known):
                    R.context = {"model": model, "page": page, "corpus": corpus}
                    response = get(ask, page)
                    R.run()
                    R.step()
                    R.equal(response.status, 200, "a page is missing")
                    R.state((model, page, corpus))
                    if response.status == 200:
                        (look_at_cluster if page.startswith("/index/0/cluster/") else look_at_overview)(R, idx, page, response.text)


def views(features, clusters):
    """All pages about the model."""
    if clusters:
        yield "/index/0/"
        for f in features:
            yield f"/index/0/?feature_id={f}"
    for k in clusters:
        yield f"/index/0/?cluster_id={k}"
        yield f"/index/0/cluster/{k}/"
        for f in features:
            yield f"/index/0/cluster/{k}/?feature_id={f}"
        for o in clusters:
            yield f"/index/0/cluster/{k}/?filter_cluster_id={o}"


def look_at_details(R, ask, idx):
    text = get(ask, "/index/0/details").text
    R.context = {"page": "/index/0/details"}
    values = dict(v for f in Forms(text).forms if f["action"].endswith("refine_model") for v in f["fields"])
    R.step()
    R.equal(values.get("target_clusters"), str(len(idx.cluster_ids)), "the form offers another number of clusters than the model has")
    links = by_text(lxml.html.fromstring(text).xpath("//nav//a"))
    R.equal([address(a.get("href")) for a in links.get("Model Overview", [])], [at("")], "the page does not lead to the model")


def marked(tree):
    """(clusters, features) with a mark"""
    clusters, features = [], []
    for box in tree.xpath("//div[@class='feature-cluster']"):
        for header in box.xpath(".//div"):
            if has_class(header, "cluster-header") and has_class(header, "highlight"):
                clusters.append(int(re.findall(r"Cluster (\d+)", header.text_content())[0]))
        for link in box.xpath(".//a[.//div[@class='feature']]"):
            if any(has_class(v, "highlight") for v in link.xpath(".//div")):
                features.append(int(re.findall(r"feature_id=(\d+)", link.get("href"))[0]))
    return clusters, features


def search_targets(tree):
    return [{i.get("name"): i.get("value") for i in form.xpath(".//input[@type='hidden']")} for form in tree.xpath("//form[@method='get']")]


def look_at_overview(R, idx, page, text):
    tree = lxml.html.fromstring(text)
    query = dict(parse_qsl(urlsplit(page).query))
    feature, cluster = query.get("feature_id"), query.get("cluster_id")
    boxes = tree.xpath("//div[@class='feature-cluster']")
    contents = listed_clusters(tree)
    listed = [b[0] for b in contents]
    if feature is None and cluster is None:
        R.equal(sorted(listed), idx.cluster_ids, "the overview does not show every cluster")
    R.equal(
        marked(tree)[0], [int(cluster)] if cluster is not None and int(cluster) in listed else [], "another cluster is marked as the selected one"
    )
    shown = {f[0] for b in contents for f in b[2]}
    R.equal(marked(tree)[1], [int(feature)] if feature is not None and int(feature) in shown else [], "another feature is marked as the selected one")
    for (k, _, members), box in zip(contents, boxes):
        got = [address(a.get("href")) for a in box.xpath(".//a[.//div[@class='feature']]")]
        R.equal(got, [at("", feature_id=f[0]) for f in members], "a feature leads to another page", k)
        if feature is not None:
            further = at(f"/cluster/{k}", feature_id=feature)
        elif cluster is not None:
            further = at(f"/cluster/{k}", filter_cluster_id=cluster)
        else:
            further = at(f"/cluster/{k}")
        got = [address(a.get("href")) for a in box.xpath(".//a[not(.//div[@class='feature'])]")]
        R.equal(sorted(got), sorted([further, at("", cluster_id=k)]), "a cluster leads to other pages", k)
        ticks = [(b.get("name"), b.get("value")) for b in box.xpath(".//input[@type='checkbox']")]
        R.equal(ticks, [("cluster_id", str(k))], "a cluster cannot be selected, or as another one", k)
    nav = by_text(tree.xpath("//nav//a"))
    for name, where in (("Index Details", at("/details")), ("Model Overview", at("")), ("Export Clusters", at("/export_clusters"))):
        R.equal([address(a.get("href")) for a in nav.get(name, [])], [where], "the navigation leads to another page", name)
    R.equal(search_targets(tree), [{}], "the search of the overview returns to somewhere else")


def look_at_cluster(R, idx, page, text):
    tree = lxml.html.fromstring(text)
    k = int(re.findall(r"/cluster/(\d+)", page)[0])
    feature = dict(parse_qsl(urlsplit(page).query)).get("feature_id")
    known = idx.cluster_ids
    i = known.index(k)
    [(listed, _, features)] = listed_clusters(tree)
    R.equal(listed, k, "the page shows another cluster")
    R.equal(" ".join(tree.xpath("//title")[0].text_content().split()), f"Cluster {k}", "the page has the title of another cluster")
    main = by_text(tree.xpath("//main//ul[@class='nav-links']//a"))
    wanted = {"Cluster Overview": at(f"/cluster/{k}"), "Pivot By Cluster": at("", cluster_id=k)}
    if len(known) > 1:
        wanted["Previous Cluster"] = at(f"/cluster/{known[i - 1]}")
        wanted["Next Cluster"] = at(f"/cluster/{known[(i + 1) % len(known)]}")
    for name, where in wanted.items():
        R.equal([address(a.get("href")) for a in main.get(name, [])], [where], "the navigation leads to another page", name)
    ids = [f[0] for f in features]
    got = [address(a.get("href")) for a in tree.xpath("//a[.//div[@class='feature']]")]
    R.equal(got, [at(f"/cluster/{k}", feature_id=f) for f in ids], "a feature leads to another page")
    R.equal(marked(tree), ([], [int(feature)] if feature is not None and int(feature) in ids else []), "another feature is marked as the selected one")
    R.equal(search_targets(tree), [{"cluster_id": str(k)}], "the search of the page returns to somewhere else")

    # what can be done to the cluster
    forms = [f for f in Forms(text).forms if f["method"] == "POST"]
    buttons = {}
    for f in forms:
        for action, name in f["buttons"]:
            buttons[name] = (action or f["action"], f)
    if k in idx.pinned_cluster_ids:
        R.equal(sorted(buttons), ["Unpin Cluster"], "a pinned cluster can be changed")
        return
    wanted = {
        "Delete Selected Features", "Create From Selected Features", "Delete and go to next cluster", "Create New Cluster From All Visible Features",
        "Pin Cluster", "Split Cluster",
    }
    R.equal(set(buttons), wanted, "other changes are offered")
    if set(buttons) != wanted:
        return
    options = [int(v) for v in buttons["Delete Selected Features"][1]["choices"].get("feature_id", [])]
    R.equal(options, ids, "other features can be selected than are shown")
    texts = [" ".join(o.text_content().split()) for o in tree.xpath("//select[@name='feature_id']/option")]
    R.equal(texts, [f"{f[1]}: {f[2]}" for f in features], "features are offered under other names")
    visible = [int(v) for n, v in buttons["Create New Cluster From All Visible Features"][1]["fields"] if n == "feature_id"]
    R.equal(visible, ids, "other features than the visible ones would be taken")
    back = dict(buttons["Delete and go to next cluster"][1]["fields"]).get("return_cluster_id")
    R.equal(back, str(known[(i + 1) % len(known)]), "the next cluster is another one")


# ------------------------------------------------------------------ crawl ----
def addresses(url, text):
    """Every address a page links to."""
    out = []
    for a in lxml.html.fromstring(text).xpath("//a[@href]"):
        href = a.get("href")
        out.append(href if href.startswith("/") else None)
    return out


def crawl(R, ask):
    """All pages reachable by links; what can be submitted on them."""
    todo, seen, forms = ["/"], {address("/")}, {}
    searches = {}
    while todo:
        url = todo.pop()
        status, where, response = follow(ask, url)
        R.step()
        R.equal(status, 200, "a link leads to a missing page", url)
        seen.add(address(where))
        if status != 200 or not response.headers.get("content-type", "").startswith("text/html"):
            continue
        for link in addresses(url, response.text):
            if not R.check(link is not None, "a link leads out of the site", url):
                continue
            if address(link) not in seen:
                seen.add(address(link))
                todo.append(link)
        page = Forms(response.text)
        for to, fields, button in submissions(page):
            forms.setdefault((to, tuple(fields)), (url, button))
        for form in page.forms:
            # other numbers than the ones filled in
            for typed in (("1", "2", "5") if form["method"] == "POST" and not form["id"] and form["numbers"] else ()):
                fields = tuple((n, typed if n in form["numbers"] else v) for n, v in form["fields"])
                for action, button in form["buttons"]:
                    forms.setdefault((action or form["action"], fields), (url, button))
        for form in page.forms:
            if form["method"] == "GET":
                hidden = tuple((n, v) for n, v in form["fields"] if n != "value")
                searches.setdefault((form["action"], hidden, tuple(form["choices"].get("field", ()))), url)
    return seen, forms, searches


def job_crawl(R, model, part, parts, depth):
    """Every link and every form leads to a page."""
    with workdir() as d:
        site = Site(d, model, corpus=True)
        start = kit.read_db(site.path)
        level, known = [(start, ())], {repr(kit.model_of(site.path))}
        with web.application(site.server) as ask:
            for distance in range(depth + 1):
                following = []
                for n, (db, history) in enumerate(level):
                    if distance == 1 and n % parts != part:
                        continue
                    kit.write_db(site.path, db)
                    clusters = kit.model_of(site.path)[0]
                    R.context = {"model": model, "history": history}
                    seen, forms, searches = crawl(R, ask)
                    R.run()
                    R.state(repr(kit.model_of(site.path)))
                    R.outcome(len(seen))
                    wanted = {at(f"/cluster/{k}") for k, _ in clusters} | {at("/details")}
                    wanted |= {at("", cluster_id=k) for k, _ in clusters} | {at("/export_clusters") for _ in clusters[:1]}
                    wanted |= {at("", feature_id=f) for _, members in clusters for f in members}
                    R.check(wanted <= seen, "parts of the model cannot be reached by links", lambda: sorted(wanted - seen))
                    for (to, hidden, offered), page in searches.items():
                        for (field, value) in list(kit.features_of(site.path).values()) + [("text", "nope"), ("text", ""), ("tag", "a")]:
                            if field not in offered:
                                R.violation("a search form does not offer a field", field)
                                continue
                            url = to + "?" + web.urlencode([*hidden, ("field", field), ("value", value)])
                            R.context = {"model": model, "history": history, "page": page, "search": (field, value)}
                            status, where, response = follow(ask, url)
                            R.step()
                            if isinstance(value, str) and (field, value) in kit.features_of(site.path).values():
                                R.equal(status, 200, "a search leads to a missing page", where)
                                [feature] = [i for i, f in kit.features_of(site.path).items() if f == (field, value)]
                                back = dict(hidden).get("cluster_id")
                                aim = at("" if back is None else f"/cluster/{back}", feature_id=feature)
                                R.equal(address(where), aim, "a search leads to another page")
                            else:
                                R.check(status == 200 or 400 <= status < 500, "a search for what is not there fails", status)
                    for (to, fields), (page, button) in forms.items():
                        kit.write_db(site.path, db)
                        R.context = {"model": model, "history": history, "page": page, "button": button, "form": fields}
                        CTL.random = Numbers()
                        response = ask("POST", to, list(fields))
                        R.step()
                        if 400 <= response.status < 500:
                            R.equal(kit.read_db(site.path) == db, True, "a refused form changes the index")
                            continue
                        R.check(300 <= response.status < 400, "a form fails", response.status)
                        if not 300 <= response.status < 400:
                            continue
                        status, where, _ = follow(ask, response.location)
                        R.equal(status, 200, "a form leads to a missing page", where)
                        now = repr(kit.model_of(site.path))
                        if now not in known:
                            known.add(now)
                            following.append((kit.read_db(site.path), (*history, (button, fields))))
                level = following
                R.note(f"models at distance {distance + 1}", len(level))


# --------------------------------------------------------------- sessions ----
class Workers:
    """Threads of a web server, each of which handles the requests it is given."""

    def __init__(self, ask, n=3):
        self.ask, self.queues, self.turn, self.threads = ask, [], 0, []
        for _ in range(n):
            todo, done = queue.Queue(), queue.Queue()
            thread = threading.Thread(target=self.work, args=(todo, done), daemon=True)
            thread.start()
            self.queues.append((todo, done))
            self.threads.append(thread)

    def work(self, todo, done):
        for args in iter(todo.get, None):
            try:
                done.put((self.ask(*args), None))
            except BaseException as e:  # passed on to the one who asks
                done.put((None, e))

    def __call__(self, *args):
        self.turn += 1
        todo, done = self.queues[self.turn % len(self.queues)]
        todo.put(args)
        result, error = done.get()
        if error is not None:
            raise error
        return result

    def close(self):
        for (todo, _), thread in zip(self.queues, self.threads):
            todo.put(None)
            thread.join()


def outside_edits(path):
    """Changes of the model by someone else than the web application."""
    with kit.opened(path) as idx:
        known = idx.cluster_ids
        if len(known) > 1:
            idx.merge_clusters(known[:2])
        features = sorted(kit.features_of(path))
        idx.create_cluster_from_features(features[::3])
        idx.pin_features(features[:1], pinned=features[0] not in kit.model_of(path)[1])


def job_sessions(R, name, first, depth):
    """
    Pages show the present index and corpus: whoever changed them, and
    whichever thread of the server handled what before.
    """
    kind = KINDS[name]
    other, last = list(kind.contents)[1:3]
    ops = ("remove", "create", "delete", "recreate", "refine", "outside", other, last, "reindex")
    with workdir() as d:
        corpus_db, path = os.path.join(d, "c.db"), os.path.join(d, "i.db")
        state = ()
        _, state = kind.change(d, corpus_db, state, "A")
        corpus = kind.open(corpus_db)
        with kit.opened(path, corpus) as idx:
            idx.index()
        corpus.close()
        kit.checkpoint(corpus_db)
        with kit.raw(path) as c:
            fs = sorted(kit.features_of(path))
            kit.set_model(c, {f: (0, 3, 7)[n % 3] for n, f in enumerate(fs)}, fs[4:5], [])
        kit.checkpoint(path)
        start = kit.read_db(corpus_db), kit.read_db(path), state
        histories = [(first, *rest) for n in range(depth) for rest in itertools.product(ops, repeat=n)]
        histories = [h for h in histories if len(h) == depth]
        for history in histories:
            kit.write_db(corpus_db, start[0])
            kit.write_db(path, start[1])
            state = start[2]
            R.run()
            CTL.same_thread = True
            index_server = server.SingleIndexServer(path, corpus_class=kind.corpus, corpus_args=[corpus_db], pool=MCPool(2))
            with web.application(index_server) as plain:
                ask = Workers(plain)
                try:
                    look_around(R, ask, kind, corpus_db, path, (name,))
                    for n, op in enumerate(history, 1):
                        clusters = kit.model_of(path)[0]
                        CTL.random = Numbers()
                        if op == "remove":
                            members = [f for _, fs in clusters[:1] for f in fs[:2]]
                            ask("POST", "/index/0/feature/remove_from_model", [("feature_id", str(f)) for f in members])
                        elif op == "create":
                            members = [f for _, fs in clusters for f in fs[1:2]]
                            ask("POST", "/index/0/cluster/create", [("feature_id", str(f)) for f in members])
                        elif op == "delete":
                            ask("POST", "/index/0/cluster/delete", [("cluster_id", str(k)) for k, _ in clusters[-1:]])
                        elif op == "recreate":
                            ask("POST", "/index/0/recreate_model", [("min_docs", "1"), ("clusters", "3"), ("iterations", "1")])
                        elif op == "refine":
                            ask("POST", "/index/0/refine_model", [("iterations", "1"), ("target_clusters", "2")])
                        elif op == "outside":
                            outside_edits(path)
                        elif op == "reindex":
                            corpus = kind.open(corpus_db)
                            with kit.opened(path, corpus) as idx:
                                idx.index(index_positions=True)
                            corpus.close()
                        else:
                            _, state = kind.change(d, corpus_db, state, op)
                            # documents and index belong together
                            corpus = kind.open(corpus_db)
                            with kit.opened(path, corpus) as idx:
                                idx.index(doc_batch_size=n)
                            corpus.close()
                        R.step()
                        look_around(R, ask, kind, corpus_db, path, (name, *history[:n]))
                finally:
                    ask.close()


def look_around(R, ask, kind, corpus_db, path, history):
    """All pages that anybody would look at, compared with the library."""
    clusters = kit.model_of(path)[0]
    page_of_details(R, get(ask, "/index/0/details"), path)
    if not clusters:
        return
    R.state((history, clusters))
    k, members = clusters[-1]
    pages = [("overview", {}), ("overview", {"feature_id": members[0]}), ("overview", {"cluster_id": clusters[0][0]}), (k, {"feature_id": members[-1]})]
    with kit.opened(path) as idx:
        # Without any matching document the overview shows the model.
        pages = [p for p in pages if p[0] != "overview" or not p[1] or (idx[members[0]] if "feature_id" in p[1] else idx.cluster_docs(clusters[0][0]))]
    for n, (what, params) in enumerate(pages):
        corpus = kind.open(corpus_db)
        try:
            compare_page(R, ask, history, path, corpus, what, params, None, ("document", "passage", "concordance", None)[n], None, "99")
        finally:
            corpus.close()


# --------------------------------------------------------------- searches ----
ODD = (
    "a", "A", " a", "a ", "a b", "a  b", "", " ", "a+b", "a%20b", "%41", "a&b=c", "a#b", "a?b", "a/b", "ß", "SS", "é", "e\u0301", "\xa0", "7", "07", "7.0",
    "None", "null", "'", '"', "a\nb", "a\r\nb", "\t", "\\", "*", "😀", "a;b", "x" * 5000,
)
ODD_FIELDS = ("text", "Text", "", " ", "ü&=?", "text ", "field", "value", "cluster_id")


def job_searches(R, part, parts):
    """Searching leads to exactly the feature with this field and value."""
    values = [ODD, ODD[::2], ODD[1::2], ODD[::3], ODD[1::3], ODD[2::3], ODD[:9], ODD[5:], ODD[3:17]]
    docs = {n: {f: set(v for k, v in enumerate(vs) if k % 5 == n) for f, vs in zip(ODD_FIELDS, values)} for n in range(5)}
    with workdir() as d:
        path = kit.write_db(os.path.join(d, "i.db"), kit.template("c30odd", lambda p: kit.build(p, docs, batch=2)))
        known = {v: k for k, v in kit.features_of(path).items()}
        with kit.raw(path) as c:
            kit.set_model(c, {f: n % 2 * 4 for n, f in enumerate(sorted(known.values()))})
        with web.application(server.SingleIndexServer(path, pool=MCPool(2))) as ask:
            for page in ("/index/0/", "/index/0/cluster/0/", "/index/0/cluster/4/"):
                [form] = [f for f in Forms(get(ask, page).text).forms if f["method"] == "GET"]
                R.equal(sorted(form["choices"].get("field", ())), sorted(ODD_FIELDS), "a search form offers other fields")
                hidden = [(n, v) for n, v in form["fields"] if n not in ("value", "field")]
                cluster = dict(hidden).get("cluster_id")
                for n, (field, value, own) in enumerate(itertools.product(ODD_FIELDS, ODD, (False, True))):
                    if n // 2 % parts != part or own and cluster is None:
                        continue
                    R.context = {"page": page, "search": (field, value[:20]), "own": own}
                    to = page + "search" if own else form["action"]
                    response = get(ask, to + "?" + web.urlencode([*(() if own else hidden), ("field", field), ("value", value)]))
                    R.run()
                    R.step()
                    R.state((page, field, value, own))
                    if (field, value) not in known:
                        R.check(400 <= response.status < 500, "a search finds what is not there", (response.status, response.location))
                        continue
                    aim = at("" if cluster is None else f"/cluster/{cluster}", feature_id=known[field, value])
                    R.check(
                        300 <= response.status < 400 and address(response.location) == aim,
                        "a search leads to another page", lambda: (response.status, response.location, aim),
                    )
