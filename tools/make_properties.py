"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                "observe_at": list(observe),
                "hook_needed": hook,
            },
        }
    )


IDX = "hyperreal/index.py"
SCH = "hyperreal/_index_schema.py"
COR = "hyperreal/corpus.py"
SRV = "hyperreal/server.py"
UTL = "hyperreal/utilities.py"
DBU = "hyperreal/db_utilities.py"
CLI = "hyperreal/cli.py"

prop(
    "C01",
    "An index answers every feature lookup exactly as its corpus does",
    "After indexing any corpus, looking up a (field, value) pair or its feature id returns exactly the documents "
    "whose indexed features contain that value in that field, and document ids map one-to-one onto the corpus's "
    "document keys so that retrieving a result returns exactly those documents. "
    "The result does not depend on the batch size, the number of workers, whether positions are recorded, or the "
    "order and interleaving in which background batches finish. "
    "An empty corpus and documents without features are indexed like any other.",
    ["inputs", "configurations", "schedules"],
    "every small corpus (documents x fields x value sets/sequences, including empty ones), every batch size, worker "
    "count, position setting, and every completion order / bounded interleaving of the background batches",
    "The tests index one fixed text corpus with three batch sizes under whatever order the process pool happens to "
    "produce, and compare only totals.",
    [IDX, DBU, COR],
    [
        ("batch dispatch, temp index and merge with roaring_union", f"{IDX}: Index.index, _index_docs"),
        ("aggregate union of bitmaps", f"{DBU}: RoaringUnion"),
        ("lookup by key or id", f"{IDX}: Index.__getitem__, lookup_feature, lookup_feature_id"),
        ("doc id to key mapping", f"{IDX}: Index.convert_query_to_keys, Index.docs"),
    ],
    [("inverted_index", "feature -> bitmap of documents", SCH), ("doc_key", "document id -> corpus key", SCH)],
    ["Index[...]", "Index.lookup_feature", "Index.docs", "Index.convert_query_to_keys"],
)
prop(
    "C02",
    "Reindexing equals a fresh index and keeps feature ids, clusters and pins",
    "After any history of corpus changes, model edits and reindexing runs, every query, position result and field "
    "summary equals that of a brand new index over the current corpus, with vanished values matching no documents. "
    "Every feature seen before keeps its feature id, its cluster and its pin, and cluster pins are kept, while "
    "document counts and cluster document sets reflect the new documents.",
    ["histories"],
    "every sequence (to a depth) of corpus replacements from a small set, reindexing runs with different settings, "
    "and model edits",
    "test_indexing reindexes an unchanged corpus and compares feature ids; no test changes the corpus or has a model "
    "in place while reindexing.",
    [IDX, SCH],
    [
        ("features zeroed then replaced under their old id", f"{IDX}: Index.index"),
        ("feature_cluster counts and cluster refresh after reindex", f"{IDX}: Index.index, _update_changed_clusters"),
    ],
    [("inverted_index.feature_id", "stable feature identity", SCH), ("feature_cluster", "model membership and pins", SCH)],
    ["Index[...]", "Index.indexed_field_summary", "Index.cluster_features", "Index.cluster_docs"],
)
prop(
    "C03",
    "A failed or interrupted indexing run leaves the previous index untouched",
    "If indexing fails or is interrupted at any point - the corpus raises, a background batch fails, a database "
    "statement fails, the user interrupts - the call raises and the index, its documents, positions, clusters and "
    "pins are exactly as before. The same index object stays usable: later edits are committed and a later indexing "
    "run succeeds. Temporary files are removed, and a caller-provided working directory is kept and left empty.",
    ["fault_sequences"],
    "every single failure point (each database statement of the run, each batch, each document) times the failure "
    "kind (error, interruption)",
    "No test makes indexing fail.",
    [IDX],
    [("single transaction with rollback on failure", f"{IDX}: Index.index"), ("temporary directory cleanup", f"{IDX}: Index.index")],
    [("database transaction", "uncommitted new index content", f"{IDX}: Index.index")],
    ["a fresh connection to the index", "the working directory", "subsequent calls on the same object"],
)
prop(
    "C04",
    "Indexing is all-or-nothing for crashes and for concurrent readers",
    "Whatever moment the indexing process is killed at, reopening the index shows either the complete previous index "
    "or the complete new one, and while indexing runs every other connection sees the previous index until it sees the "
    "complete new one. Complete includes queries, document keys, positions, field summaries, document counts and the "
    "document sets of clusters.",
    ["crash_points", "schedules"],
    "every database-statement boundary and every write-ahead-log prefix of an indexing run as crash point, and every "
    "such boundary as the moment a concurrent reader looks",
    "No test kills an indexing run or reads during one.",
    [IDX, SCH],
    [("one write transaction per indexing run", f"{IDX}: Index.index"), ("WAL journal", f"{IDX}: Index.__init__")],
    [("index database and WAL", "durable state", SCH)],
    ["a fresh Index on a copy of the files", "a second Index on the same files"],
)
prop(
    "C05",
    "Cluster summaries always match the features in the clusters",
    "After any history of model operations every feature is in at most one cluster, no listed cluster is empty, and "
    "each cluster's document set is exactly the union of its features' documents. The stored counts agree: feature "
    "count, document count, total weight, and each member's own document count.",
    ["histories"],
    "every state reachable by initialise, create, merge, delete, pin, refine, split, dissolve and reindex operations "
    "up to a depth, including no-ops, unknown ids, duplicates and emptied or recreated clusters",
    "test_model_editing walks one path and compares lengths; document sets of clusters are never compared with the "
    "union of their features after an edit.",
    [IDX, SCH],
    [
        ("changed-cluster triggers", f"{SCH}: insert/update/delete_feature_checks"),
        ("housekeeping when the outermost transaction ends", f"{IDX}: atomic, Index._update_changed_clusters"),
    ],
    [("cluster", "summary of each cluster", SCH), ("changed_cluster", "clusters needing refresh", SCH)],
    ["Index.cluster_ids", "Index.cluster_docs", "Index.cluster_features", "Index.top_cluster_features", "Index.cluster_query"],
)
prop(
    "C06",
    "Model edits do exactly what they say and nothing else",
    "Initialising puts every eligible feature (enough documents, selected fields) in exactly one of the requested "
    "clusters, as evenly as possible and independent of chance; deleting removes exactly the named features or "
    "clusters; merging moves all features of the named clusters to the first; creating moves or adds the named features "
    "to one new cluster whose id is higher than all existing ones; pinning sets exactly the named pins. Features, "
    "clusters and pins not named by an edit are unchanged, and the result survives closing and reopening the index.",
    ["histories", "inputs"],
    "every operation sequence up to a depth over a small model, with every argument combination of the alphabet "
    "(multiple, duplicate, unknown and empty arguments) and every outcome of the random initial assignment",
    "test_model_editing checks one sequence on one model, mostly by counting clusters.",
    [IDX, SCH],
    [
        ("edit statements", f"{IDX}: initialise_clusters, delete_*, merge_clusters, create_cluster_from_features, pin_*"),
        ("next id", f"{IDX}: next_cluster_id"),
    ],
    [("feature_cluster", "model membership and pins", SCH), ("cluster", "cluster ids and pins", SCH)],
    ["Index.cluster_ids", "Index.cluster_features", "Index.pinned_cluster_ids"],
)
prop(
    "C07",
    "A failed or interrupted model operation has no effect and leaves no residue",
    "If any model operation (edit, initialisation, refinement) fails or is interrupted at any point, including during "
    "the refresh of cluster summaries in background workers, it raises and the stored model is exactly as before. "
    "Afterwards the same index object holds no open transaction, and the next successful operation on it takes full "
    "effect and is durable.",
    ["fault_sequences"],
    "each operation of the edit alphabet x every database statement and every background task of it x failure kind "
    "(database error, interruption, worker failure), followed by a further operation on the same object",
    "No test injects a failure into an operation.",
    [IDX],
    [("savepoint wrapper with rollback", f"{IDX}: atomic"), ("summary refresh", f"{IDX}: Index._update_changed_clusters")],
    [("transaction nesting level / changed flag", "whether housekeeping runs", f"{IDX}: atomic")],
    ["a fresh connection", "the same Index object after the failure"],
)
prop(
    "C08",
    "Model operations are atomic and durable across process crashes",
    "A process killed at any moment of a model operation leaves, on reopening, either the model before the operation "
    "or the complete model after it, with matching cluster summaries. Once an operation has returned, its effect "
    "is there after a crash of the process.",
    ["crash_points"],
    "each operation of the edit alphabet x every database-statement boundary and every prefix of the write-ahead log",
    "No test reopens an index after an interrupted operation.",
    [IDX, SCH],
    [("one outermost savepoint per operation, released last", f"{IDX}: atomic"), ("WAL journal", f"{IDX}: Index.__init__")],
    [("index database and WAL", "durable state", SCH)],
    ["a fresh Index on a copy of the files taken at the crash point"],
)
prop(
    "C09",
    "Concurrent edits of one index never lose or mix updates",
    "When two users edit the same index at once, each edit either takes complete effect or fails without effect, and "
    "the final model equals running the successful edits one after the other in some order, with matching cluster "
    "summaries. Listings and structured samples taken alongside see one consistent model.",
    ["schedules"],
    "every pair of operations from the alphabet (and three-way combinations in the thorough tier) on separate "
    "connections, under every interleaving of their database statements up to a preemption bound, with every lock "
    "conflict resolved both by waiting and by failing",
    "All tests use one connection at a time.",
    [IDX, SRV],
    [("savepoint wrapper (snapshot isolation of SQLite WAL)", f"{IDX}: atomic"), ("connection per index object", f"{IDX}: Index.__init__, {SRV}: SingleIndexServer.index")],
    [("feature_cluster, cluster, changed_cluster", "shared model", SCH)],
    ["model read through a fresh connection after both finished", "results and errors of each operation"],
)
prop(
    "C10",
    "Refinement conserves features and respects pins and selection",
    "For every random outcome, refining a model - also while splitting or dissolving clusters - keeps exactly the same "
    "features in the model, never moves a pinned feature, never changes a pinned cluster, and changes no cluster "
    "outside the selected ones. New clusters get ids not used by any existing cluster, all pins survive, and the "
    "call completes for every legal combination of pins, selection, target, minimum size, group testing and probe "
    "query.",
    ["inputs", "histories", "configurations"],
    "every small model x pin pattern x cluster selection x option combination x every outcome of the random choices "
    "(shuffles, acceptance, splits, reassignment) up to a deviation bound",
    "The tests run a handful of random refinements on one data set; test_pinning pins two features and checks only them.",
    [IDX],
    [
        ("movable/pinned features, dissolve exclusions, new ids", f"{IDX}: Index._refine_feature_groups"),
        ("pinned clusters removed, ids remapped, partial update", f"{IDX}: Index.refine_clusters, _update_cluster_feature"),
    ],
    [("feature_cluster", "model membership and pins", SCH)],
    ["Index.cluster_features before and after Index.refine_clusters"],
)
prop(
    "C11",
    "Refinement reaches the requested number of clusters",
    "Refining without a target keeps exactly the same cluster ids: no cluster is emptied, none appears, and no cluster "
    "shrinks below the minimum size unless it started there. With a lower target the model ends with exactly that many "
    "clusters when enough of them have no pins, and with a higher target it gets as many additional non-empty clusters "
    "as the random splits produced, each new one stored under its own id.",
    ["inputs", "configurations"],
    "every small model x selection x target (smaller, equal, larger) x iterations x minimum size x every random "
    "outcome up to a deviation bound",
    "test_dissolving, test_splitting and test_filling_empty_clusters each try one target on one model with a lucky seed.",
    [IDX],
    [("split, dissolve schedule, minimum size guard", f"{IDX}: Index._refine_feature_groups"), ("new cluster id mapping", f"{IDX}: Index.refine_clusters")],
    [("cluster", "cluster ids", SCH)],
    ["Index.cluster_ids before and after Index.refine_clusters"],
)
prop(
    "C12",
    "Refinement moves features only to their best scoring cluster",
    "In one pass of dense refinement a feature that changes cluster goes to a cluster where adding it improves the "
    "documented objective the most (its present cluster competing with the loss of removing it), judged on the "
    "clustering at the start of the pass, and a feature whose best cluster is its present one stays. When every move is "
    "accepted, every feature with a better cluster moves unless its cluster would fall below the minimum size. With group "
    "testing the destination is best among the clusters of the best scoring groups, and a probe query restricts all "
    "counts to its documents.",
    ["inputs", "configurations"],
    "every small set of feature document sets x every clustering of them x probe query x group batches x every "
    "random outcome up to a deviation bound, against a brute-force evaluation of the objective",
    "The tests never compare a move with the objective.",
    [IDX],
    [
        ("incremental objective deltas", f"{IDX}: measure_feature_contribution_to_cluster"),
        ("best-of heap over clusters and groups", f"{IDX}: Index._score_proposed_moves, _find_best_moves"),
    ],
    [("cluster_feature", "clustering under refinement", IDX)],
    ["Index.cluster_features before and after a one-iteration Index.refine_clusters"],
)
prop(
    "C13",
    "A fixed random seed gives the same model whatever the schedule",
    "Two runs of the same operations from the same stored index with the same random seed produce identical models and "
    "identical samples, whatever the order in which background tasks complete, however many workers there are, and "
    "whatever Python's string hash seed. Different outcomes are only possible through the seed.",
    ["schedules", "configurations"],
    "every completion order (up to a deviation bound) of the background tasks of a seeded run, over several seeds, "
    "worker counts and hash seeds",
    "test_fixed_seed runs twice under whatever schedule happens, on one machine in one process.",
    [IDX],
    [("results consumed in dispatch order, ordered SQL before shuffles", f"{IDX}: _score_proposed_moves, initialise_clusters")],
    [("Index.random", "seeded generator", f"{IDX}: Index.__init__")],
    ["Index.top_cluster_features, Index.structured_doc_sample after seeded runs"],
)
prop(
    "C14",
    "Pivoting returns the exact ranking, never an approximation",
    "Pivoting the model by a query returns exactly the clusters sharing documents with the query, in descending order of "
    "Jaccard similarity, each with its exact similarity, and within each cluster exactly the top-k features by Jaccard "
    "similarity with the query, in descending order with exact scores. Restricting to chosen clusters gives the same "
    "answer for those clusters, and the answer does not depend on the scheduling of background work.",
    ["inputs", "schedules"],
    "every small set of feature document sets x clustering x query x top-k x cluster selection, under every completion "
    "order of the background tasks",
    "test_pivoting checks that one query feature comes first in its cluster, for two queries.",
    [IDX],
    [
        ("early termination bound and heap", f"{IDX}: _pivot_cluster_features_by_query_jaccard"),
        ("cluster ordering", f"{IDX}: Index.pivot_clusters_by_query, _calculate_query_cluster_cooccurrence"),
    ],
    [("feature_cluster.docs_count", "bound used to stop early", SCH)],
    ["Index.pivot_clusters_by_query"],
)
prop(
    "C15",
    "Passage search finds exactly the passages in each document",
    "Searching passages for one or two clauses of features within a window returns, for every document and field, exactly "
    "the maximal runs of matching positions - positions of a clause that have a position of the other clause within the "
    "window - with exact start, end and number of matching positions, including single-position passages. Matches never "
    "cross document or field boundaries; with more clauses every passage reported starts and ends at matches that have a match "
    "of every clause within the window in that field of the document, and matches of all clauses that are all within the window of each other "
    "lie in a passage. The results do not depend on batch size or scheduling. Rendered passages contain exactly the passage's "
    "text with the requested number of tokens on each side.",
    ["inputs", "configurations"],
    "every small corpus of token sequences (with a second positional field), every one- and two-clause query over the "
    "alphabet, window size, batch size, completion order and overhang",
    "test_indexing checks one query with one line per document, where passages and documents coincide.",
    [IDX, UTL],
    [
        ("window expansion within document boundaries", f"{UTL}: expand_positions_window"),
        ("position matching and run splitting", f"{IDX}: _score_passages_dnf"),
        ("passage text", f"{IDX}: _construct_passages, Index.render_passages_table"),
    ],
    [("position_index, position_doc_map", "per batch positions and boundaries", SCH)],
    ["Index.score_passages_dnf", "Index.render_passages_table"],
)
prop(
    "C16",
    "Collocation counts are exact and stay within documents and fields",
    "Counting collocations reports, for every other feature of the field, exactly how many of its positions lie within "
    "the window around any position of the given features in the same document, next to the feature's total number of "
    "positions, plus the exact number of query positions and of positions covered by the windows. Features of other fields never "
    "appear and the counts do not depend on batch size or scheduling.",
    ["inputs", "configurations"],
    "every small corpus of token sequences in two positional fields, every feature set, window size, batch size and "
    "completion order, against direct counting in the documents",
    "No test calls the collocation counter.",
    [IDX, UTL],
    [("windows per batch", f"{IDX}: _count_collocations"), ("window expansion", f"{UTL}: expand_positions_window")],
    [("position_index, position_doc_map", "per batch positions and boundaries", SCH)],
    ["Index.count_collocations"],
)
prop(
    "C17",
    "Concordances show every match with its exact context",
    "For every document of the query, the extracted windows contain, for each requested feature of a sequence field, one "
    "window per occurrence in document order, holding exactly the tokens up to the window size on each side, and for "
    "set-valued fields the matching values; concordances are the same windows joined as text. Features are accepted by id "
    "or by (field, value) alike, and sampling returns exactly the requested number of the query's documents.",
    ["inputs"],
    "every small corpus (sequence and set fields), every subset of features by id or key, window size, query and "
    "sample outcome",
    "test_indexing checks window lengths and membership for five sampled documents of one query.",
    [IDX],
    [("window slicing", f"{IDX}: Index.extract_matching_feature_windows, Index.concordances")],
    [],
    ["Index.extract_matching_feature_windows", "Index.concordances"],
)
prop(
    "C18",
    "Weighted matching and top-k ranking of documents are exact",
    "Combining any collection of features yields exactly the union of their documents and, for every document, the exact "
    "number of those features it matches, and reading this never changes the features themselves. Asking for the top k "
    "returns all documents strictly above a matching-count threshold and all tied at it, where the threshold is the "
    "highest that yields at least k documents (all documents when there are at most k).",
    ["inputs"],
    "every collection of up to N document sets over a small document universe, with repetition, and every k >= 1",
    "test_querying compares one k on 16 clusters with a heap that breaks ties in its favour.",
    [UTL, IDX],
    [("bit-sliced accumulation", f"{UTL}: compute_bitslice, weight_bitslice"), ("bit-sliced top-k", f"{UTL}: bstm")],
    [],
    ["Index.cluster_query", "Index.union_bitslice", "utilities.bstm", "utilities.weight_bitslice"],
)
prop(
    "C19",
    "Structured samples and their export are faithful to the model",
    "A structured sample takes, for every random outcome, min(k, available) documents from each selected cluster (all when "
    "k is 0), visiting clusters from fewest to most documents, only from that cluster's documents and never the same "
    "document twice, and reports for all sampled documents exactly the clusters they belong to. "
    "The exported file has one row per sampled document with its key, text, sampled cluster and a mark in exactly the "
    "columns of the clusters containing it, and survives reading back with any document text.",
    ["inputs", "histories"],
    "every small model with overlapping clusters x k x cluster selection x every outcome of the random sampling, with "
    "document texts containing separators, quotes and line breaks",
    "test_model_structured_sampling checks total sizes of one sample and never reads the exported file.",
    [IDX, COR, CLI],
    [("sampling without replacement", f"{IDX}: Index.structured_doc_sample, sample_bitmap"), ("CSV export", f"{IDX}: Index.export_document_sample")],
    [],
    ["Index.structured_doc_sample", "Index.export_document_sample", "hyperreal plaintext-corpus sample"],
)
prop(
    "C20",
    "A plain text corpus holds exactly the documents it was given",
    "Replacing the documents of a plain text corpus stores exactly the given texts, in order, each retrievable by its key "
    "with identical text, and nothing of the earlier content. If the input fails part way, or the process is killed, the "
    "error is raised and the previous content is unchanged; readers see the old or the new content, never a mix. "
    "Creating a corpus from a file on the command line stores each non-blank line whole as one document.",
    ["inputs", "fault_sequences", "crash_points"],
    "every list of texts over an alphabet with separators, quotes and blanks, every failure position in the input, every "
    "statement boundary as crash point or reader position, every file over an alphabet of lines",
    "The tests build one corpus from one file and check exit codes.",
    [COR, CLI],
    [("savepoint around replacement", f"{COR}: PlainTextSqliteCorpus.replace_docs"), ("file reading", f"{CLI}: plaintext_corpus_create")],
    [("doc table", "texts by document key", COR)],
    ["PlainTextSqliteCorpus.docs/keys", "hyperreal plaintext-corpus create"],
)
prop(
    "C21",
    "Stack Exchange dumps load atomically, idempotently and per site",
    "Loading a site's dump makes its questions and answers documents carrying exactly their own site's author, tags (an "
    "answer's from its question) and comments, even when ids coincide between sites; other post types are ignored. "
    "Title and text outside code blocks are indexed as Post and the code as CodeBlock. "
    "Loading a dump again changes no document or key, a newer dump updates documents in place under the same key, and a "
    "load that fails or is killed part way leaves the corpus as it was.",
    ["inputs", "histories", "crash_points", "fault_sequences"],
    "every sequence of loads from a set of small dumps of two sites with colliding ids and missing users, malformed or "
    "truncated input at every file, and every statement boundary as crash point",
    "The only test of this corpus needs data files that are missing here and checks exit codes.",
    [COR],
    [("one transaction per load, rollback on error", f"{COR}: StackExchangeCorpus.add_site_data"), ("(site_id, Id) joins", f"{COR}: StackExchangeCorpus.docs, _get_rendered_doc_fields")],
    [("Post.doc_id", "stable surrogate key", COR)],
    ["StackExchangeCorpus.docs/keys/index/render_docs_table"],
)
prop(
    "C22",
    "Opening recognises, migrates or refuses a database and never damages it",
    "Opening an empty path creates an index; opening an index, also one from any supported earlier schema version, keeps "
    "all features, clusters and pins and gives a fully working current index with correct cluster summaries, even if the "
    "migration was interrupted and is repeated. A database that is not a hyperreal index or has an unknown version is "
    "refused with a migration error and keeps its content. Checking whether a file is an index answers yes or no for any "
    "file name and content.",
    ["inputs", "histories", "crash_points"],
    "every schema version 0-12 x content (empty, populated, foreign tables) x crash point in the migration; every kind of "
    "file for the recognition check",
    "The tests only open current or new indexes.",
    [SCH, IDX],
    [("versioned migration in a transaction", f"{SCH}: migrate"), ("post-migration refresh", f"{IDX}: Index.__init__"), ("application id", f"{IDX}: Index.is_index_db")],
    [("user_version / application_id", "schema identity", SCH)],
    ["Index(path)", "Index.is_index_db"],
)
prop(
    "C23",
    "Web requests change the index only by POST and exactly as asked",
    "No GET request changes the index, whatever its address and parameters, and edit addresses refuse GET. Each POST edit "
    "request (delete, create, merge, pin, unpin, refine, recreate, remove features) has exactly the effect of the same library "
    "call with the same arguments, whether one or several ids are sent, and then redirects; the forms of the pages submit exactly "
    "such requests, and their search forms lead back to the page they are on, showing the feature. A failing, malformed or unknown "
    "request changes nothing and does not affect later requests, and simultaneous "
    "requests end as one after the other.",
    ["inputs", "histories"],
    "every route of the application x method x parameter shape (none, one, several, unknown, malformed), and every "
    "sequence of requests up to a depth, compared with the library model",
    "test_server fetches six pages with GET and never posts anything.",
    [SRV],
    [("allow/ensure_list/lookup/cleanup tools", f"{SRV}: tools"), ("handlers", f"{SRV}: ClusterOverview, FeatureOverview, Index")],
    [("index database", "shared by all requests", SRV)],
    ["HTTP status and redirect", "index content after each request"],
)
prop(
    "C24",
    "Web pages never turn document or feature text into markup",
    "Text that comes from documents, features, fields, search parameters or corpus metadata such as author names, titles, "
    "tags and comments appears on every page only as text: no value can introduce an element, attribute or script (the HTML "
    "body of a Stack Exchange post is the only content shown as markup).",
    ["inputs"],
    "every page and view of the application for indexes whose values, fields, texts and metadata are drawn from an "
    "alphabet of markup fragments placed in every position",
    "test_server only looks for a few links on pages of a harmless index.",
    [SRV, COR, "hyperreal/templates"],
    [("autoescaping environment", f"{SRV}: templates"), ("explicit escapes in corpus templates", f"{COR}: TEMPLATE")],
    [],
    ["HTML of every GET route", "render_docs_html of the corpora"],
)
prop(
    "C25",
    "Reports about the model agree with the model",
    "Cluster listings, feature listings, the co-occurrence graph, exported cluster tables (command line and web), field summaries "
    "and field intersections contain exactly the clusters, features, counts and similarities of the stored index: every "
    "entry, in the documented order, for every cut-off. The graph has one node per cluster and one edge per pair of "
    "clusters sharing documents, weighted by their Jaccard similarity, whatever the type of the feature values and the "
    "order in which background work completes.",
    ["inputs", "schedules"],
    "every small index with text and numeric values x clustering x cut-off x field x query, under every completion order",
    "test_graph_creation counts nodes, the CLI test checks exit codes, and the intersection test cannot run here.",
    [IDX, SRV, CLI],
    [
        ("listings", f"{IDX}: top_cluster_features, cluster_features, indexed_field_summary, intersect_queries_with_field"),
        ("graph", f"{IDX}: create_cluster_cooccurrence_graph"),
        ("exports", f"{CLI}: export_clusters, export_graph; {SRV}: Index.export_clusters"),
    ],
    [],
    ["return values and exported files"],
)
prop(
    "C26",
    "Reading an index never changes it or later answers",
    "Any sequence of queries, listings, samples, exports and pages, including changing the returned document sets in place, leaves "
    "the stored index byte-for-byte equal in content, and the document sets given to it unchanged, and gives the same answer to "
    "any later query as on a fresh object. An "
    "index opened again or sent to another process answers identically.",
    ["histories"],
    "every sequence up to a depth of read operations and in-place changes of their results, compared with a fresh index "
    "after every step",
    "Tests call each reader once on a fresh object.",
    [IDX, DBU],
    [("bitmaps deserialised per call", f"{DBU}: load_bitmap"), ("pickling by path", f"{IDX}: Index.__getstate__/__setstate__")],
    [],
    ["all read methods of Index", "content of the database file"],
)
prop(
    "C27",
    "Command line modelling protects and refines the existing model",
    "The model command creates a model when there is none with the requested clusters, fields and minimum documents; on an "
    "existing model it refines without re-assigning from scratch unless a restart is both requested and confirmed. A declined "
    "restart, or any command given something that is not an index, changes nothing - neither that file nor its output - and "
    "serving serves exactly the given index and corpus.",
    ["histories", "configurations"],
    "every sequence up to a depth of model commands over option combinations and confirmation answers from each starting "
    "state (no model, model with pins)",
    "test_plaintext_corpus runs one path and looks at exit codes.",
    [CLI],
    [("restart confirmation and branch on existing clusters", f"{CLI}: model"), ("index file checks", f"{CLI}: export, serve, sample commands")],
    [],
    ["index content before and after each command", "exit codes"],
)
prop(
    "C28",
    "Tokenising keeps every word once, in order, regardless of case and quotes",
    "Tokens are never blank or None, are unchanged by the letter case and by curly versus straight quotes of the input, and joined together "
    "give the lower-cased text without its white space and without single quotes at the edges of words (which only separate words), "
    "so no other character of the text is lost, duplicated or reordered. A run of letters or digits is never split, an apostrophe inside a "
    "word keeps it together, and words separated by white space are never joined. For social media text "
    "links, mentions and hashtags contribute nothing, and everything else is tokenised as if they were absent.",
    ["inputs"],
    "every string up to a length over an alphabet of letters, digits, quotes, punctuation, white space, combining and "
    "non-Latin characters; every sequence of social-media fragments up to a length",
    "No test examines tokens; the index tests compare the tokeniser with itself.",
    [UTL],
    [("word break splitting", f"{UTL}: tokens, word_tokenizer"), ("social media cleaner", f"{UTL}: social_media_tokens, social_media_cleaner")],
    [],
    ["utilities.tokens", "utilities.social_media_tokens"],
)
prop(
    "C29",
    "Tweets are indexed by exactly their own content and relations",
    "Every directly collected tweet, and no other, is a document whose indexed features are its latest text tokens, lower-cased hashtags and mentions, "
    "external links and their domains, author, conversation, collection labels and creation times; a retweet is indexed only as a "
    "pointer to its original. Related users appear exactly when known, absent relations contribute no feature, and such a corpus can be "
    "indexed with or without positions. A database of another kind or of an unsupported older version is refused.",
    ["inputs", "configurations"],
    "every combination of tweet shapes (original, reply, quote, retweet; related tweet known or not; with and without "
    "entities, several collection contexts and retrieval times) in small databases, indexed with and without positions",
    "The only test of this corpus is skipped.",
    [COR, IDX],
    [("document assembly", f"{COR}: TwittersphereCorpus.docs"), ("features", f"{COR}: TwittersphereCorpus.index")],
    [],
    ["TwittersphereCorpus.docs/keys/index", "Index.index on such a corpus"],
)
prop(
    "C30",
    "Web pages show what the library returns and lead through the whole model",
    "Every page lists exactly the clusters, features, counts, documents, passages and concordances that the library returns for the "
    "same request at that moment, whatever was requested before and whoever changed the index or corpus, and marks the selected ones. Its links lead to the pages they name: previous and next lead through all clusters in a ring, and "
    "every cluster and feature of the model is reachable from the first page. Changes are offered only for clusters that are "
    "not pinned, on exactly the features shown. Whatever the model, no link or submitted form leads to a missing page or an internal error.",
    ["inputs", "histories"],
    "every page reachable by links in every model reachable by submitting the forms, up to a number of submissions, from several "
    "models; all views of small models, and of a large one, compared with the library",
    "test_server looks for the number of a few elements on pages of one model.",
    [SRV, "hyperreal/templates"],
    [("pages", f"{SRV}: Index.index, Cluster.index, Index.details"), ("redirects", f"{SRV}: ClusterOverview, FeatureOverview"), ("links and forms", "hyperreal/templates/*.html")],
    [],
    ["HTML of every page", "status of every link, form and search"],
)

prop(
    "C31",
    "Indexing commands reflect the current corpus and keep the model",
    "Running the index command of any kind of corpus, for the first time or again after any change of the corpus or of the model, with any "
    "batch size, with or without positions, gives an index whose answers are those of a new index over the current content of that corpus, "
    "and keeps feature ids, clusters and pins. A run that fails or is interrupted, or is given a corpus of another kind or a target "
    "that is not an index, exits with an error and leaves the index as it was. The corpus is never changed by indexing.",
    ["histories", "crash_points", "inputs"],
    "every history of corpus changes, index commands with different options, modelling and pinning up to a number of operations, "
    "for each kind of corpus; every point of failure of a reindexing command; every kind of file as target or corpus",
    "The commands are tested by one sequence on one file, looking only at exit codes.",
    [CLI, IDX, COR],
    [("commands", f"{CLI}: make_two_file_indexer, plaintext_corpus_create, stackexchange_corpus_add_site"), ("indexing", f"{IDX}: Index.index")],
    [],
    ["exit codes", "answers and stored model of the index", "contents of the corpus"],
)

prop(
    "C32",
    "Documents are shown and tabulated with exactly their own content",
    "The page or table row of a document contains exactly its own content: a text document its text; a Stack Exchange post its title (an answer its "
    "question's), body, licence, kind, tags of the question, owner if known, every remark with its own author and licence, and links to "
    "them; a tweet its latest text and counts and the user who wrote it. This holds whatever other documents are asked for with it, in the order asked for, after any "
    "history of loading, also for sites using the same numbers. An index shows exactly the matching documents, or a sample of them of the requested size.",
    ["histories", "inputs"],
    "every post and tweet built from combinations of owners, kinds, tags, remarks and relations, after several loading histories, "
    "requested alone and in every order of several; every feature's documents in an index, with every sample size and many outcomes of sampling",
    "The tests render two or three documents and do not look at what is shown.",
    [COR, IDX, "hyperreal/templates"],
    [("rendering", f"{COR}: render_docs_html, render_docs_table of every corpus"), ("matching documents", f"{IDX}: Index.render_docs_html, Index.render_docs_table")],
    [],
    ["render_docs_html", "render_docs_table"],
)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
