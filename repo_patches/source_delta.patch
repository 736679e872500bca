From ae2258311533b1b2d849b51390c7fb21ab0be0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 01/41] fix: allow repeated fields when initialising a model

---
 hyperreal/index.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index c84be27..f13e0bf 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -940,7 +940,8 @@ class Index:
 
         if include_fields:
             self.db.executemany(
-                "insert into include_field values(?)", [[f] for f in include_fields]
+                "insert into include_field values(?)",
+                [[f] for f in set(include_fields)],
             )
         else:
             self.db.execute("insert into include_field select field from field_summary")
-- 
2.43.0


From 778cfb3c337b9115596eb609f6918c7cd17349b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 02/41] fix: rewind failed and interrupted model operations
 completely

An error while refreshing the clusters at the end of an operation left the
savepoint open and the change applied, an interruption was committed half
way, and a failure to rewind left the nesting level wrong. The housekeeping
and the release are now part of the operation that is rewound.
---
 hyperreal/index.py | 57 +++++++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index f13e0bf..52d795d 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -95,39 +95,48 @@ def atomic(writes=False):
         @wraps(func)
         def wrapper(*args, **kwargs):
             self = args[0]
+            self._transaction_level += 1
+
             try:
-                self._transaction_level += 1
                 self.db.execute(f'savepoint "{func.__name__}"')
 
-                results = func(*args, **kwargs)
-
-                if writes:
-                    self._changed = True
-
-                return results
-
-            except Exception:
-                self.logger.exception("Error executing index method.")
-                # Rewind to the previous savepoint, then release it
-                # This is necessary to behave nicely whether we are operating
-                # inside a larger transaction or just in autocommit mode.
-                self.db.execute(f'rollback to "{func.__name__}"')
-                raise
+                try:
+                    results = func(*args, **kwargs)
+
+                    if writes:
+                        self._changed = True
+
+                    # We're about to leave the outermost level and commit. The
+                    # housekeeping and the commit are part of the operation: if
+                    # they fail nothing should change.
+                    if self._transaction_level == 1 and self._changed:
+                        self.logger.info(f"Changes detected - updating clusters.")
+                        # Note that this will check for changed queries, and will
+                        # therefore be a noop if there aren't any.
+                        self._update_changed_clusters()
+
+                    self.db.execute(f'release "{func.__name__}"')
+
+                    return results
+
+                # Interruptions need to be rewound just like errors.
+                except BaseException:
+                    self.logger.exception("Error executing index method.")
+                    # Rewind to the previous savepoint, then release it
+                    # This is necessary to behave nicely whether we are operating
+                    # inside a larger transaction or just in autocommit mode. Note
+                    # that some errors make SQLite rollback everything itself.
+                    if self.db.in_transaction:
+                        self.db.execute(f'rollback to "{func.__name__}"')
+                        self.db.execute(f'release "{func.__name__}"')
+                    raise
 
             finally:
                 self._transaction_level -= 1
 
-                # We've decremented to the final transaction level and are about
-                # to commit.
-                if self._transaction_level == 0 and self._changed:
-                    self.logger.info(f"Changes detected - updating clusters.")
-                    # Note that this will check for changed queries, and will
-                    # therefore be a noop if there aren't any.
-                    self._update_changed_clusters()
+                if self._transaction_level == 0:
                     self._changed = False
 
-                self.db.execute(f'release "{func.__name__}"')
-
         return wrapper
 
     return atomic_wrapper
-- 
2.43.0


From d5bbd1d919a09af6be596920e4d94c9dcd476bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 03/41] fix: refine a model in which every feature is pinned

Refinement divided by the number of movable features.
---
 hyperreal/index.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 52d795d..0065aa2 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1522,6 +1522,10 @@ class Index:
             if f not in pinned_features
         }
 
+        # Nothing can be moved, split off or dissolved if everything is pinned.
+        if not movable_features:
+            return cluster_feature, set()
+
         movable_feature_list = list(movable_features)
         moved_features = len(movable_features)
 
-- 
2.43.0


From c66e5157e478a7c8127bfc21240de5c5457c9d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 04/41] fix: dissolve clusters pruned by group testing

These have no objective, choosing the clusters to dissolve failed on them.
---
 hyperreal/index.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 0065aa2..8094552 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1587,7 +1587,9 @@ class Index:
                 dissolve_cluster_ids = set(
                     sorted(
                         cluster_feature.keys() - clusters_with_pinned_features,
-                        key=lambda x: objectives[x],
+                        # Clusters pruned by group testing have no score: they
+                        # weren't a good candidate for any feature.
+                        key=lambda x: objectives.get(x, 0),
                     )[:n_dissolve]
                 )
                 self.logger.info(
-- 
2.43.0


From de229cd498678cc73ae41d8719689959ed0a1562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 05/41] fix: keep clusters smaller than the minimum size from
 being emptied

Only clusters of exactly the minimum size were protected.
---
 hyperreal/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 8094552..0cd029d 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1630,7 +1630,7 @@ class Index:
                     continue
 
                 # Don't move things out of a small cluster.
-                elif len(cluster_feature[current_cluster]) == minimum_cluster_features:
+                elif len(cluster_feature[current_cluster]) <= minimum_cluster_features:
                     continue
 
                 # We can make this move, so let's try it
-- 
2.43.0


From a08d34d78c53544e66148db7459de501a82218fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 06/41] fix: refine with a target not above the number of
 pinned clusters

All of the other clusters were dissolved, leaving nowhere to move features.
---
 hyperreal/index.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 0cd029d..b97eb03 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1729,6 +1729,9 @@ class Index:
                 del cluster_feature[cluster_id]
                 target_clusters -= 1
 
+        # The features of the other clusters need somewhere to go.
+        target_clusters = max(1, target_clusters)
+
         if group_test_batches is None:
             group_test_batches = math.ceil(len(cluster_feature) * 0.1)
 
-- 
2.43.0


From 2ad33804156b4d4461d6655588a43219679670a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 07/41] fix: keep every new cluster when refining a selection
 of clusters

The generated ids can overlap with the final ids, so that a cluster already
renumbered was replaced and deleted.
---
 hyperreal/index.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index b97eb03..262123b 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1759,6 +1759,8 @@ class Index:
 
         for cluster_id in new_cluster_ids:
             del cluster_feature[cluster_id]
+
+        for cluster_id in new_cluster_ids:
             cluster_feature[next_cluster_id] = new_cluster_feature[cluster_id]
             next_cluster_id += 1
 
-- 
2.43.0


From bac8df5b4e4d6f8ff1afffd5d5bb7d9caf55d56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 08/41] fix: make indexing all or nothing, including
 interruptions and clusters

The document sets of clusters were updated in a second transaction after
the new index was already committed, interruptions left the transaction
open, and a failing batch left others writing to removed files.
---
 hyperreal/index.py | 85 +++++++++++++++++++++++++++++++---------------
 1 file changed, 58 insertions(+), 27 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 262123b..5c668fa 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -340,15 +340,20 @@ class Index:
 
         workers = workers or self.pool._max_workers
 
-        try:
-            self.db.execute("pragma foreign_keys=0")
-            self.db.execute("begin")
-        except sqlite3.OperationalError:
+        if self.db.in_transaction:
             raise IndexingError(
                 "The `index` method can't be called in a nested transaction."
             )
 
+        manager = None
+        tempdir = None
+        detach = False
+        futures = set()
+
         try:
+            self.db.execute("pragma foreign_keys=0")
+            self.db.execute("begin")
+
             manager = mp.Manager()
             write_lock = manager.Lock()
 
@@ -370,8 +375,6 @@ class Index:
             batch_doc_keys = []
             batch_size = 0
 
-            futures = set()
-
             self.logger.info("Beginning indexing.")
 
             for doc_key in doc_keys:
@@ -542,25 +545,36 @@ class Index:
                 "insert into changed_cluster select cluster_id from cluster"
             )
 
+            # Background workers can't see the new content before it is
+            # committed, so this needs to run in this process.
+            self._update_changed_clusters(background=False)
             self.db.execute("commit")
 
-            self.db.execute("begin")
-            self._update_changed_clusters()
-            self.db.execute("commit")
-
-        except Exception:
+        # Interruptions need to be rolled back as well.
+        except BaseException:
             self.logger.exception("Indexing failure.")
-            self.db.execute("rollback")
+            if self.db.in_transaction:
+                self.db.execute("rollback")
             raise
 
         finally:
-            self.db.execute("pragma foreign_keys=1")
-            manager.shutdown()
+            try:
+                self.db.execute("pragma foreign_keys=1")
+
+                if detach:
+                    self.db.execute("detach tempindex")
+
+            finally:
+                # Make sure nothing is still writing to the temporary files.
+                for f in futures:
+                    f.cancel()
+                cf.wait(futures)
 
-            if detach:
-                self.db.execute("detach tempindex")
+                if manager is not None:
+                    manager.shutdown()
 
-            tempdir.cleanup()
+                if tempdir is not None:
+                    tempdir.cleanup()
 
         self.logger.info("Indexing completed.")
 
@@ -1788,7 +1802,7 @@ class Index:
             ),
         )
 
-    def _update_changed_clusters(self):
+    def _update_changed_clusters(self, background=True):
         """
         Refresh cluster union queries for changed clusters.
 
@@ -1796,6 +1810,9 @@ class Index:
 
         It is assumed that this is called inside a transaction.
 
+        The unions are computed in the background by default: this isn't possible
+        if the indexed documents or the schema changed in this transaction.
+
         """
 
         # First update the feature counts, and remove empty clusters
@@ -1810,7 +1827,7 @@ class Index:
             """
         )
 
-        changed = self.db.execute("select cluster_id from changed_cluster")
+        changed = list(self.db.execute("select cluster_id from changed_cluster"))
 
         # Then update the union statistics for all of the clusters
         bg_args = (
@@ -1834,7 +1851,15 @@ class Index:
 
         # Note that the data here may not have been committed yet, so we have
         # to read and pass the feature_ids to the background ourselves.
-        for cluster_id, query, weight in self.pool.map(_union_query, bg_args):
+        if background:
+            unions = self.pool.map(_union_query, bg_args)
+        else:
+            unions = [
+                (cluster_id, *_union_features(self, feature_ids))
+                for _, cluster_id, feature_ids in bg_args
+            ]
+
+        for cluster_id, query, weight in unions:
             self.db.execute(
                 """
                 update cluster set (docs_count, weight, doc_ids) = (?, ?, ?)
@@ -2410,17 +2435,23 @@ def _union_query(args):
     idx, query_key, feature_ids = args
 
     with idx:
-        query = BitMap()
-        weight = 0
-
-        for feature_id in feature_ids:
-            docs = idx[feature_id]
-            query |= docs
-            weight += len(docs)
+        query, weight = _union_features(idx, feature_ids)
 
     return query_key, query, weight
 
 
+def _union_features(idx, feature_ids):
+    query = BitMap()
+    weight = 0
+
+    for feature_id in feature_ids:
+        docs = idx[feature_id]
+        query |= docs
+        weight += len(docs)
+
+    return query, weight
+
+
 def _score_passages_dnf(idx, field, first_doc_id, feature_clauses, window_size):
     """
     Score passages for a query in disjunctive normal form.
-- 
2.43.0


From 8a298b7c55e63a08a3fad8e9dff5313360f48e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 09/41] fix: accept a working directory for indexing

The path was used like a TemporaryDirectory object.
---
 hyperreal/index.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 5c668fa..f541579 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -357,9 +357,9 @@ class Index:
             manager = mp.Manager()
             write_lock = manager.Lock()
 
-            detach = False
-
-            tempdir = working_dir or tempfile.TemporaryDirectory()
+            # Always work inside a directory of our own, so that only our own
+            # files are cleaned up at the end.
+            tempdir = tempfile.TemporaryDirectory(dir=working_dir)
             temp_index = os.path.join(tempdir.name, "temp_index.db")
 
             # We're still inside a transaction here, so processes reading from
-- 
2.43.0


From a7e5cf3ca747c6ffae9b01f84b8898c508560187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 10/41] fix: index a corpus without documents

The tables of the temporary index were only created by the first batch.
---
 hyperreal/index.py | 64 +++++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 27 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index f541579..ef73865 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -362,6 +362,11 @@ class Index:
             tempdir = tempfile.TemporaryDirectory(dir=working_dir)
             temp_index = os.path.join(tempdir.name, "temp_index.db")
 
+            # These are needed for merging even if there are no documents.
+            segments = db_utilities.connect_sqlite(temp_index)
+            _create_segment_tables(segments)
+            segments.close()
+
             # We're still inside a transaction here, so processes reading from
             # the index won't see any of these changes until the release at
             # the end.
@@ -2099,6 +2104,37 @@ class Index:
             )
 
 
+def _create_segment_tables(db):
+    """Create the tables for collecting indexed batches of documents."""
+    db.execute(
+        """
+        CREATE table if not exists inverted_index_segment(
+            field text,
+            value,
+            docs_count,
+            doc_ids roaring_bitmap,
+            position_count,
+            positions roaring_bitmap,
+            first_doc_id
+        )
+        """
+    )
+
+    db.execute(
+        """
+        CREATE table if not exists batch_position(
+            field,
+            first_doc_id,
+            last_doc_id,
+            docs_count,
+            doc_ids roaring_bitmap,
+            doc_position_starts roaring_bitmap,
+            primary key (field, first_doc_id)
+        )
+        """
+    )
+
+
 def _index_docs(corpus, doc_ids, doc_keys, temp_db_path, index_positions, write_lock):
     """
     Index all of the given docs into temp_db_path.
@@ -2162,33 +2198,7 @@ def _index_docs(corpus, doc_ids, doc_keys, temp_db_path, index_positions, write_
         with write_lock:
             local_db.execute("pragma synchronous=0")
             local_db.execute("begin")
-            local_db.execute(
-                """
-                CREATE table if not exists inverted_index_segment(
-                    field text,
-                    value,
-                    docs_count,
-                    doc_ids roaring_bitmap,
-                    position_count,
-                    positions roaring_bitmap,
-                    first_doc_id
-                )
-                """
-            )
-
-            local_db.execute(
-                """
-                CREATE table if not exists batch_position(
-                    field,
-                    first_doc_id,
-                    last_doc_id,
-                    docs_count,
-                    doc_ids roaring_bitmap,
-                    doc_position_starts roaring_bitmap,
-                    primary key (field, first_doc_id)
-                )
-                """
-            )
+            _create_segment_tables(local_db)
 
             for field, (
                 batch_doc_ids,
-- 
2.43.0


From 28f75991a40a23a305a7e1db70b1aaf614471340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 11/41] fix: score a single final position as a passage

---
 hyperreal/index.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index ef73865..43b8fe9 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -2576,16 +2576,15 @@ def _score_passages_dnf(idx, field, first_doc_id, feature_clauses, window_size):
             else:
                 last_position = position
         else:
-            # Don't forget the last window, if it wasn't closed off.
-            if last_position != passage_start:
-                passage_scores[doc_id].append(
-                    (
-                        field,
-                        passage_start - doc_start,
-                        last_position - doc_start,
-                        positions.range_cardinality(passage_start, last_position + 1),
-                    )
+            # Don't forget the last window, it's never closed off in the loop.
+            passage_scores[doc_id].append(
+                (
+                    field,
+                    passage_start - doc_start,
+                    last_position - doc_start,
+                    positions.range_cardinality(passage_start, last_position + 1),
                 )
+            )
 
     return (
         field,
-- 
2.43.0


From a5a4568f81ecc5b0250158067e1911a2a68a29d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 12/41] fix: count collocations within the given field only

---
 hyperreal/index.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 43b8fe9..eeed5fe 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -2610,8 +2610,13 @@ def _count_collocations(idx, field, first_doc_id, features, window_size):
         )
 
         for (feature_id,) in idx.db.execute(
-            "select feature_id from position_index where first_doc_id = ?",
-            [first_doc_id],
+            """
+            select feature_id
+            from position_index
+            inner join inverted_index using(feature_id)
+            where first_doc_id = ? and field = ?
+            """,
+            [first_doc_id, field],
         ):
             if feature_id not in features:
                 other_positions = idx._get_partition_positions(first_doc_id, feature_id)
-- 
2.43.0


From 6dc51194162e3939bf73363b66e335f859310555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 13/41] fix: include the last position of a passage in its text

---
 hyperreal/index.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index eeed5fe..8e64dba 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -2644,7 +2644,9 @@ def _construct_passages(idx, scored_passages, passage_overhang, combiner_fn=" ".
                 field, start, end = passage[:3]
                 passage_text = combiner_fn(
                     indexed[field][
-                        max(0, start - passage_overhang) : end + passage_overhang
+                        max(0, start - passage_overhang) : end
+                        + 1
+                        + passage_overhang
                     ]
                 )
 
-- 
2.43.0


From 1155036c8b9011baa23c570936b7644fcef824e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 14/41] fix: keep expanded windows inside their document

---
 hyperreal/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/utilities.py b/hyperreal/utilities.py
index 03ecd01..b1833db 100644
--- a/hyperreal/utilities.py
+++ b/hyperreal/utilities.py
@@ -153,7 +153,7 @@ def expand_positions_window(positions, doc_boundaries, window_size):
             next_start = doc_boundaries[rank]
 
         # Actually apply the window
-        end_range = min(next_start, position + window_size) + 1
+        end_range = min(next_start, position + window_size + 1)
         windowed.add_range(max(doc_start, position - window_size), end_range)
 
     return windowed
-- 
2.43.0


From 400da86ed3cdd4372a277e22b04036be33a57b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:54 +0000
Subject: [PATCH 15/41] fix: leave vanished values out of the field summary
 after reindexing

---
 hyperreal/index.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 8e64dba..eaed422 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -541,6 +541,9 @@ class Index:
                         0
                     )
                 from inverted_index ii
+                -- values that are only known from an earlier indexing run
+                -- don't count
+                where docs_count > 0
                 group by field
                 """
             )
-- 
2.43.0


From 0dd4591fc4a1c3d4d7a75d83db61d60ee62cc19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 16/41] fix: report failed replacement of plain text documents
 and undo it

---
 hyperreal/corpus.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index dcc8fe0..2f4ffa0 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -183,12 +183,14 @@ class PlainTextSqliteCorpus(SqliteBackedCorpus):
                 "insert or ignore into doc(text) values(?)", ([t] for t in texts)
             )
 
-        except Exception:
-            self.db.execute("rollback to add_texts")
-
-        finally:
             self.db.execute("release add_texts")
 
+        except BaseException:
+            if self.db.in_transaction:
+                self.db.execute("rollback to add_texts")
+                self.db.execute("release add_texts")
+            raise
+
     def docs(self, doc_keys=None):
         self.db.execute("savepoint docs")
         try:
-- 
2.43.0


From 2e0633a8898aab3f3ae36b28f33119312566df47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 17/41] fix: read plain text files line by line as documented

---
 hyperreal/cli.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/hyperreal/cli.py b/hyperreal/cli.py
index c7038ce..0f714a8 100644
--- a/hyperreal/cli.py
+++ b/hyperreal/cli.py
@@ -109,6 +109,21 @@ def plaintext_corpus():
 DEFAULT_DOC_BATCH_SIZE = 5000
 
 
+def parse_text_line(line):
+    """Return the document on this line, decoding it if it is a JSON string."""
+    line = line.rstrip("\n")
+    stripped = line.strip()
+
+    if stripped.startswith('"') and stripped.endswith('"'):
+        try:
+            return json.loads(stripped)
+        except ValueError:
+            # It only looks like a JSON string, such as a line of dialogue.
+            pass
+
+    return line
+
+
 @plaintext_corpus.command(name="create")
 @click.argument("text_file", type=click.Path(exists=True, dir_okay=False))
 @click.argument("corpus_db", type=click.Path(dir_okay=False))
@@ -129,9 +144,8 @@ def plaintext_corpus_create(text_file, corpus_db):
     doc_corpus = hyperreal.corpus.PlainTextSqliteCorpus(corpus_db)
 
     with open(text_file, "r", encoding="utf-8") as infile:
-        f = csv.reader(infile)
         # The only documents we drop are lines that are only whitespace.
-        docs = (line[0] for line in f if line and line[0].strip())
+        docs = (parse_text_line(line) for line in infile if line.strip())
         doc_corpus.replace_docs(docs)
 
 
-- 
2.43.0


From 1ca753a173c119707876a9a27d6bf4d8c46b0ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:28 +0000
Subject: [PATCH 18/41] fix: remove tags that a newer Stack Exchange dump
 removed

---
 hyperreal/corpus.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index 2f4ffa0..f577162 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -401,6 +401,11 @@ class StackExchangeCorpus(SqliteBackedCorpus):
                     if t
                 )
 
+                # A newer dump might have removed tags.
+                self.db.execute(
+                    "delete from PostTag where (site_id, PostId) = (?, ?)",
+                    (site_id, elem.attrib["Id"]),
+                )
                 self.db.executemany("replace into PostTag values(?, ?, ?)", tag_insert)
 
                 # This is important when using iterparse to free memory from
-- 
2.43.0


From b4ffc0277c023ff047f30d361d17b43f9d70dbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:28 +0000
Subject: [PATCH 19/41] fix: undo an interrupted Stack Exchange load

---
 hyperreal/corpus.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index f577162..30b48d1 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -468,8 +468,9 @@ class StackExchangeCorpus(SqliteBackedCorpus):
 
             self.db.execute("commit")
 
-        except Exception as e:
-            self.db.execute("rollback")
+        except BaseException:
+            if self.db.in_transaction:
+                self.db.execute("rollback")
             raise
 
     def docs(self, doc_keys=None):
-- 
2.43.0


From 8c89af3dbf16656126b7e2dfa8d51ae9e530be75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 20/41] fix: keep text following a code block of a Stack
 Exchange post

---
 hyperreal/corpus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index 30b48d1..4c52ca5 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -737,7 +737,8 @@ class StackExchangeCorpus(SqliteBackedCorpus):
                 # Extract text of code blocks
                 code_blocks.append(" ".join(node.itertext()))
                 # Then remove them, treat everything else as post text
-                node.getparent().remove(node)
+                # (keeping the text that follows them).
+                node.drop_tree()
 
             # This is a little wrong, ideally we'd handle the cases where
             # the code blocks are removed with a sentinel...
-- 
2.43.0


From b0bdd7bd7dc98849adc8ab44f4a6a6364dfde7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:20 +0000
Subject: [PATCH 21/41] fix: migrate and refuse databases without damage

---
 hyperreal/_index_schema.py | 103 ++++++++++++++++++++++++-------------
 hyperreal/index.py         |  37 ++++++-------
 2 files changed, 87 insertions(+), 53 deletions(-)

diff --git a/hyperreal/_index_schema.py b/hyperreal/_index_schema.py
index 56288c3..be9f252 100644
--- a/hyperreal/_index_schema.py
+++ b/hyperreal/_index_schema.py
@@ -228,64 +228,97 @@ class IndexVersionMismatch(ValueError):
     pass
 
 
-def migrate(db):
+def check_version(db):
     """
-    Migrate the database to the current version of the index schema.
+    Return the schema version of this database, 0 if it is empty.
 
-    Returns True if a migration operation ran, False otherwise.
+    Raises a MigrationError if the database cannot be used as an index. This
+    does not change the database in any way.
 
     """
-
+    # The tables come first: if someone else creates the index in between, then
+    # the version says so.
+    table_count = list(db.execute("select count(*) from sqlite_master"))[0][0]
     db_version = list(db.execute("pragma user_version"))[0][0]
+    application_id = list(db.execute("pragma application_id"))[0][0]
 
     if db_version == 0:
         # Check that this is a database with no tables, and error if not - don't
         # want to create these tables on top of an unrelated database.
-        table_count = list(db.execute("select count(*) from sqlite_master"))[0][0]
-
-        if table_count > 0:
+        if table_count > 0 or application_id not in (0, MAGIC_APPLICATION_ID):
             raise MigrationError(
-                f"Database at '{db_path}' is not empty, and cannot be used as an index."
+                "The database is not empty, and cannot be used as an index."
             )
-        else:
-            db.execute("begin")
 
+    elif application_id != MAGIC_APPLICATION_ID:
+        raise MigrationError("The database is not an index.")
+
+    elif db_version != CURRENT_SCHEMA_VERSION and db_version not in migrations:
+        raise MigrationError(f"Unknown database schema version '{db_version}'")
+
+    return db_version
+
+
+def migrate(db, after_migration=None):
+    """
+    Migrate the database to the current version of the index schema.
+
+    The optional after_migration callable runs as part of the same transaction
+    if the database is migrated from an earlier version.
+
+    Returns True if a migration operation ran, False otherwise.
+
+    """
+
+    if check_version(db) == CURRENT_SCHEMA_VERSION:
+        return False
+
+    db.execute("begin immediate")
+
+    try:
+        # Check again: someone else might have migrated while we were waiting.
+        db_version = check_version(db)
+
+        if db_version == 0:
             for statement in CURRENT_SCHEMA.split("--------"):
                 db.execute(statement)
 
-            db.execute("commit")
+            # Note that an initialisation is treated as if the index already existed
+            # as in this case there won't be any further action to take.
+            migrated = False
 
-        # Note that an initialisation is treated as if the index already existed
-        # as in this case there won't be any further action to take.
-        return False
+        elif db_version == CURRENT_SCHEMA_VERSION:
+            migrated = False
 
-    elif db_version == CURRENT_SCHEMA_VERSION:
-        return False
+        else:
+            m = sorted(migrations.items())
 
-    elif db_version in migrations:
-        db.execute("begin")
+            # Run premigration steps
+            for version, migration in m:
+                if version >= db_version:
+                    for statement in migration[0]:
+                        db.execute(statement)
 
-        m = sorted(migrations.items())
+            # Run the schema script
+            for statement in CURRENT_SCHEMA.split("--------"):
+                db.execute(statement)
 
-        # Run premigration steps
-        for version, migration in m:
-            if version >= db_version:
-                for statement in migration[0]:
-                    db.execute(statement)
+            # Run postmigration steps
+            for version, migration in m:
+                if version >= db_version:
+                    for statement in migration[1]:
+                        db.execute(statement)
 
-        # Run the schema script
-        for statement in CURRENT_SCHEMA.split("--------"):
-            db.execute(statement)
+            if after_migration is not None:
+                after_migration()
 
-        # Run postmigration steps
-        for version, migration in m:
-            if version >= db_version:
-                for statement in migration[1]:
-                    db.execute(statement)
+            migrated = True
 
         db.execute("commit")
 
-        return True
+    except BaseException:
+        if db.in_transaction:
+            db.execute("rollback")
+        raise
 
-    else:
-        raise MigrationError(f"Unknown database schema version '{db_version}'")
+    return migrated
diff --git a/hyperreal/index.py b/hyperreal/index.py
index eaed422..184cc59 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -167,6 +167,21 @@ class Index:
 
         self._pool = pool
 
+        self.corpus = corpus
+
+        # For tracking the state of nested transactions. This is incremented
+        # everytime a savepoint is entered with the @atomic() decorator, and
+        # decremented on leaving. Housekeeping functions will run when leaving
+        # the last savepoint by committing a transaction.
+        self._transaction_level = 0
+        self._changed = False
+
+        # Set up a context specific adapter for this index.
+        self.logger = logging.LoggerAdapter(logger, {"index_db_path": self.db_path})
+
+        # Don't touch anything that isn't an index.
+        _index_schema.check_version(self.db)
+
         for statement in """
             pragma synchronous=NORMAL;
             pragma foreign_keys=ON;
@@ -176,14 +191,10 @@ class Index:
         ):
             self.db.execute(statement)
 
-        migrated = _index_schema.migrate(self.db)
-
-        if migrated:
-            self.db.execute("begin")
-            self._update_changed_clusters()
-            self.db.execute("commit")
-
-        self.corpus = corpus
+        # Not in the background, as nothing is visible there before the commit.
+        _index_schema.migrate(
+            self.db, lambda: self._update_changed_clusters(background=False)
+        )
 
         self.settings = {
             row[0]: row[1] for row in self.db.execute("select key, value from settings")
@@ -192,16 +203,6 @@ class Index:
         # TODO: reach into the corpus for this instead.
         self.settings["display_query_results"] = "document"
 
-        # For tracking the state of nested transactions. This is incremented
-        # everytime a savepoint is entered with the @atomic() decorator, and
-        # decremented on leaving. Housekeeping functions will run when leaving
-        # the last savepoint by committing a transaction.
-        self._transaction_level = 0
-        self._changed = False
-
-        # Set up a context specific adapter for this index.
-        self.logger = logging.LoggerAdapter(logger, {"index_db_path": self.db_path})
-
     @property
     def pool(self):
         """
-- 
2.43.0


From a3516e5bcf190df212cdbaeaa215829ab0e8a730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:28 +0000
Subject: [PATCH 22/41] fix: answer whether any file is an index

---
 hyperreal/index.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 184cc59..5b51c6a 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -9,6 +9,7 @@ import atexit
 import collections
 from collections.abc import Sequence, Iterable
 import concurrent.futures as cf
+import contextlib
 import csv
 from functools import wraps
 import heapq
@@ -17,6 +18,7 @@ import logging
 import math
 import multiprocessing as mp
 import os
+import pathlib
 import random
 import sqlite3
 import tempfile
@@ -228,12 +230,17 @@ class Index:
     def is_index_db(cls, db_path):
         """Returns True if a db exists at db_path and is an index db."""
         try:
-            db = sqlite3.connect(f"file:{db_path}?mode=ro", uri=True)
-            return (
-                list(db.execute("pragma application_id"))[0][0]
-                == _index_schema.MAGIC_APPLICATION_ID
-            )
-        except sqlite3.OperationalError:
+            # The path needs quoting, as it is part of a URI.
+            uri = pathlib.Path(os.path.abspath(db_path)).as_uri()
+            with contextlib.closing(
+                sqlite3.connect(f"{uri}?mode=ro", uri=True)
+            ) as db:
+                return (
+                    list(db.execute("pragma application_id"))[0][0]
+                    == _index_schema.MAGIC_APPLICATION_ID
+                )
+        except sqlite3.DatabaseError:
+            # Nothing there, or not a database at all.
             return False
 
     def __enter__(self):
-- 
2.43.0


From 0745259c95b5abb5e075e71a8eddd1c422ee97f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:43 +0000
Subject: [PATCH 23/41] fix: collect passages in a reproducible order

---
 hyperreal/index.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 5b51c6a..bee28b3 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1986,11 +1986,11 @@ class Index:
                 if field in positional_fields:
                     field_clauses[field].append(clause)
 
-        futures = set()
+        futures = []
 
         for field, query in field_clauses.items():
             for first_doc_id in self._field_partitions(field):
-                futures.add(
+                futures.append(
                     self.pool.submit(
                         _score_passages_dnf,
                         self,
@@ -2003,7 +2003,9 @@ class Index:
 
         passages = collections.defaultdict(list)
 
-        for future in cf.as_completed(futures):
+        # Collect in order of submission: the order of the passages has to be
+        # reproducible for random samples of them.
+        for future in futures:
             field, _, scores = future.result()
             for doc_id, doc_passages in scores.items():
                 passages[doc_id].extend(doc_passages)
-- 
2.43.0


From 269400676b42396327680cd0e643d4df95ff3339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:19 +0000
Subject: [PATCH 24/41] fix: index tweets without relations together with
 positions

---
 hyperreal/corpus.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index 4c52ca5..9973212 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -1049,4 +1049,10 @@ class TwittersphereCorpus(SqliteBackedCorpus):
         for granularity, dt in rounded_times.items():
             indexed[f"created_{granularity}"] = [dt.isoformat()]
 
+        # Tweets without a relation, or related to an unknown user, have no value to
+        # index - note that the values of sequences can't be None.
+        for field, values in indexed.items():
+            if isinstance(values, list):
+                indexed[field] = [value for value in values if value is not None]
+
         return indexed
-- 
2.43.0


From f3a64ea315e3d4db5cd98ef75362ae4c632f278e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:19 +0000
Subject: [PATCH 25/41] fix: index tweets with malformed links

---
 hyperreal/corpus.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index 9973212..bf58a87 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -922,7 +922,9 @@ class TwittersphereCorpus(SqliteBackedCorpus):
                 }
 
                 doc["external_domains"] = {
-                    urlparse(url).hostname for url in doc["external_urls"]
+                    domain
+                    for domain in map(self._get_domain, doc["external_urls"])
+                    if domain is not None
                 }
 
                 doc["user"] = self._retrieve_user(doc["user_id"])
@@ -960,6 +962,14 @@ class TwittersphereCorpus(SqliteBackedCorpus):
         finally:
             self.db.execute("release docs")
 
+    @staticmethod
+    def _get_domain(url):
+        """Return the domain of the url, or None for malformed and relative URLs."""
+        try:
+            return urlparse(url).hostname
+        except ValueError:
+            return None
+
     def _retrieve_user(self, user_id):
         return list(
             self.db.execute("select * from user_latest where user_id = ?", [user_id])
-- 
2.43.0


From c0a6f526c7cb8d9c0f6e8f2dce7369fc7d688a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:48 +0000
Subject: [PATCH 26/41] fix: show names, tags and texts of posts and tweets as
 text

---
 hyperreal/corpus.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index bf58a87..d47d93b 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -567,12 +567,12 @@ class StackExchangeCorpus(SqliteBackedCorpus):
                         {{ base_fields["DisplayName"] }}
                     </a>
                     {% else %}
-                    <Deleted User>
+                    &lt;Deleted User&gt;
                     {% endif %}
                 </small>
             </p>
 
-            {{ base_fields["Body"] }}
+            {{ base_fields["Body"] | safe }}
 
             <details>
                 <summary>Tags:</summary>
@@ -595,7 +595,7 @@ class StackExchangeCorpus(SqliteBackedCorpus):
                                     {{ comment["DisplayName"] }}
                                 </a>
                                 {% else %}
-                                <Deleted User>
+                                &lt;Deleted User&gt;
                                 {% endif %}
                             </small>
                         </li>
@@ -603,7 +603,9 @@ class StackExchangeCorpus(SqliteBackedCorpus):
                 </ul>
             </details>
         </details>
-        """
+        """,
+        # Only the body of posts is HTML.
+        autoescape=True,
     )
 
     def _get_rendered_doc_fields(self, key):
@@ -979,14 +981,14 @@ class TwittersphereCorpus(SqliteBackedCorpus):
         """
         <div>
             <span>
-            <img src={{ doc["user"]["profile_image_url"] }}>
+            <img src="{{ doc["user"]["profile_image_url"] }}">
             <a href="https://twitter.com/{{ doc["user"]["username"] }}">@{{ doc["user"]["username"] }}</a>
             {{ doc["user"]["name"] }} on <a href="https://twitter.com/{{ doc["user"]["username"] }}/status/{{ doc["tweet_id"] }}">
                 <time datetime="{{ doc['created_at'] }}">{{ doc['created_at'] }}</time>
             </a>
             </span>
 
-            <p>{{ doc["text"] }}</p>
+            <p>{{ text }}</p>
 
             <details>
                 <summary>Metadata</summary>
@@ -998,16 +1000,18 @@ class TwittersphereCorpus(SqliteBackedCorpus):
                     <dt>Retrieved at</dt><dd>{{ doc["retrieved_at"] }}</dd>
                 </dl>
             </details>
-        </div
+        </div>
 
-        """
+        """,
+        autoescape=True,
     )
 
     def render_docs_html(self, doc_keys):
         self.db.execute("savepoint render_docs_html")
 
         docs = [
-            (key, Markup(self.TEMPLATE.render(doc=doc)))
+            # Note that the text of tweets is already escaped by Twitter.
+            (key, Markup(self.TEMPLATE.render(doc=doc, text=html.unescape(doc["text"]))))
             for key, doc in self.docs(doc_keys=doc_keys)
         ]
 
-- 
2.43.0


From 860eee373c11b412257509df6790267d494f6f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:14 +0000
Subject: [PATCH 27/41] fix: leave no transaction open when rendering documents
 fails

---
 hyperreal/corpus.py | 82 ++++++++++++++++++++++++---------------------
 1 file changed, 44 insertions(+), 38 deletions(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index d47d93b..018b98a 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -681,24 +681,26 @@ class StackExchangeCorpus(SqliteBackedCorpus):
         """Render a HTML version of the stackexchange posts, including metadata."""
         self.db.execute("savepoint render_docs_html")
 
-        docs = []
-
-        for key in doc_keys:
-            base_fields, tags, user_comments = self._get_rendered_doc_fields(key)
-            docs.append(
-                (
-                    key,
-                    Markup(
-                        self.TEMPLATE.render(
-                            base_fields=base_fields,
-                            tags=tags,
-                            user_comments=user_comments,
-                        )
-                    ),
+        try:
+            docs = []
+
+            for key in doc_keys:
+                base_fields, tags, user_comments = self._get_rendered_doc_fields(key)
+                docs.append(
+                    (
+                        key,
+                        Markup(
+                            self.TEMPLATE.render(
+                                base_fields=base_fields,
+                                tags=tags,
+                                user_comments=user_comments,
+                            )
+                        ),
+                    )
                 )
-            )
 
-        self.db.execute("release render_docs_html")
+        finally:
+            self.db.execute("release render_docs_html")
 
         return docs
 
@@ -706,23 +708,25 @@ class StackExchangeCorpus(SqliteBackedCorpus):
         """Render a simplified tabular version of the stackexchange posts, including metadata."""
         self.db.execute("savepoint render_docs_spreadsheet")
 
-        docs = []
-
-        for key in doc_keys:
-            base_fields, tags, user_comments = self._get_rendered_doc_fields(key)
-            base_fields["tags"] = ", ".join(tags)
-            base_fields["comments"] = json.dumps(
-                [
-                    {
-                        key: comment[key]
-                        for key in ["DisplayName", "Text", "ContentLicense"]
-                    }
-                    for comment in user_comments
-                ]
-            )
-            docs.append((key, base_fields))
+        try:
+            docs = []
 
-        self.db.execute("release render_docs_spreadsheet")
+            for key in doc_keys:
+                base_fields, tags, user_comments = self._get_rendered_doc_fields(key)
+                base_fields["tags"] = ", ".join(tags)
+                base_fields["comments"] = json.dumps(
+                    [
+                        {
+                            key: comment[key]
+                            for key in ["DisplayName", "Text", "ContentLicense"]
+                        }
+                        for comment in user_comments
+                    ]
+                )
+                docs.append((key, base_fields))
+
+        finally:
+            self.db.execute("release render_docs_spreadsheet")
 
         return docs
 
@@ -1009,13 +1013,15 @@ class TwittersphereCorpus(SqliteBackedCorpus):
     def render_docs_html(self, doc_keys):
         self.db.execute("savepoint render_docs_html")
 
-        docs = [
-            # Note that the text of tweets is already escaped by Twitter.
-            (key, Markup(self.TEMPLATE.render(doc=doc, text=html.unescape(doc["text"]))))
-            for key, doc in self.docs(doc_keys=doc_keys)
-        ]
+        try:
+            docs = [
+                # Note that the text of tweets is already escaped by Twitter.
+                (key, Markup(self.TEMPLATE.render(doc=doc, text=html.unescape(doc["text"]))))
+                for key, doc in self.docs(doc_keys=doc_keys)
+            ]
 
-        self.db.execute("release render_docs_html")
+        finally:
+            self.db.execute("release render_docs_html")
 
         return docs
 
-- 
2.43.0


From 2b5ebe00e924cb9b9e24de57ecb84b1da5a12bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:06 +0000
Subject: [PATCH 28/41] fix: label clusters of the graph with any type of value

---
 hyperreal/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index bee28b3..c598ae0 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1909,7 +1909,7 @@ class Index:
                     f"{field}:{value}" for _, field, value, _ in top_features
                 )
             else:
-                label = ", ".join(value for _, field, value, _ in top_features)
+                label = ", ".join(str(value) for _, field, value, _ in top_features)
 
             graph.add_node(cluster_id, document_count=doc_count, label=label)
 
-- 
2.43.0


From 9b467e019603c3eaa8d55c99a9767149edc39c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:06 +0000
Subject: [PATCH 29/41] fix: model only index files from the command line

---
 hyperreal/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperreal/cli.py b/hyperreal/cli.py
index 0f714a8..f5a2eba 100644
--- a/hyperreal/cli.py
+++ b/hyperreal/cli.py
@@ -376,6 +376,9 @@ def model(
     model with --restart.
 
     """
+    if not hyperreal.index.Index.is_index_db(index_db):
+        raise ValueError(f"{index_db} is not a valid index file.")
+
     doc_index = hyperreal.index.Index(index_db, random_seed=random_seed)
 
     # Check if any clusters exist.
-- 
2.43.0


From d2b0ba63915a2bd3b74442d8fb292b4a164e4554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:45 +0000
Subject: [PATCH 30/41] fix: show concordances when they are asked for

---
 hyperreal/server.py             | 4 ++--
 hyperreal/templates/macros.html | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperreal/server.py b/hyperreal/server.py
index c556705..2e1c9e9 100644
--- a/hyperreal/server.py
+++ b/hyperreal/server.py
@@ -134,7 +134,7 @@ class Cluster:
                         random_sample_size=int(exemplar_docs),
                     )
                 )
-            if result_type == "passage":
+            elif result_type == "passage":
                 passages = cherrypy.request.index.score_passages_dnf(passage_query, 25)
                 search_results = list(
                     cherrypy.request.index.render_passages_table(
@@ -384,7 +384,7 @@ class Index:
                             random_sample_size=int(exemplar_docs),
                         )
                     )
-                if result_type == "passage":
+                elif result_type == "passage":
                     passages = cherrypy.request.index.score_passages_dnf(
                         passage_query, 25
                     )
diff --git a/hyperreal/templates/macros.html b/hyperreal/templates/macros.html
index 00def5d..fda1943 100644
--- a/hyperreal/templates/macros.html
+++ b/hyperreal/templates/macros.html
@@ -121,7 +121,7 @@
 
 
 {% macro render_search_results(results, result_type) -%}
-    {% if result_type == 'concordances' %}
+    {% if result_type == 'concordance' %}
         {{ render_all_field_matches(results) }}
 
     {% elif result_type == 'passage' %}
-- 
2.43.0


From 1b77d4ecd3bd2d2fd373d021fde84073e09d5d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:45 +0000
Subject: [PATCH 31/41] fix: refuse to refine or pin without selected clusters

---
 hyperreal/server.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hyperreal/server.py b/hyperreal/server.py
index 2e1c9e9..c03ebe2 100644
--- a/hyperreal/server.py
+++ b/hyperreal/server.py
@@ -232,6 +232,10 @@ class ClusterOverview:
         return_to="cluster",
         minimum_cluster_features="1",
     ):
+        # The library would take no selection as the whole model.
+        if not cluster_id:
+            raise cherrypy.HTTPError(400, "No clusters selected.")
+
         if target_clusters:
             target_clusters = int(target_clusters)
         else:
@@ -260,6 +264,9 @@ class ClusterOverview:
         Pinned clusters will not be affected by future iterations of the algorithm.
 
         """
+        if not cluster_id:
+            raise cherrypy.HTTPError(400, "No clusters selected.")
+
         cherrypy.request.index.pin_clusters(
             cluster_ids=cherrypy.request.params["cluster_id"], pinned=int(pinned)
         )
-- 
2.43.0


From 170dc2a65f0e06a02d4bc4ef13e959df0b834665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:45 +0000
Subject: [PATCH 32/41] fix: keep the model when a request to recreate it is
 malformed

---
 hyperreal/server.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/hyperreal/server.py b/hyperreal/server.py
index c03ebe2..0da9134 100644
--- a/hyperreal/server.py
+++ b/hyperreal/server.py
@@ -511,15 +511,24 @@ class Index:
         Note that this does not actually run any iterations of refinement.
 
         """
+        # Check everything before replacing the model.
+        clusters = int(clusters)
+        min_docs = int(min_docs)
+        iterations = int(iterations)
+        minimum_cluster_features = int(minimum_cluster_features)
+
+        if iterations < 1:
+            raise cherrypy.HTTPError(400, "At least one iteration is needed.")
+
         cherrypy.request.index.initialise_clusters(
-            n_clusters=int(clusters),
-            min_docs=int(min_docs),
+            n_clusters=clusters,
+            min_docs=min_docs,
             include_fields=include_fields or None,
         )
 
         cherrypy.request.index.refine_clusters(
-            iterations=int(iterations),
-            minimum_cluster_features=int(minimum_cluster_features),
+            iterations=iterations,
+            minimum_cluster_features=minimum_cluster_features,
         )
 
         raise cherrypy.HTTPRedirect(f"/index/{index_id}")
-- 
2.43.0


From c2324cc97141e9614052fc593c10601813e46048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:33 +0000
Subject: [PATCH 33/41] fix: keep the cluster when searching from the page of
 cluster 0

---
 hyperreal/templates/macros.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/templates/macros.html b/hyperreal/templates/macros.html
index fda1943..c0a5471 100644
--- a/hyperreal/templates/macros.html
+++ b/hyperreal/templates/macros.html
@@ -100,7 +100,7 @@
         <label for="site-search">for</label>
         <input type="search" id="target_value" name="value" />
         <button type="submit">Search</button>
-        {% if cluster_id %}
+        {% if cluster_id is not none %}
         <input type="hidden" name="cluster_id" value="{{ cluster_id }}"/>
         {% endif %}
     </form>
-- 
2.43.0


From 9afb98964a0cdaba7c3fb86dce476012546d0be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:32 +0000
Subject: [PATCH 34/41] fix: join values that aren't text in concordances and
 passages

---
 hyperreal/index.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index c598ae0..8f29b54 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -753,7 +753,9 @@ class Index:
                     field_matches[match] = []
                     for window in windows:
                         field_matches[match].append(
-                            join_character.join(w for w in window if w is not None)
+                            join_character.join(
+                                str(w) for w in window if w is not None
+                            )
                         )
 
                 match_concordances[field] = field_matches
@@ -2656,7 +2658,8 @@ def _construct_passages(idx, scored_passages, passage_overhang, combiner_fn=" ".
             for passage in scored_passages[doc_id]:
                 field, start, end = passage[:3]
                 passage_text = combiner_fn(
-                    indexed[field][
+                    str(value)
+                    for value in indexed[field][
                         max(0, start - passage_overhang) : end
                         + 1
                         + passage_overhang
-- 
2.43.0


From 9b1401cf9f29ce707e1fb52eb16abd82f7b25c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:32 +0000
Subject: [PATCH 35/41] fix: pivot without features when none are asked for

---
 hyperreal/index.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 8f29b54..9a1388a 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -2293,8 +2293,9 @@ def _pivot_cluster_features_by_query_jaccard(
         # TODO: find further ways to accelerate this - it seems like most features
         # end up being checked when the similarity is low.
         for max_threshold, f_id, field, value, docs_count in search_order:
-            # Early break if the length threshold can't be reached.
-            if max_threshold < results[0][0]:
+            # Early break if the length threshold can't be reached, or no
+            # features are wanted.
+            if not results or max_threshold < results[0][0]:
                 break
 
             heapq.heappushpop(
-- 
2.43.0


From f60258156a36e9d943d1e84d91ddece6ccbe121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:52 +0000
Subject: [PATCH 36/41] fix: show the links to the neighbouring clusters when
 both are cluster 0

---
 hyperreal/templates/cluster.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/templates/cluster.html b/hyperreal/templates/cluster.html
index 5285055..4aea7d5 100644
--- a/hyperreal/templates/cluster.html
+++ b/hyperreal/templates/cluster.html
@@ -14,7 +14,7 @@
 
 <ul class="nav-links">
     <li><a href="/index/{{ index_id }}/cluster/{{ cluster_id }}">Cluster Overview</a></li>
-    {% if prev_cluster_id or next_cluster_id %}
+    {% if prev_cluster_id is not none or next_cluster_id is not none %}
     <li><a href="/index/{{ index_id }}/cluster/{{ prev_cluster_id }}">Previous Cluster</li>
     <li><a href="/index/{{ index_id }}/cluster/{{ next_cluster_id }}">Next Cluster</li>
     {% endif %}
-- 
2.43.0


From 0eded6e3ac04871cda4699eb1b1ff5973327bf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:52 +0000
Subject: [PATCH 37/41] fix: answer searches for values that are not indexed
 with not found

---
 hyperreal/server.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hyperreal/server.py b/hyperreal/server.py
index 0da9134..19b007f 100644
--- a/hyperreal/server.py
+++ b/hyperreal/server.py
@@ -177,7 +177,10 @@ class Cluster:
 
         """
 
-        feature_id = cherrypy.request.index.lookup_feature_id((field, value))
+        try:
+            feature_id = cherrypy.request.index.lookup_feature_id((field, value))
+        except KeyError:
+            raise cherrypy.HTTPError(404, "This value is not in the index.")
 
         raise cherrypy.HTTPRedirect(
             f"/index/{index_id}/cluster/{cluster_id}/?feature_id={feature_id}"
@@ -442,7 +445,10 @@ class Index:
 
         """
 
-        feature_id = cherrypy.request.index.lookup_feature_id((field, value))
+        try:
+            feature_id = cherrypy.request.index.lookup_feature_id((field, value))
+        except KeyError:
+            raise cherrypy.HTTPError(404, "This value is not in the index.")
 
         if cluster_id is not None:
             raise cherrypy.HTTPRedirect(
-- 
2.43.0


From eece4541637a5b5f1ba77e3d89a874439b350ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:52 +0000
Subject: [PATCH 38/41] fix: refuse to merge when no clusters are selected

---
 hyperreal/server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperreal/server.py b/hyperreal/server.py
index 19b007f..c19466a 100644
--- a/hyperreal/server.py
+++ b/hyperreal/server.py
@@ -218,6 +218,9 @@ class ClusterOverview:
     @cherrypy.tools.allow(methods=["POST"])
     @cherrypy.tools.ensure_list(cluster_id=int)
     def merge(self, index_id, cluster_id=None, **params):
+        if not cluster_id:
+            raise cherrypy.HTTPError(400, "No clusters selected.")
+
         merge_cluster_id = cherrypy.request.index.merge_clusters(
             cherrypy.request.params["cluster_id"]
         )
-- 
2.43.0


From fe8a66d8bd882dcc0a033f0642ce13b55db3bb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:52 +0000
Subject: [PATCH 39/41] fix: go to the model overview after editing a cluster
 away

The page of the cluster no longer exists.
---
 hyperreal/server.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/hyperreal/server.py b/hyperreal/server.py
index c19466a..1fb7e72 100644
--- a/hyperreal/server.py
+++ b/hyperreal/server.py
@@ -48,6 +48,14 @@ def ensure_list(**kwargs):
             cherrypy.request.params[key] = [converter(value)]
 
 
+def model_page(index_id, cluster_id=None):
+    """The page of this cluster, or the model overview if it no longer exists."""
+    if str(cluster_id) in map(str, cherrypy.request.index.cluster_ids):
+        return f"/index/{index_id}/cluster/{cluster_id}"
+
+    return f"/index/{index_id}/"
+
+
 class Cluster:
     @cherrypy.expose
     def index(
@@ -199,11 +207,7 @@ class ClusterOverview:
     def delete(self, index_id, cluster_id=None, return_cluster_id=None, **params):
         cherrypy.request.index.delete_clusters(cherrypy.request.params["cluster_id"])
 
-        if return_cluster_id:
-            redirect_to = f"/index/{index_id}/cluster/{return_cluster_id}"
-        else:
-            redirect_to = f"/index/{index_id}"
-        raise cherrypy.HTTPRedirect(redirect_to)
+        raise cherrypy.HTTPRedirect(model_page(index_id, return_cluster_id))
 
     @cherrypy.expose
     @cherrypy.tools.allow(methods=["POST"])
@@ -212,7 +216,7 @@ class ClusterOverview:
         new_cluster_id = cherrypy.request.index.create_cluster_from_features(
             cherrypy.request.params["feature_id"]
         )
-        raise cherrypy.HTTPRedirect(f"/index/{index_id}/cluster/{new_cluster_id}")
+        raise cherrypy.HTTPRedirect(model_page(index_id, new_cluster_id))
 
     @cherrypy.expose
     @cherrypy.tools.allow(methods=["POST"])
@@ -254,7 +258,7 @@ class ClusterOverview:
             iterations=int(iterations),
         )
         if return_to == "cluster":
-            raise cherrypy.HTTPRedirect(f"/index/{index_id}/cluster/{cluster_id[0]}")
+            raise cherrypy.HTTPRedirect(model_page(index_id, cluster_id[0]))
         else:
             raise cherrypy.HTTPRedirect(
                 f"/index/{index_id}/?cluster_id={cluster_id[0]}"
@@ -294,10 +298,7 @@ class FeatureOverview:
     @cherrypy.tools.ensure_list(feature_id=int)
     def remove_from_model(self, index_id, feature_id=None, cluster_id=None):
         cherrypy.request.index.delete_features(cherrypy.request.params["feature_id"])
-        if cluster_id is not None:
-            raise cherrypy.HTTPRedirect(f"/index/{index_id}/cluster/{cluster_id}")
-        else:
-            raise cherrypy.HTTPRedirect(f"/index/{index_id}/")
+        raise cherrypy.HTTPRedirect(model_page(index_id, cluster_id))
 
     @cherrypy.expose
     @cherrypy.tools.allow(methods=["POST"])
-- 
2.43.0


From e6b2fa5eefeb64389590b730b7c9cdfee77d18f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:39 +0000
Subject: [PATCH 40/41] fix: index documents by their key, whatever order the
 corpus returns them in

---
 hyperreal/index.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 9a1388a..9647bd4 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -2150,6 +2150,29 @@ def _create_segment_tables(db):
     )
 
 
+def _docs_by_key(docs, doc_keys):
+    """
+    Yield the document for each of the given keys, in that order.
+
+    The corpus is free to return its documents in another order: documents are
+    only held in memory here when they arrive earlier than they are needed.
+
+    """
+    docs = iter(docs)
+    early_docs = {}
+
+    for doc_key in doc_keys:
+        while doc_key not in early_docs:
+            try:
+                key, doc = next(docs)
+            except StopIteration:
+                raise ValueError(f"No document with key {doc_key!r}.") from None
+
+            early_docs[key] = doc
+
+        yield early_docs.pop(doc_key)
+
+
 def _index_docs(corpus, doc_ids, doc_keys, temp_db_path, index_positions, write_lock):
     """
     Index all of the given docs into temp_db_path.
@@ -2181,7 +2204,7 @@ def _index_docs(corpus, doc_ids, doc_keys, temp_db_path, index_positions, write_
         first_doc_id = doc_ids[0]
         last_doc_id = doc_ids[-1]
 
-        for doc_id, (_, doc) in zip(doc_ids, docs):
+        for doc_id, doc in zip(doc_ids, _docs_by_key(docs, doc_keys)):
             features = corpus.index(doc)
 
             for field, values in features.items():
-- 
2.43.0


From da787350e00730df44e34140d0495162b7dace2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:39 +0000
Subject: [PATCH 41/41] fix: export sampled documents by their key, whatever
 order the corpus returns them in

---
 hyperreal/index.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 9647bd4..4a06bf6 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -938,11 +938,10 @@ class Index:
             writer.writeheader()
 
             for cluster_id, sample_docs in sample_docs.items():
-                write_docs = self.corpus.render_docs_table(
-                    self.convert_query_to_keys(sample_docs)
-                )
+                doc_keys = self.convert_query_to_keys(sample_docs)
 
-                for doc_id, (key, doc) in zip(sample_docs, write_docs):
+                for key, doc in self.corpus.render_docs_table(doc_keys):
+                    doc_id = doc_keys[key]
                     doc["doc_key"] = key
                     doc["sampled_cluster"] = cluster_id
                     for other_cluster_id, cluster_docs in sample_clusters.items():
-- 
2.43.0

