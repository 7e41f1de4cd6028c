From d94e9083a628c18b6ba6a8da6c8a9584f24fc1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 01/33] fix: run queries with current duckdb and xxhash
 releases

DuckDB 2 removed DuckDBPyConnection.fetch_arrow_table and xxhash 4 rejects str,
so with the (unpinned) dependencies installed every query execution failed.
---
 mixtera/core/query/query.py | 14 ++++++++++++--
 mixtera/utils/utils.py      |  4 ++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/mixtera/core/query/query.py b/mixtera/core/query/query.py
index d92c269..20e6187 100644
--- a/mixtera/core/query/query.py
+++ b/mixtera/core/query/query.py
@@ -11,6 +11,16 @@ from mixtera.core.query.query_result import QueryResult
 from .mixture import Mixture
 
 
+def _fetch_arrow_table(result: Any) -> Any:
+    """
+    Fetches the result of an executed DuckDB statement as a pyarrow table.
+    DuckDB 2 renamed `fetch_arrow_table` to `to_arrow_table`.
+    """
+    if hasattr(result, "fetch_arrow_table"):
+        return result.fetch_arrow_table()
+    return result.to_arrow_table()
+
+
 class Query:
     def __init__(self, job_id: str) -> None:
         self.query_plan = QueryPlan()
@@ -108,7 +118,7 @@ class Query:
 
         # First, we need to get the column names from the base query
         columns_query = f"SELECT * FROM ({base_query}) LIMIT 0"
-        columns = conn.execute(columns_query, parameters).fetch_arrow_table().column_names
+        columns = _fetch_arrow_table(conn.execute(columns_query, parameters)).column_names
 
         # Determine group columns (all columns except 'sample_id')
         group_cols = ["dataset_id", "file_id"] + sorted(
@@ -152,7 +162,7 @@ class Query:
 
         self.results = QueryResult(
             mdc,
-            mdc._connection.execute(full_query, parameters).fetch_arrow_table(),
+            _fetch_arrow_table(conn.execute(full_query, parameters)),
             mixture,
             query_log_dir=query_log_dir,
         )
diff --git a/mixtera/utils/utils.py b/mixtera/utils/utils.py
index a879db4..c8f258c 100644
--- a/mixtera/utils/utils.py
+++ b/mixtera/utils/utils.py
@@ -106,7 +106,7 @@ def hash_list(string_list: list[str]) -> int:
     concatenated_string = "\0".join(string_list)
 
     # Compute the hash using xxhash
-    hash_result = xxhash.xxh64_intdigest(concatenated_string)
+    hash_result = xxhash.xxh64_intdigest(concatenated_string.encode("utf-8"))
 
     return hash_result
 
@@ -142,7 +142,7 @@ def hash_dict(d: dict[str, list[str]]) -> int:
     concatenated_string = "\0".join(concatenated_items)
 
     # Compute the hash using xxhash
-    hash_result = xxhash.xxh64_intdigest(concatenated_string)
+    hash_result = xxhash.xxh64_intdigest(concatenated_string.encode("utf-8"))
 
     return hash_result
 
-- 
2.43.0


From 087a68f59ed41c70c6590e6f32290a3606c1e94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 02/33] fix: arbitrary mixtures no longer loop forever once
 some keys are exhausted

With an even number of keys, skipping two keys whenever an exhausted key is hit
could jump over all keys that still have data, endlessly.
---
 mixtera/core/query/query_result.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 7686459..06bf003 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -511,11 +511,15 @@ class QueryResult:
                     self._persist_mixture_log()
 
                 chunk = None
+                num_skipped_keys = 0
                 while len(empty_key_idx) < len(chunker_index_keys) and chunk is None:
                     chunker_index_keys_idx = (chunker_index_keys_idx + 1) % len(chunker_index_keys)
                     if chunker_index_keys_idx in empty_key_idx:
                         # Note that this can be removed but needs some adjustments in the tests (only impacts ordering)
-                        chunker_index_keys_idx = (chunker_index_keys_idx + 1) % len(chunker_index_keys)
+                        # Going in steps of two may jump over all non-empty keys forever, we hence stop after a round.
+                        if num_skipped_keys < len(chunker_index_keys):
+                            chunker_index_keys_idx = (chunker_index_keys_idx + 1) % len(chunker_index_keys)
+                            num_skipped_keys += 1
                         continue
 
                     key = chunker_index_keys[chunker_index_keys_idx]
@@ -524,6 +528,7 @@ class QueryResult:
                     except StopIteration:
                         # The current key is exhausted; will need to produce chunks from the next available key
                         empty_key_idx.add(chunker_index_keys_idx)
+                        num_skipped_keys = 0
                 chunk_success = True
                 if chunk is None:
                     return  # No need to yield None, if ArbitraryMixture is exhausted, we will never be able to continue
-- 
2.43.0


From 3117986f7b132d6acddc9220ea97f4cfe4cbdd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 03/33] fix: mixtures with components rounded to zero samples

Components with zero samples got empty ranges in the chunk, which the reader then
rejected since its keys do not match the mixture, and redistributing missing samples
among only such components divided by zero.
---
 mixtera/core/query/query_result.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 06bf003..6709fcd 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -360,6 +360,11 @@ class QueryResult:
                     for mixture_key in sorted(remaining_sizes.keys()):
                         # logger.debug(f"Handling key {mixture_key}, remaining sizes: {remaining_sizes}")
 
+                        if remaining_sizes[mixture_key] == 0:
+                            # Nothing (left) to take. Asking the components for 0 samples would put empty ranges into
+                            # the chunk, even for keys for which the chunk does not contain any sample.
+                            continue
+
                         for component_key, iterator in sorted(component_iterators.items(), key=lambda x: x[0]):
                             # logger.debug(f"Checking component key {component_key}")
                             if mixture_key == component_key:
@@ -448,7 +453,11 @@ class QueryResult:
 
                                     total_mixture_size_remaining = sum(mixture[key] for key in target_keys)
 
-                                    ratios = [mixture[key] / total_mixture_size_remaining for key in target_keys]
+                                    if total_mixture_size_remaining > 0:
+                                        ratios = [mixture[key] / total_mixture_size_remaining for key in target_keys]
+                                    else:
+                                        # Only keys which have been rounded to 0 samples are left
+                                        ratios = [1 / len(target_keys)] * len(target_keys)
 
                                     samples_to_distribute = distribute_by_ratio(num_missing_samples, ratios)
 
-- 
2.43.0


From f42e7b47a649c92936262bc9c5da6bc4e33fa584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 04/33] fix: deterministic file order at registration,
 best-effort windows with zero-count components

The file ids (and thus the chunk order) depended on the directory listing order, and
best-effort windowed reading looped forever once only components were left that the
window size rounds down to zero samples.
---
 mixtera/core/datacollection/mixtera_data_collection.py | 4 +++-
 mixtera/core/query/result_chunk.py                     | 5 +++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/datacollection/mixtera_data_collection.py b/mixtera/core/datacollection/mixtera_data_collection.py
index 7f7dd4a..32c25d4 100644
--- a/mixtera/core/datacollection/mixtera_data_collection.py
+++ b/mixtera/core/datacollection/mixtera_data_collection.py
@@ -152,7 +152,9 @@ class MixteraDataCollection:
         if (dataset_id := self._insert_dataset_into_table(identifier, loc, dtype, parsing_func)) == -1:
             return False
 
-        files = list(dtype.iterate_files(loc))
+        # The order in which the file system lists a directory is arbitrary, but it determines the file ids
+        # and thereby the order in which the data is consumed.
+        files = sorted(dtype.iterate_files(loc), key=str)
         if not files:
             logger.warning(f"No files found in {loc} for dataset {identifier}")
             return False
diff --git a/mixtera/core/query/result_chunk.py b/mixtera/core/query/result_chunk.py
index 728d208..d5cc94a 100644
--- a/mixtera/core/query/result_chunk.py
+++ b/mixtera/core/query/result_chunk.py
@@ -440,6 +440,11 @@ class ResultChunk:
                 if nothing_yielded_window:
                     break
 
+            if items_yielded == 0:
+                # All keys that still have data have been rounded down to 0 samples per window. There is no mixture
+                # left to follow, we hand out the remaining data (otherwise, we would loop here forever).
+                element_counts = [(key, max(count, 1)) for key, count in element_counts]
+
     def _iterate_overall_mixture(
         self, active_iterators: dict[MixtureKey, Iterator[Sample]]
     ) -> Iterator[tuple[int, Sample]]:
-- 
2.43.0


From c8628ee3f9dc48b4c6d3e1ff9a203c297900eeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:16 +0000
Subject: [PATCH 05/33] fix: inferred mixtures do not depend on the order of
 the chunker index

The index comes from a C++ hash map, whose order differs between processes; rounding
ties of an inferred mixture were resolved by that order.
---
 mixtera/core/datacollection/index/index_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/datacollection/index/index_utils.py b/mixtera/core/datacollection/index/index_utils.py
index 1bd6659..96f6a5c 100644
--- a/mixtera/core/datacollection/index/index_utils.py
+++ b/mixtera/core/datacollection/index/index_utils.py
@@ -19,7 +19,9 @@ def infer_mixture_from_chunkerindex(chunker_index: ChunkerIndex) -> tuple[int, d
         )
         return mass
 
-    for property_combination, partition_entry in chunker_index.items():
+    # The order of the keys in the index is arbitrary (it stems from a C++ hash map), but the order of the keys
+    # in the mixture has an impact on, e.g., how rounding ties are resolved.
+    for property_combination, partition_entry in sorted(chunker_index.items(), key=lambda entry: entry[0]):
         partition_mass = calculate_partition_mass(partition_entry)
         partition_masses[property_combination] = partition_mass
         total_count += partition_mass
-- 
2.43.0


From 86e7f0694cc4915bead4fe5508a7d518251af189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 06/33] fix: concurrent use of the catalogue, atomic
 registration and removal of datasets

The DuckDB connection was shared by the threads of the server, so that concurrent
operations received each other's results or failed, and an interrupted registration
left a partially registered dataset behind.
---
 .../datacollection/mixtera_data_collection.py | 198 +++++++++++++-----
 mixtera/core/query/query.py                   |  10 +-
 mixtera/network/server/server.py              |   3 +-
 3 files changed, 151 insertions(+), 60 deletions(-)

diff --git a/mixtera/core/datacollection/mixtera_data_collection.py b/mixtera/core/datacollection/mixtera_data_collection.py
index 32c25d4..024aaee 100644
--- a/mixtera/core/datacollection/mixtera_data_collection.py
+++ b/mixtera/core/datacollection/mixtera_data_collection.py
@@ -1,7 +1,9 @@
 import os
+import threading
+from contextlib import contextmanager
 from multiprocessing import Pool
 from pathlib import Path
-from typing import Any, Callable, List, Type
+from typing import Any, Callable, Iterator, List, Type
 
 import dill
 import duckdb
@@ -31,6 +33,16 @@ def process_file_for_metadata(
     return (file_id, metadata_parser.metadata)
 
 
+class _Transactions:
+    """
+    Bookkeeping about the transactions that are currently running on a MixteraDataCollection.
+    """
+
+    def __init__(self) -> None:
+        self.write_lock = threading.RLock()  # Serializes modifications of the catalogue
+        self.cursors: dict[int, duckdb.DuckDBPyConnection] = {}  # thread id -> cursor of its transaction
+
+
 class MixteraDataCollection:
     def __init__(self, directory: Path) -> None:
         if not directory.exists():
@@ -50,8 +62,73 @@ class MixteraDataCollection:
             self._connection = self._load_db_from_disk()
 
         self._configure_duckdb()
+        self._finish_removals()
         self._vacuum()
 
+    @property
+    def _transactions(self) -> _Transactions:
+        return self.__dict__.setdefault("_transaction_state", _Transactions())
+
+    @contextmanager
+    def transaction(self) -> Iterator[duckdb.DuckDBPyConnection]:
+        """
+        All statements that the current thread issues within this context run in a single transaction,
+        i.e., they see one consistent snapshot of the catalogue, and take effect together or not at all.
+        A DuckDB connection must not be used by several threads at the same time,
+        hence every transaction uses a cursor of its own. Nested transactions join the outer one.
+        """
+        cursors = self._transactions.cursors
+        thread_id = threading.get_ident()
+        if thread_id in cursors:
+            yield cursors[thread_id]
+            return
+
+        cur = self._connection.cursor()
+        try:
+            cur.execute("BEGIN TRANSACTION")
+            cursors[thread_id] = cur
+            try:
+                yield cur
+            except BaseException:
+                cur.execute("ROLLBACK")
+                raise
+            cur.execute("COMMIT")
+        finally:
+            cursors.pop(thread_id, None)
+            cur.close()
+
+    def _run_write_transaction(self, operation: Callable[[], bool]) -> bool:
+        """
+        Runs a modification of the catalogue in a transaction, which is only committed if the operation returns True.
+        """
+
+        class OperationFailed(Exception):
+            pass
+
+        with self._transactions.write_lock:
+            try:
+                with self.transaction():
+                    if not operation():
+                        raise OperationFailed()
+            except OperationFailed:
+                return False
+        return True
+
+    def _cursor(self) -> duckdb.DuckDBPyConnection:
+        """
+        Returns the cursor of the current thread's transaction, or a new one outside of a transaction.
+        """
+        cur = self._transactions.cursors.get(threading.get_ident())
+        return cur if cur is not None else self._connection.cursor()
+
+    def _finish_removals(self) -> None:
+        """
+        Deletes the entries of removed datasets. DuckDB does not allow to delete the referencing and the referenced
+        rows in the same transaction. Hence, removing a dataset deletes its samples and files, and a dataset without
+        files does not exist anymore. Its remaining entry only blocks the name.
+        """
+        self._connection.cursor().execute("DELETE FROM datasets WHERE id NOT IN (SELECT dataset_id FROM files)")
+
     def _configure_duckdb(self) -> None:
         # TODO(#118): Make number of cores and memory configurable
         assert self._connection is not None, "Cannot configure DuckDB as connection is None"
@@ -122,12 +199,12 @@ class MixteraDataCollection:
 
     def _vacuum(self) -> None:
         logger.info("Vacuuming the DuckDB.")
-        self._connection.execute("VACUUM")
+        self._cursor().execute("VACUUM")
         logger.info("Vacuumd.")
 
     def get_db_version(self) -> int:
         assert self._connection, "Not connected to db!"
-        cur = self._connection.cursor()
+        cur = self._cursor()
         cur.execute("SELECT version_number FROM version WHERE id = 1")
         version = cur.fetchone()
         assert version, "Could not fetch version from DB!"
@@ -135,11 +212,7 @@ class MixteraDataCollection:
 
     def _db_incr_version(self) -> None:
         assert self._connection, "Not connected to db!"
-        current_version = self.get_db_version()
-        cur = self._connection.cursor()
-        new_version = current_version + 1
-        cur.execute("UPDATE version SET version_number = ? WHERE id = 1", (new_version,))
-        self._connection.commit()
+        self._cursor().execute("UPDATE version SET version_number = version_number + 1 WHERE id = 1")
 
     def register_dataset(
         self,
@@ -148,6 +221,26 @@ class MixteraDataCollection:
         dtype: Type[Dataset],
         parsing_func: Callable[[str], str],
         metadata_parser_type: str,
+    ) -> bool:
+        with self._transactions.write_lock:
+            self._finish_removals()
+            if not self._run_write_transaction(
+                lambda: self._register_dataset(identifier, loc, dtype, parsing_func, metadata_parser_type)
+            ):
+                return False
+
+        self._vacuum()
+
+        logger.info("Finished dataset registration.")
+        return True
+
+    def _register_dataset(
+        self,
+        identifier: str,
+        loc: str,
+        dtype: Type[Dataset],
+        parsing_func: Callable[[str], str],
+        metadata_parser_type: str,
     ) -> bool:
         if (dataset_id := self._insert_dataset_into_table(identifier, loc, dtype, parsing_func)) == -1:
             return False
@@ -198,9 +291,6 @@ class MixteraDataCollection:
         logger.info("All tasks finished.")
 
         self._db_incr_version()
-        self._vacuum()
-
-        logger.info("Finished dataset registration.")
         return True
 
     def _insert_dataset_into_table(
@@ -227,9 +317,8 @@ class MixteraDataCollection:
 
         try:
             query = "INSERT INTO datasets (name, location, type, parsing_func) VALUES (?, ?, ?, ?) RETURNING id;"
-            cur = self._connection.cursor()
+            cur = self._cursor()
             result = cur.execute(query, (identifier, loc, type_id, serialized_parsing_func)).fetchone()
-            self._connection.commit()
 
             if result is None:
                 logger.error("result is None without any DuckDB error. This should not happen.")
@@ -252,7 +341,8 @@ class MixteraDataCollection:
         df_files = pl.DataFrame(
             [(dataset_id, str(loc)) for loc in locs], schema=["dataset_id", "location"], orient="row"
         )
-        self._connection.register("df_files", df_files)
+        cur = self._cursor()
+        cur.register("df_files", df_files)
         logger.info(f"Inserting {len(locs)} files for dataset id = {dataset_id}")
 
         try:
@@ -262,7 +352,7 @@ class MixteraDataCollection:
             SELECT dataset_id, location FROM df_files
             RETURNING id, location;
             """
-            result = self._connection.execute(insert_query).fetchall()
+            result = cur.execute(insert_query).fetchall()
 
             # Create a mapping from location to id
             id_map = {loc: fid for fid, loc in result}
@@ -274,14 +364,13 @@ class MixteraDataCollection:
             logger.error(f"DuckDB error during insertion of files: {err}")
             return []
         finally:
-            self._connection.unregister("df_files")
+            cur.unregister("df_files")
 
-        self._connection.commit()
         self._db_incr_version()
         return file_ids
 
     def _add_columns_to_samples_table(self, properties: list[MetadataProperty]) -> None:
-        cur = self._connection.cursor()
+        cur = self._cursor()
 
         # Fetch all existing column names once
         cur.execute("SELECT name FROM pragma_table_info('samples');")
@@ -318,8 +407,6 @@ class MixteraDataCollection:
                 alter_query = f"ALTER TABLE samples ADD COLUMN {prop.name} {column_type} {nullable_str};"
                 cur.execute(alter_query)
 
-            self._connection.commit()
-
     def _insert_samples_with_metadata(
         self, dataset_id: int, results: list[tuple[int, list[dict]]], properties: list[MetadataProperty]
     ) -> None:
@@ -371,21 +458,21 @@ class MixteraDataCollection:
         # It is important to specify the columns in the insertion query
         # Otherwise we do not guarantee that the values silently land in a different column.
         columns = ", ".join(all_columns)
+        cur = self._cursor()
         try:
-            self._connection.register("samples_data", table)
-            self._connection.execute(f"INSERT INTO samples ({columns}) SELECT {columns} FROM samples_data")
-            self._connection.commit()
+            cur.register("samples_data", table)
+            cur.execute(f"INSERT INTO samples ({columns}) SELECT {columns} FROM samples_data")
             logger.debug("Data inserted successfully.")
         except Exception as e:
             logger.error(f"Error during data insertion using PyArrow Table: {e}")
             raise
         finally:
-            self._connection.unregister("samples_data")
+            cur.unregister("samples_data")
 
     def check_dataset_exists(self, identifier: str) -> bool:
         try:
-            query = "SELECT COUNT(*) from datasets WHERE name = ?;"
-            cur = self._connection.cursor()
+            query = "SELECT COUNT(*) from datasets WHERE name = ? AND id IN (SELECT dataset_id FROM files);"
+            cur = self._cursor()
             result = cur.execute(query, (identifier,)).fetchone()
         except duckdb.Error as err:
             logger.error(f"A DuckDB error occurred during selection: {err}")
@@ -400,8 +487,8 @@ class MixteraDataCollection:
 
     def list_datasets(self) -> List[str]:
         try:
-            query = "SELECT name from datasets;"
-            cur = self._connection.cursor()
+            query = "SELECT name from datasets WHERE id IN (SELECT dataset_id FROM files) ORDER BY id;"
+            cur = self._cursor()
             result = cur.execute(query).fetchall()
         except duckdb.Error as err:
             logger.error(f"A DuckDB error occurred during selection: {err}")
@@ -410,45 +497,41 @@ class MixteraDataCollection:
         return [dataset[0] for dataset in result]
 
     def remove_dataset(self, identifier: str) -> bool:
-        if not self.check_dataset_exists(identifier):
-            logger.error(f"Dataset {identifier} does not exist.")
-            return False
-
         try:
-            delete_samples_query = """
-            DELETE FROM samples
-            WHERE dataset_id IN (
-                SELECT id FROM datasets WHERE name = ?
-            );
-            """
-            cur = self._connection.cursor()
-            cur.execute(delete_samples_query, (identifier,))
-
-            delete_files_query = """
-            DELETE FROM files
-            WHERE dataset_id IN (
-                SELECT id FROM datasets WHERE name = ?
-            );
-            """
-            cur.execute(delete_files_query, (identifier,))
-
-            delete_dataset_query = "DELETE FROM datasets WHERE name = ?;"
-            cur.execute(delete_dataset_query, (identifier,))
-            self._connection.commit()
-            self._db_incr_version()
+            with self._transactions.write_lock:
+                if not self._run_write_transaction(lambda: self._remove_samples_and_files(identifier)):
+                    return False
+
+                try:
+                    self._finish_removals()
+                except duckdb.Error as err:
+                    logger.error(f"Could not delete the entry of {identifier} yet: {err}")
         except duckdb.Error as err:
             logger.error(f"A DuckDB error occurred during deletion: {err}")
             return False
 
         return True
 
+    def _remove_samples_and_files(self, identifier: str) -> bool:
+        if not self.check_dataset_exists(identifier):
+            logger.error(f"Dataset {identifier} does not exist.")
+            return False
+
+        cur = self._cursor()
+        for table in ("samples", "files"):
+            cur.execute(
+                f"DELETE FROM {table} WHERE dataset_id IN (SELECT id FROM datasets WHERE name = ?);", (identifier,)
+            )
+        self._db_incr_version()
+        return True
+
     def _get_all_files(self) -> list[tuple[int, int, Type[Dataset], str]]:
         try:
             query = (
                 "SELECT files.id, files.dataset_id, files.location, datasets.type"
                 + " from files JOIN datasets ON files.dataset_id = datasets.id;"
             )
-            cur = self._connection.cursor()
+            cur = self._cursor()
             result = cur.execute(query).fetchall()
         except duckdb.Error as err:
             logger.error(f"A DuckDB error occurred during selection: {err}")
@@ -459,7 +542,7 @@ class MixteraDataCollection:
     def _get_dataset_func_by_id(self, did: int) -> Callable[[str], str]:
         try:
             query = "SELECT parsing_func from datasets WHERE id = ?;"
-            cur = self._connection.cursor()
+            cur = self._cursor()
             result = cur.execute(query, (did,)).fetchone()
         except duckdb.Error as err:
             logger.error(f"Error while selecting parsing_func for did {did}")
@@ -473,7 +556,7 @@ class MixteraDataCollection:
     def _get_dataset_type_by_id(self, did: int) -> Type[Dataset]:
         try:
             query = "SELECT type from datasets WHERE id = ?;"
-            cur = self._connection.cursor()
+            cur = self._cursor()
             result = cur.execute(query, (did,)).fetchone()
         except duckdb.Error as err:
             logger.error(f"Error while selecting parsing_func for did {did}")
@@ -492,7 +575,7 @@ class MixteraDataCollection:
     def _get_file_path_by_id(self, fid: int) -> str:
         try:
             query = "SELECT location from files WHERE id = ?;"
-            cur = self._connection.cursor()
+            cur = self._cursor()
             result = cur.execute(query, (fid,)).fetchone()
         except duckdb.Error as err:
             logger.error(f"Error while selecting location for fid {fid}")
@@ -598,6 +681,7 @@ class MixteraDataCollection:
         # We cannot pickle the DuckDB connection.
         d = dict(self.__dict__)
         del d["_connection"]
+        d.pop("_transaction_state", None)
         return d
 
     def __setstate__(self, state: dict) -> None:
diff --git a/mixtera/core/query/query.py b/mixtera/core/query/query.py
index 20e6187..5a7f287 100644
--- a/mixtera/core/query/query.py
+++ b/mixtera/core/query/query.py
@@ -89,8 +89,15 @@ class Query:
             mixture_log: A path where the mixture over time should be logged
         """
         logger.debug(f"Executing query locally with chunk size {mixture.chunk_size}")
-        conn = mdc._connection
+        with mdc.transaction() as conn:
+            # The query and the metadata belonging to its result need to see the same state of the catalogue
+            self._execute(conn, mdc, mixture, query_log_dir)
 
+        logger.debug("Query executed.")
+
+    def _execute(
+        self, conn: Any, mdc: MixteraDataCollection, mixture: Mixture, query_log_dir: Path | None = None
+    ) -> None:
         # -- BEGIN INNER SELECTION QUERY GENERATION  -- #
         # Fetch the table schema
         schema_query = "PRAGMA table_info('samples');"
@@ -168,4 +175,3 @@ class Query:
         )
 
         logger.debug(f"Results:\n{self.results}")
-        logger.debug("Query executed.")
diff --git a/mixtera/network/server/server.py b/mixtera/network/server/server.py
index 5aa9572..4544ea9 100644
--- a/mixtera/network/server/server.py
+++ b/mixtera/network/server/server.py
@@ -314,7 +314,8 @@ class MixteraServer:
             writer (asyncio.StreamWriter): The stream writer to write data to the client.
         """
         identifier = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
-        success = self._local_stub.remove_dataset(identifier)
+        # This might have to wait for a running registration.
+        success = await asyncio.to_thread(self._local_stub.remove_dataset, identifier)
         await write_int(int(success), NUM_BYTES_FOR_IDENTIFIERS, writer)
 
     async def _add_property(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
-- 
2.43.0


From 894396a443db741f380efb73cfb5e9b63978f961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:25 +0000
Subject: [PATCH 07/33] fix: the query cache never serves or exposes outdated,
 incomplete or foreign entries

The database version of an entry was read after the query had been executed, the
metadata marking an entry as valid was written before its data, and the directory name
of a removed entry was used again while running jobs still referred to it.
---
 mixtera/core/client/local/local_stub.py | 28 +++++++++++++------------
 mixtera/core/query/query_cache.py       | 22 +++++++++----------
 2 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/mixtera/core/client/local/local_stub.py b/mixtera/core/client/local/local_stub.py
index 442476f..444ed25 100644
--- a/mixtera/core/client/local/local_stub.py
+++ b/mixtera/core/client/local/local_stub.py
@@ -78,19 +78,21 @@ class LocalStub(MixteraClient):
             return False
 
         cache_path = None
-        if (cached_results := self._query_cache.get_queryresults_if_cached(query)) is not None:
-            query.results = cached_results[0]
-            cache_path = cached_results[1]
-            assert (
-                query.results._num_returns_gen == 0
-            ), "We cached a query that already has returned items, this should not happen!"
-            query.results._query_log_dir = self.mixture_log_directory / query.job_id
-            query.results._query_log_dir.mkdir(exist_ok=True)
-            query.results._key_id_map = {}  # reset map to trigger update of mixture id map
-            query.results.update_mixture(args.mixture)
-        else:
-            query.execute(self._mdc, args.mixture, self.mixture_log_directory / query.job_id)
-            cache_path = self._query_cache.cache_query(query)
+        # The database version stored in the cache needs to belong to the data that the query has seen.
+        with self._mdc.transaction():
+            if (cached_results := self._query_cache.get_queryresults_if_cached(query)) is not None:
+                query.results = cached_results[0]
+                cache_path = cached_results[1]
+                assert (
+                    query.results._num_returns_gen == 0
+                ), "We cached a query that already has returned items, this should not happen!"
+                query.results._query_log_dir = self.mixture_log_directory / query.job_id
+                query.results._query_log_dir.mkdir(exist_ok=True)
+                query.results._key_id_map = {}  # reset map to trigger update of mixture id map
+                query.results.update_mixture(args.mixture)
+            else:
+                query.execute(self._mdc, args.mixture, self.mixture_log_directory / query.job_id)
+                cache_path = self._query_cache.cache_query(query)
         return self._register_query(
             query, args.mixture, args.dp_groups, args.nodes_per_group, args.num_workers, cache_path
         )
diff --git a/mixtera/core/query/query_cache.py b/mixtera/core/query/query_cache.py
index c909cc2..f069c38 100644
--- a/mixtera/core/query/query_cache.py
+++ b/mixtera/core/query/query_cache.py
@@ -2,6 +2,7 @@ import hashlib
 import os
 import pickle
 import shutil
+import uuid
 from pathlib import Path
 
 from loguru import logger
@@ -31,27 +32,24 @@ class QueryCache:
         hash_dir = self.directory / query_hash
         hash_dir.mkdir(exist_ok=True)
 
-        existing_dirs = sorted([int(d.name) for d in hash_dir.iterdir() if d.is_dir() and d.name.isdigit()])
-        if existing_dirs:
-            next_number = existing_dirs[-1] + 1
-        else:
-            next_number = 0
-
-        query_dir = hash_dir / str(next_number)
+        # Jobs refer to the directory of their cached result, so that its name must not be used again after its removal.
+        query_dir = hash_dir / str(uuid.uuid4().int)
         query_dir.mkdir()
 
         # Prepare the cache metadata
         db_ver = self._mdc.get_db_version()
         cache_obj = {"db_version": db_ver, "query_str": str(query)}
 
-        # Save the metadata
-        meta_path = query_dir / "meta.pkl"
-        with meta_path.open("wb") as f:
-            pickle.dump(cache_obj, f, protocol=pickle.HIGHEST_PROTOCOL)
-
         # Call the to_cache method on query.results to serialize it
         query.results.to_cache(query_dir)
 
+        # Save the metadata. Its existence marks a complete entry, hence it is written last and appears at once.
+        meta_path = query_dir / "meta.pkl"
+        tmp_meta_path = query_dir / "meta.pkl.tmp"
+        with tmp_meta_path.open("wb") as f:
+            pickle.dump(cache_obj, f, protocol=pickle.HIGHEST_PROTOCOL)
+        os.replace(tmp_meta_path, meta_path)
+
         logger.debug(f"QueryResult saved to {query_dir}")
         return query_dir
 
-- 
2.43.0


From bc1de327702154d216c95b15bab04e6ead12123e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 08/33] fix: a failed vacuum does not turn a completed
 registration into a failure

---
 mixtera/core/datacollection/mixtera_data_collection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/datacollection/mixtera_data_collection.py b/mixtera/core/datacollection/mixtera_data_collection.py
index 024aaee..e265d5a 100644
--- a/mixtera/core/datacollection/mixtera_data_collection.py
+++ b/mixtera/core/datacollection/mixtera_data_collection.py
@@ -229,7 +229,11 @@ class MixteraDataCollection:
             ):
                 return False
 
-        self._vacuum()
+        try:
+            self._vacuum()
+        except duckdb.Error as err:
+            # The dataset is already committed.
+            logger.error(f"Could not vacuum the DuckDB: {err}")
 
         logger.info("Finished dataset registration.")
         return True
-- 
2.43.0


From dacb64e88fdcff6778e668b35e239dc7c6b9edf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:50 +0000
Subject: [PATCH 09/33] fix: a connection closed within a message is an error
 and not a value

---
 mixtera/network/network_utils.py | 45 ++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/mixtera/network/network_utils.py b/mixtera/network/network_utils.py
index 869a749..081d2b5 100644
--- a/mixtera/network/network_utils.py
+++ b/mixtera/network/network_utils.py
@@ -48,6 +48,17 @@ async def read_bytes(num_bytes: int, reader: asyncio.StreamReader, timeout: floa
     return buffer
 
 
+async def _read_body(num_bytes: int, reader: asyncio.StreamReader, timeout: float = 10.0) -> bytearray:
+    """
+    Reads the part of a message that follows its header. In contrast to `read_bytes`, a connection that is closed
+    before any byte could be read is an error, because the connection was closed in the middle of the message.
+    """
+    data = await read_bytes(num_bytes, reader, timeout=timeout)
+    if data is None:
+        raise ConnectionError(f"Connection closed while we still have {num_bytes} bytes to read.")
+    return data
+
+
 async def write_bytes_obj(
     data: bytes | None, size_bytes: int, writer: asyncio.StreamWriter, drain: bool = True
 ) -> None:
@@ -93,21 +104,23 @@ async def read_bytes_obj(size_bytes: int, reader: asyncio.StreamReader, timeout:
         reader (asyncio.StreamReader): The stream reader to read the data from.
 
     Returns:
-        bytes | None: The read bytes object, or None if the size header indicated zero length
-                      or if an error occurred during reading.
+        bytes | None: The read bytes object, or None if the size header indicated zero length.
 
     Raises:
         asyncio.TimeoutError: If a timeout occurs while reading (inherited from read_int and read_bytes).
+        ConnectionError: If the connection is closed before the bytes object has been read.
 
     Note:
         The size header is expected to be in big-endian format.
     """
 
-    if (obj_size := await read_int(size_bytes, reader, timeout=timeout)) is not None:
-        if obj_size == 0:
-            return None
-        return await read_bytes(obj_size, reader, timeout=timeout)
-    return None
+    obj_size = await read_int(size_bytes, reader, timeout=timeout)
+    if obj_size is None:
+        # None is a valid bytes object, i.e., we cannot use it to inform the caller about the closed connection.
+        raise ConnectionError("Connection closed while waiting for a bytes object.")
+    if obj_size == 0:
+        return None
+    return await _read_body(obj_size, reader, timeout=timeout)
 
 
 async def read_int(num_bytes: int, reader: asyncio.StreamReader, timeout: float = 10.0) -> Optional[int]:
@@ -156,8 +169,7 @@ async def read_utf8_string(size_bytes: int, reader: asyncio.StreamReader, timeou
         asyncio.TimeoutError: If the timeout is exceeded before `num_bytes` could be read.
     """
     if (string_size := await read_int(size_bytes, reader, timeout=timeout)) is not None:
-        if (string_data := await read_bytes(string_size, reader, timeout=timeout)) is not None:
-            return string_data.decode("utf-8")
+        return (await _read_body(string_size, reader, timeout=timeout)).decode("utf-8")
     return None
 
 
@@ -203,14 +215,16 @@ async def read_pickeled_object(size_bytes: int, reader: asyncio.StreamReader) ->
         size_bytes (int): The size of the header in bytes.
         reader (asyncio.StreamReader): The stream reader from which to read.
     Returns:
-        Optional[str]: The read string. None, if error occurs.
+        Any: The read object.
     Raises:
         asyncio.TimeoutError: If the timeout is exceeded before `num_bytes` could be read.
+        ConnectionError: If the connection is closed before the object has been read.
     """
-    if (obj_size := await read_int(size_bytes, reader)) is not None:
-        if (obj_data := await read_bytes(obj_size, reader)) is not None:
-            return dill.loads(obj_data)
-    return None
+    obj_size = await read_int(size_bytes, reader)
+    if obj_size is None:
+        # None is a valid object, i.e., we cannot use it to inform the caller about the closed connection.
+        raise ConnectionError("Connection closed while waiting for an object.")
+    return dill.loads(await _read_body(obj_size, reader))
 
 
 async def write_float(data: float, writer: asyncio.StreamWriter, drain: bool = True) -> None:
@@ -273,6 +287,9 @@ async def read_numpy_array(
     id_bytes: int, size_bytes: int, reader: asyncio.StreamReader, timeout: float = 10.0
 ) -> np.ndarray | None:
     not_none_flag = await read_int(id_bytes, reader, timeout=timeout)
+    if not_none_flag is None:
+        # None is a valid array, i.e., we cannot use it to inform the caller about the closed connection.
+        raise ConnectionError("Connection closed while waiting for an array.")
     if not_none_flag == 0:
         return None
     result = await read_bytes_obj(size_bytes, reader, timeout=timeout)
-- 
2.43.0


From fab135f72ae2ff5b44dccf1f66d3b5461a0b3b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:09 +0000
Subject: [PATCH 10/33] fix: the client reports failed requests instead of
 treating them as an answer

---
 .../network/connection/server_connection.py   | 106 +++++++++++-------
 1 file changed, 63 insertions(+), 43 deletions(-)

diff --git a/mixtera/network/connection/server_connection.py b/mixtera/network/connection/server_connection.py
index 27d1435..4deed15 100644
--- a/mixtera/network/connection/server_connection.py
+++ b/mixtera/network/connection/server_connection.py
@@ -52,7 +52,7 @@ class ServerConnection:
         self._host = host
         self._port = port
 
-    async def _fetch_file(self, file_path: str) -> Optional[str]:
+    async def _fetch_file(self, file_path: str) -> str:
         """
         Asynchronously fetches the content of a file from the server.
 
@@ -60,16 +60,18 @@ class ServerConnection:
             file_path (str): The path of the file to be fetched from the server.
 
         Returns:
-            The content of the file as a string, or None if the connection fails.
+            The content of the file as a string.
+
+        Raises:
+            ConnectionError: If the connection fails.
         """
         async with self._connect_to_server() as (reader, writer):
-            if reader is None or writer is None:
-                return None
+            self._require_connection(reader)
 
             await write_int(int(ServerTask.READ_FILE), NUM_BYTES_FOR_IDENTIFIERS, writer)
             await write_utf8_string(file_path, NUM_BYTES_FOR_IDENTIFIERS, writer)
 
-            return await read_utf8_string(NUM_BYTES_FOR_SIZES, reader)
+            return self._require(await read_utf8_string(NUM_BYTES_FOR_SIZES, reader))
 
     def get_file_iterable(self, file_path: str) -> Iterable[str]:
         """
@@ -80,10 +82,11 @@ class ServerConnection:
 
         Yields:
             The lines of the file as an iterable, line by line.
-            An empty iterator if the connection fails.
+
+        Raises:
+            ConnectionError: If the connection fails.
         """
-        if (lines := run_async_until_complete(self._fetch_file(file_path))) is None:
-            return
+        lines = run_async_until_complete(self._fetch_file(file_path))
 
         yield from lines.split("\n")
 
@@ -102,10 +105,10 @@ class ServerConnection:
             A tuple containing the StreamReader and StreamWriter objects if the connection is successful,
             or (None, None) if the connection ultimately fails after the maximum number of retries.
         """
-        yielded = False
         reader = writer = None
+        attempts = -1
         try:
-            attempts = -1
+            # Only the connection establishment is retried, but never the request, since it might not be idempotent.
             async for attempt in AsyncRetrying(
                 stop=stop_after_attempt(max_retries),
                 wait=wait_random_exponential(multiplier=1, min=2, max=60),
@@ -120,13 +123,12 @@ class ServerConnection:
                         raise RuntimeError("reader or writer are None.")
 
                     writer.get_extra_info("socket").setsockopt(socket.SOL_SOCKET, socket.SO_KEEPALIVE, 1)
-                    yield reader, writer
-                    yielded = True
-
         except Exception as e:  # pylint: disable=broad-exception-caught
             logger.error(f"[attempts = {attempts}] Error while connecting to server: {e}")
-            yield None, None
-            yielded = True
+            reader = writer = None
+
+        try:
+            yield reader, writer
         finally:
             if writer is not None:
                 try:
@@ -135,8 +137,26 @@ class ServerConnection:
                 except Exception as e:  # pylint: disable=broad-exception-caught
                     logger.error(f"Error closing connection: {e}")
 
-        if not yielded:
-            yield None, None
+    def _require(self, value: Any) -> Any:
+        """
+        Ensures that we never mistake a failed request for an answer of the server.
+
+        Args:
+            value: A part of the answer that has been read from the server.
+
+        Returns:
+            The value.
+
+        Raises:
+            ConnectionError: If there is no value since the connection was closed by the server.
+        """
+        if value is None:
+            raise ConnectionError(f"The server at {self._host}:{self._port} closed the connection without answering.")
+        return value
+
+    def _require_connection(self, reader: Optional[asyncio.StreamReader]) -> None:
+        if reader is None:
+            raise ConnectionError(f"Cannot connect to the server at {self._host}:{self._port}.")
 
     async def _execute_query(self, query: "Query", args: "QueryExecutionArgs") -> bool:
         """
@@ -223,12 +243,13 @@ class ServerConnection:
 
         Returns:
             An ResultChunk object representing the next result chunk,
-            or None if there are no more results or the connection fails.
+            or None if there are no more results.
+
+        Raises:
+            ConnectionError: If the connection fails.
         """
         async with self._connect_to_server() as (reader, writer):
-
-            if reader is None or writer is None:
-                return None
+            self._require_connection(reader)
 
             # Announce we want to get a result chunk
             await write_int(int(ServerTask.GET_NEXT_RESULT_CHUNK), NUM_BYTES_FOR_IDENTIFIERS, writer)
@@ -344,14 +365,15 @@ class ServerConnection:
             await write_int(dtype.value, NUM_BYTES_FOR_IDENTIFIERS, writer)
             await write_pickeled_object(parsing_func, NUM_BYTES_FOR_SIZES, writer)
             await write_utf8_string(metadata_parser_identifier, NUM_BYTES_FOR_IDENTIFIERS, writer)
-            job_id = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
+            job_id = self._require(await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader))
 
         while True:
             async with self._connect_to_server() as (reader, writer):
                 # Step 2: Poll for registration status every second.
+                self._require_connection(reader)
                 await write_int(int(ServerTask.DATASET_REGISTRATION_STATUS), NUM_BYTES_FOR_IDENTIFIERS, writer)
                 await write_utf8_string(job_id, NUM_BYTES_FOR_IDENTIFIERS, writer)
-                status = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
+                status = self._require(await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader))
                 if status == 0:
                     logger.debug("Still waiting for dataset registration to finish at server.")
                     await asyncio.sleep(1)
@@ -417,11 +439,12 @@ class ServerConnection:
 
         Returns:
             A boolean indicating whether the dataset exists on the server.
+
+        Raises:
+            ConnectionError: If the connection fails.
         """
         async with self._connect_to_server() as (reader, writer):
-
-            if reader is None or writer is None:
-                return False
+            self._require_connection(reader)
 
             # Announce we want to check if a dataset exists
             await write_int(int(ServerTask.CHECK_DATASET_EXISTS), NUM_BYTES_FOR_IDENTIFIERS, writer)
@@ -429,7 +452,7 @@ class ServerConnection:
             # Announce dataset identifier
             await write_utf8_string(identifier, NUM_BYTES_FOR_IDENTIFIERS, writer)
 
-            return bool(await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader))
+            return bool(self._require(await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)))
 
     def list_datasets(self) -> list[str]:
         """
@@ -446,11 +469,12 @@ class ServerConnection:
 
         Returns:
             A list of strings, each representing a dataset identifier.
+
+        Raises:
+            ConnectionError: If the connection fails.
         """
         async with self._connect_to_server() as (reader, writer):
-
-            if reader is None or writer is None:
-                return []
+            self._require_connection(reader)
 
             # Announce we want to list datasets
             await write_int(int(ServerTask.LIST_DATASETS), NUM_BYTES_FOR_IDENTIFIERS, writer)
@@ -614,10 +638,9 @@ class ServerConnection:
     def checkpoint(self, job_id: str, dp_group_id: int, node_id: int, worker_status: list[int]) -> str:
         return run_async_until_complete(self._checkpoint(job_id, dp_group_id, node_id, worker_status))
 
-    async def _checkpoint(self, job_id: str, dp_group_id: int, node_id: int, worker_status: list[int]) -> str | None:
+    async def _checkpoint(self, job_id: str, dp_group_id: int, node_id: int, worker_status: list[int]) -> str:
         async with self._connect_to_server() as (reader, writer):
-            if reader is None or writer is None:
-                return None
+            self._require_connection(reader)
 
             # Announce we want to perform a checkpoint
             await write_int(int(ServerTask.CHECKPOINT), NUM_BYTES_FOR_IDENTIFIERS, writer)
@@ -636,15 +659,14 @@ class ServerConnection:
 
             # Read checkpoint ID from the server
             chkpnt_id = await read_utf8_string(NUM_BYTES_FOR_SIZES, reader, timeout=60 * 60)
-            return chkpnt_id
+            return self._require(chkpnt_id)
 
     def checkpoint_completed(self, job_id: str, chkpnt_id: str, on_disk: bool) -> bool:
         return run_async_until_complete(self._checkpoint_completed(job_id, chkpnt_id, on_disk))
 
     async def _checkpoint_completed(self, job_id: str, chkpnt_id: str, on_disk: bool) -> bool:
         async with self._connect_to_server() as (reader, writer):
-            if reader is None or writer is None:
-                return False
+            self._require_connection(reader)
 
             # Announce we want to check if a checkpoint is completed
             await write_int(int(ServerTask.CHECKPOINT_COMPLETED), NUM_BYTES_FOR_IDENTIFIERS, writer)
@@ -658,15 +680,14 @@ class ServerConnection:
 
             # Read success flag from the server
             success = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader, timeout=60 * 60 + 5 * 60)
-            return bool(success)
+            return bool(self._require(success))
 
     def restore_checkpoint(self, job_id: str, chkpnt_id: str) -> None:
         return run_async_until_complete(self._restore_checkpoint(job_id, chkpnt_id))
 
     async def _restore_checkpoint(self, job_id: str, chkpnt_id: str) -> None:
         async with self._connect_to_server() as (reader, writer):
-            if reader is None or writer is None:
-                return
+            self._require_connection(reader)
 
             # Announce we want to restore a checkpoint
             await write_int(int(ServerTask.RESTORE_CHECKPOINT), NUM_BYTES_FOR_IDENTIFIERS, writer)
@@ -675,7 +696,7 @@ class ServerConnection:
             await write_utf8_string(job_id, NUM_BYTES_FOR_IDENTIFIERS, writer)
             await write_utf8_string(chkpnt_id, NUM_BYTES_FOR_IDENTIFIERS, writer)
 
-            server_job_id = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
+            server_job_id = self._require(await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader))
 
             if job_id != server_job_id:
                 logger.error(f"Instead of {job_id}, server returned {server_job_id}...")
@@ -710,12 +731,11 @@ class ServerConnection:
 
     async def _check_query_exec_status(self, job_id: str) -> int:
         async with self._connect_to_server() as (reader, writer):
-            if reader is None or writer is None:
-                return False
+            self._require_connection(reader)
 
             await write_int(int(ServerTask.QUERY_EXEC_STATUS), NUM_BYTES_FOR_IDENTIFIERS, writer)
             await write_utf8_string(job_id, NUM_BYTES_FOR_IDENTIFIERS, writer)
             # High timeout in case server is currently busy with processing query.
             status = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader, timeout=5 * 60)
 
-            return status
+            return self._require(status)
-- 
2.43.0


From 23dd1602c33350ac3c54002568b718cb3ff20e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:28 +0000
Subject: [PATCH 11/33] fix: partial, duplicate and early requests do not
 affect running jobs or block the server

---
 mixtera/network/server/server.py | 161 ++++++++++++++++++++-----------
 1 file changed, 103 insertions(+), 58 deletions(-)

diff --git a/mixtera/network/server/server.py b/mixtera/network/server/server.py
index 4544ea9..2942c67 100644
--- a/mixtera/network/server/server.py
+++ b/mixtera/network/server/server.py
@@ -55,8 +55,38 @@ class MixteraServer:
         self._chunk_distributor_map: dict[str, ChunkDistributor] = {}
         self._chunk_distributor_map_lock = asyncio.Lock()
         self._register_query_lock = asyncio.Lock()
-        self._dataset_registration: dict[str, bool] = {}
-        self._query_registration: dict[str, bool] = {}
+        # Status of the background tasks, None while they are in progress
+        self._dataset_registration: dict[str, bool | None] = {}
+        self._query_registration: dict[str, bool | None] = {}
+
+    @staticmethod
+    def _require(value: typing.Any) -> typing.Any:
+        """
+        Ensures that we do not handle partial requests, e.g., because the client died while sending them.
+
+        Args:
+            value: A part of the request that has been read.
+
+        Returns:
+            The value.
+
+        Raises:
+            ConnectionError: If there is no value because the connection was closed.
+        """
+        if value is None:
+            raise ConnectionError("The client closed the connection before the request was complete.")
+        return value
+
+    async def _run_for_job(
+        self, job_id: str, func: typing.Callable, *args: typing.Any, **kwargs: typing.Any
+    ) -> typing.Any:
+        """
+        Calls a function that requires the job to exist. The function waits for unknown jobs,
+        in that case it is executed in a thread in order to not block the server for all other clients.
+        """
+        if job_id in self._local_stub._training_query_map:
+            return func(*args, **kwargs)
+        return await asyncio.to_thread(func, *args, **kwargs)
 
     async def _register_query(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
         """
@@ -73,9 +103,9 @@ class MixteraServer:
         mixture = await read_pickeled_object(NUM_BYTES_FOR_SIZES, reader)
         logger.debug(f"Received mixture = {mixture}")
 
-        dp_groups = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
-        nodes_per_group = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
-        num_workers = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
+        dp_groups = self._require(await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader))
+        nodes_per_group = self._require(await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader))
+        num_workers = self._require(await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader))
 
         args = QueryExecutionArgs(
             mixture=mixture,
@@ -85,7 +115,16 @@ class MixteraServer:
         )
 
         query: Query = await read_pickeled_object(NUM_BYTES_FOR_SIZES, reader)
+        if self._query_registration.get(query.job_id, False) is not False or (
+            query.job_id in self._local_stub._training_query_map
+        ):
+            # We need to refuse this here because the status of the background task is the status of the existing job.
+            logger.error(f"There already is a query for job {query.job_id}!")
+            await write_utf8_string("", NUM_BYTES_FOR_IDENTIFIERS, writer)
+            return
+
         logger.debug(f"Received query = {str(query)}. Launching execution task.")
+        self._query_registration[query.job_id] = None
         asyncio.create_task(self._background_register_query(query, args))
         await write_utf8_string(query.job_id, NUM_BYTES_FOR_IDENTIFIERS, writer)
 
@@ -127,14 +166,16 @@ class MixteraServer:
             reader (asyncio.StreamReader): The stream reader to read data from the client.
             writer (asyncio.StreamWriter): The stream writer to write data to the client.
         """
-        job_id = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
-        dp_group_id = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
-        node_id = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
-        worker_id = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
+        job_id = self._require(await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader))
+        dp_group_id = self._require(await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader))
+        node_id = self._require(await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader))
+        worker_id = self._require(await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader))
 
-        async with self._chunk_distributor_map_lock:
-            if job_id not in self._chunk_distributor_map:
-                self._chunk_distributor_map[job_id] = self._local_stub._get_query_chunk_distributor(job_id)
+        if job_id not in self._chunk_distributor_map:
+            # We must not hold the lock while waiting for the job.
+            distributor = await self._run_for_job(job_id, self._local_stub._get_query_chunk_distributor, job_id)
+            async with self._chunk_distributor_map_lock:
+                self._chunk_distributor_map.setdefault(job_id, distributor)
 
         next_chunk = None
         try:
@@ -152,8 +193,10 @@ class MixteraServer:
             reader (asyncio.StreamReader): The stream reader to read data from the client.
             writer (asyncio.StreamWriter): The stream writer to write data to the client.
         """
-        job_id = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
-        dataset_dict, parsing_dict, file_path_dict = self._local_stub._get_result_metadata(job_id)
+        job_id = self._require(await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader))
+        dataset_dict, parsing_dict, file_path_dict = await self._run_for_job(
+            job_id, self._local_stub._get_result_metadata, job_id
+        )
 
         meta = {
             "dataset_type": dataset_dict,
@@ -174,13 +217,14 @@ class MixteraServer:
             reader (asyncio.StreamReader): The stream reader to read data from the client.
             writer (asyncio.StreamWriter): The stream writer to write data to the client.
         """
-        identifier = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
-        loc = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
-        dataset_type_id = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
+        identifier = self._require(await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader))
+        loc = self._require(await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader))
+        dataset_type_id = self._require(await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader))
         dtype = Dataset.from_type_id(dataset_type_id)
         parsing_func = await read_pickeled_object(NUM_BYTES_FOR_SIZES, reader)
-        metadata_parser_identifier = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
+        metadata_parser_identifier = self._require(await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader))
         job_id = str(uuid.uuid4())
+        self._dataset_registration[job_id] = None
         asyncio.create_task(
             self._background_register_dataset(job_id, identifier, loc, dtype, parsing_func, metadata_parser_identifier)
         )
@@ -205,15 +249,14 @@ class MixteraServer:
             self._dataset_registration[job_id] = False
 
     async def _check_dataset_registration(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
-        job_id = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
-        success = self._dataset_registration.get(job_id, None)
+        job_id = self._require(await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader))
+        # A registration that we do not know has been aborted by a restart of the server.
+        success = self._dataset_registration.get(job_id, False)
         # Return 0 if not complete, 1 if registration succeeded, or 2 if complete but failed.
-        if success is True:
-            status = 1
-        elif success is False and job_id in self._dataset_registration:
-            status = 2
-        else:
+        if success is None:
             status = 0
+        else:
+            status = 1 if success else 2
         await write_int(status, NUM_BYTES_FOR_IDENTIFIERS, writer)
 
     async def _register_metadata_parser(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
@@ -227,8 +270,8 @@ class MixteraServer:
             reader (asyncio.StreamReader): The stream reader to read data from the client.
             writer (asyncio.StreamWriter): The stream writer to write data to the client.
         """
-        identifier = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
-        source_code = await read_utf8_string(NUM_BYTES_FOR_SIZES, reader)
+        identifier = self._require(await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader))
+        source_code = self._require(await read_utf8_string(NUM_BYTES_FOR_SIZES, reader))
         namespace = {
             "MetadataParser": MetadataParser,
             "MetadataProperty": MetadataProperty,
@@ -290,7 +333,7 @@ class MixteraServer:
             reader (asyncio.StreamReader): The stream reader to read data from the client.
             writer (asyncio.StreamWriter): The stream writer to write data to the client.
         """
-        identifier = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
+        identifier = self._require(await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader))
         exists = self._local_stub.check_dataset_exists(identifier)
         await write_int(int(exists), NUM_BYTES_FOR_IDENTIFIERS, writer)
 
@@ -313,7 +356,7 @@ class MixteraServer:
             reader (asyncio.StreamReader): The stream reader to read data from the client.
             writer (asyncio.StreamWriter): The stream writer to write data to the client.
         """
-        identifier = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
+        identifier = self._require(await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader))
         # This might have to wait for a running registration.
         success = await asyncio.to_thread(self._local_stub.remove_dataset, identifier)
         await write_int(int(success), NUM_BYTES_FOR_IDENTIFIERS, writer)
@@ -330,19 +373,19 @@ class MixteraServer:
             reader (asyncio.StreamReader): The stream reader to read data from the client.
             writer (asyncio.StreamWriter): The stream writer to write data to the client.
         """
-        property_name = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
+        property_name = self._require(await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader))
         setup_func = await read_pickeled_object(NUM_BYTES_FOR_SIZES, reader)
         calc_func = await read_pickeled_object(NUM_BYTES_FOR_SIZES, reader)
-        execution_mode_value: int = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
+        execution_mode_value: int = self._require(await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader))
         execution_mode = ExecutionMode(execution_mode_value)
-        property_type_value: int = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
+        property_type_value: int = self._require(await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader))
         property_type = PropertyType(property_type_value)
-        min_val = await read_float(reader)
-        max_val = await read_float(reader)
-        num_buckets = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
-        batch_size = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
-        degree_of_parallelism = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
-        data_only_on_primary = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
+        min_val = self._require(await read_float(reader))
+        max_val = self._require(await read_float(reader))
+        num_buckets = self._require(await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader))
+        batch_size = self._require(await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader))
+        degree_of_parallelism = self._require(await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader))
+        data_only_on_primary = self._require(await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader))
         success = self._local_stub.add_property(
             property_name,
             setup_func,
@@ -359,37 +402,41 @@ class MixteraServer:
         await write_int(int(success), NUM_BYTES_FOR_IDENTIFIERS, writer)
 
     async def _checkpoint(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
-        job_id = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
-        dp_group_id = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
-        node_id = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
+        job_id = self._require(await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader))
+        dp_group_id = self._require(await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader))
+        node_id = self._require(await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader))
 
-        worker_status_length = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
+        worker_status_length = self._require(await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader))
         worker_status = []
         for _ in range(worker_status_length):
-            status = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
+            status = self._require(await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader))
             worker_status.append(status)
 
-        chkpnt_id = self._local_stub.checkpoint(job_id, dp_group_id, node_id, worker_status, server=True)
+        chkpnt_id = await self._run_for_job(
+            job_id, self._local_stub.checkpoint, job_id, dp_group_id, node_id, worker_status, server=True
+        )
 
         await write_utf8_string(chkpnt_id, NUM_BYTES_FOR_SIZES, writer)
 
     async def _checkpoint_completed(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
 
-        job_id = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
-        chkpnt_id = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
+        job_id = self._require(await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader))
+        chkpnt_id = self._require(await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader))
 
-        on_disk_flag = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
+        on_disk_flag = self._require(await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader))
         on_disk = bool(on_disk_flag)
 
-        is_completed = self._local_stub.checkpoint_completed(job_id, chkpnt_id, on_disk)
+        is_completed = await self._run_for_job(
+            job_id, self._local_stub.checkpoint_completed, job_id, chkpnt_id, on_disk
+        )
 
         await write_int(int(is_completed), NUM_BYTES_FOR_IDENTIFIERS, writer)
 
     async def _restore_checkpoint(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
-        job_id = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
-        chkpnt_id = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
+        job_id = self._require(await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader))
+        chkpnt_id = self._require(await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader))
 
-        self._query_registration.pop(job_id, None)  # Otherwise, we immediately return True.
+        self._query_registration[job_id] = None  # Otherwise, we immediately return True.
 
         asyncio.create_task(self._background_restore_checkpoint(job_id, chkpnt_id))
         await write_utf8_string(job_id, NUM_BYTES_FOR_IDENTIFIERS, writer)
@@ -413,7 +460,7 @@ class MixteraServer:
         Checks the status of query registration or checkpoint restoration.
         Returns: 0 if in progress, 1 if succeeded, 2 if failed.
         """
-        job_id = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
+        job_id = self._require(await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader))
         success = self._query_registration.get(job_id, None)
         if success is True:
             status = 1
@@ -424,16 +471,14 @@ class MixteraServer:
         await write_int(status, NUM_BYTES_FOR_IDENTIFIERS, writer)
 
     async def _process_feedback(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
-        job_id = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
+        job_id = self._require(await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader))
         feedback = ClientFeedback()
-        feedback.training_steps = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
-        feedback.mixture_id = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
+        feedback.training_steps = self._require(await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader))
+        feedback.mixture_id = self._require(await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader))
         feedback.losses = await read_numpy_array(NUM_BYTES_FOR_IDENTIFIERS, NUM_BYTES_FOR_SIZES, reader)
         feedback.counts = await read_numpy_array(NUM_BYTES_FOR_IDENTIFIERS, NUM_BYTES_FOR_SIZES, reader)
 
-        self._local_stub.process_feedback(job_id, feedback)
-
-        success = True
+        success = bool(self._local_stub.process_feedback(job_id, feedback))
         await write_int(int(success), NUM_BYTES_FOR_IDENTIFIERS, writer)
 
     async def _dispatch_client(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
-- 
2.43.0


From 94bb92903c8465b73722e82079fd99f0635a14e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:30 +0000
Subject: [PATCH 12/33] fix: a chunk that cannot be generated loses no samples,
 and a new mixture is tried right away

The samples taken for a chunk that could not be completed were lost, the mixture
and target passed to the generator afterwards were ignored, failed attempts were
counted as returned chunks (and hence replayed), and only one mixture per chunk
index was replayed.
---
 mixtera/core/query/query_result.py | 82 +++++++++++++++++-------------
 1 file changed, 46 insertions(+), 36 deletions(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 6709fcd..d8eca8d 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -25,8 +25,8 @@ from mixtera.utils.utils import (
     defaultdict_to_dict,
     deserialize_chunker_index,
     distribute_by_ratio,
+    hash_list,
     merge_sorted_lists,
-    seed_everything_from_list,
     serialize_chunker_index,
 )
 
@@ -90,6 +90,7 @@ class QueryResult:
         if query_log_dir is not None:
             query_log_dir.mkdir(exist_ok=True)
         self._is_replay = False
+        self._replay_mixture_id = -1
 
     def _update_key_id_map(self) -> None:
         updated = False
@@ -292,9 +293,10 @@ class QueryResult:
         # Here we shuffle the chunker index keys,
         # which determines the order of keys considered when two MixtureKeys are equal.
         # Hence, this depends on the hash function.
-        seed_everything_from_list(chunker_index_keys)
+        # We use our own random number generator, since several threads (e.g., for different jobs) may get here at once.
+        rng = random.Random(hash_list([str(key) for key in chunker_index_keys]) % 2**32)
         chunker_index_keys.sort()  # Otherwise, despite seeding, a shuffle is not reproducible.
-        random.shuffle(chunker_index_keys)
+        rng.shuffle(chunker_index_keys)
 
         # Initialize component iterators
         component_iterators = {
@@ -306,6 +308,9 @@ class QueryResult:
             except StopIteration:
                 return
 
+        # The number of samples per component which are part of a chunk already
+        num_samples_used: dict[MixtureKey, int] = defaultdict(int)
+
         previous_mixture = None
         base_mixture, target_chunk_index = yield
         # We allow to re-query the latest chunk after not being able to generate one,
@@ -325,7 +330,6 @@ class QueryResult:
             if mixture:
                 if previous_mixture != mixture:
                     logger.debug(f"Obtained new mixture: {mixture}")
-                    mixture_id += 1
                     previous_mixture = deepcopy(mixture)
 
                     if len(self._mixture_log) > 0:
@@ -342,6 +346,9 @@ class QueryResult:
 
                     if not self._is_replay:
                         self._mixture_log.append((current_chunk_index, deepcopy(base_mixture)))
+                        mixture_id = len(self._mixture_log) - 1
+                    else:
+                        mixture_id = self._replay_mixture_id
 
                     self._persist_mixture_log()
                     self._update_key_id_map()
@@ -351,6 +358,7 @@ class QueryResult:
                     key: size for key, size in mixture.items()
                 }
                 original_sizes = remaining_sizes.copy()
+                num_samples_taken: dict[MixtureKey, int] = defaultdict(int)
 
                 global_progress_made = True
                 while global_progress_made and any(remaining_sizes.values()):
@@ -384,6 +392,7 @@ class QueryResult:
                                         chunk_size <= remaining_sizes[mixture_key]
                                     ), f"We took too much data ({chunk_size}) for {mixture_key}: {remaining_sizes}"
                                     remaining_sizes[mixture_key] = remaining_sizes[mixture_key] - chunk_size
+                                    num_samples_taken[component_key] += chunk_size
 
                                     # logger.debug(
                                     #    f"Received chunk size: {chunk_size} for {mixture_key} from {component_key}"
@@ -487,6 +496,9 @@ class QueryResult:
                 if remaining_sizes and all(size == 0 for size in remaining_sizes.values()):
                     chunk_success = True
                     no_success_counter = 0
+                    for component_key, num_samples in num_samples_taken.items():
+                        num_samples_used[component_key] += num_samples
+
                     if current_chunk_index == target_chunk_index:
                         logger.debug(f"Yielding chunk {current_chunk_index}.")
                         self._persist_chunk_idx(current_chunk_index)
@@ -509,14 +521,25 @@ class QueryResult:
                 else:
                     logger.debug("Not enough data, ending chunk generation")
                     no_success_counter += 1
-                    yield None
+
+                    # The samples we have taken are not part of any chunk, hand them out later (e.g., new mixture).
+                    for component_key in num_samples_taken:
+                        iterator = self._generate_per_mixture_component_chunks(self._chunker_index, component_key)
+                        next(iterator)
+                        if num_samples_used[component_key] > 0:
+                            iterator.send(num_samples_used[component_key])
+                        component_iterators[component_key] = iterator
+
+                    base_mixture, target_chunk_index = yield None
             else:
                 if previous_mixture is not None or current_chunk_index == 0:
                     logger.debug("Obtained new None mixture.")
-                    mixture_id += 1
                     previous_mixture = None
                     if not self._is_replay:
                         self._mixture_log.append((current_chunk_index, base_mixture))
+                        mixture_id = len(self._mixture_log) - 1
+                    else:
+                        mixture_id = self._replay_mixture_id
                     self._persist_mixture_log()
 
                 chunk = None
@@ -543,6 +566,9 @@ class QueryResult:
                     return  # No need to yield None, if ArbitraryMixture is exhausted, we will never be able to continue
 
                 # Chunk has been successfully generated
+                num_samples_used[key] += sum(
+                    end - start for files in chunk.values() for ranges in files.values() for start, end in ranges
+                )
                 if current_chunk_index == target_chunk_index:
                     chunk = {chunker_index_keys[chunker_index_keys_idx]: chunk}
                     self._persist_chunk_idx(current_chunk_index)
@@ -596,9 +622,10 @@ class QueryResult:
                     self._num_returns_gen == 0
                 ), f"Generator was not reset properly. Got {self._num_returns_gen} returns."
 
-            self._num_returns_gen += 1
             result = self._generator.send((self._mixture, chunk_target_index))
-            if result is None:
+            if result is not None:
+                self._num_returns_gen += 1
+            else:
                 # In case we reach end of chunks (for now),
                 # next time (e.g. due to updated mixture) we try again to fetch the same ID.
                 with self._index.get_lock():
@@ -710,43 +737,26 @@ class QueryResult:
         mixture_log = self._mixture_log
         self._is_replay = True
 
-        mixture_log_index = 0
-        num_mixture_changes = len(mixture_log)
-
-        # Since there's always an entry at chunk index 0, set the initial mixture
-        initial_mixture = deepcopy(mixture_log[0][1])
-        assert initial_mixture is not None
-
-        self.update_mixture(initial_mixture)
-
-        mixture_log_index += 1
-
-        # Initialize next mixture change, if any
-        if mixture_log_index < num_mixture_changes:
-            next_mixture_change_chunk_index = mixture_log[mixture_log_index][0]
-            next_mixture = deepcopy(mixture_log[mixture_log_index][1])
-        else:
-            next_mixture_change_chunk_index = None
-            next_mixture = None
+        # Mixtures which did not lead to a chunk may still be in the log, then there are several entries for an index.
+        next_log_index = 0
+        assert mixture_log[0][0] == 0, f"There is no mixture for the first chunk: {mixture_log}"
 
         # Replay the chunks
         for i in range(num_chunks_replay):
             # Update mixture if the current chunk index matches a mixture change point
-            if next_mixture_change_chunk_index is not None and i == next_mixture_change_chunk_index:
-                assert next_mixture is not None
-                self.update_mixture(next_mixture)
-                mixture_log_index += 1
-                if mixture_log_index < num_mixture_changes:
-                    next_mixture_change_chunk_index = mixture_log[mixture_log_index][0]
-                    next_mixture = deepcopy(mixture_log[mixture_log_index][1])
-                else:
-                    next_mixture_change_chunk_index = None
+            while next_log_index < len(mixture_log) and mixture_log[next_log_index][0] <= i:
+                self.update_mixture(deepcopy(mixture_log[next_log_index][1]))
+                self._replay_mixture_id = next_log_index
+                next_log_index += 1
 
             try:
-                _ = next(self)
+                result = next(self)
             except StopIteration as e:
                 raise RuntimeError(f"Generator exhausted during replay at chunk index {i} - should not happen!") from e
 
+            if result is None:
+                raise RuntimeError(f"Unable to generate chunk {i} during replay - should not happen!")
+
         logger.debug("Finished chunk replay.")
         assert self._num_returns_gen == num_chunks_replay
         assert self._index.get_obj().value == num_chunks_replay
-- 
2.43.0


From 1a8070cfca9860c3f9411d4bfb5a1a184210dc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:30 +0000
Subject: [PATCH 13/33] fix: checkpoints are atomic, can be taken and restored
 repeatedly, and report failures

- the QueryResult of a job which is not in the query cache (anymore) is checkpointed
- checkpoints are only visible once complete, and their IDs are never reused
- a failed validation does not block further checkpoints and is reported to all nodes
- checkpointing right after a restore works and does not hand out data twice
- the current mixture and key ids are part of the checkpoint
- local jobs without workers can be checkpointed after a restore
---
 mixtera/core/query/chunk_distributor.py | 169 ++++++++++++++++--------
 mixtera/core/query/query_cache.py       |   2 +
 2 files changed, 119 insertions(+), 52 deletions(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index b0be975..04008c8 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -88,6 +88,7 @@ class ChunkDistributor:
         self._checkpoint_info: dict[str, dict[str, Any]] = {}  # Info for each checkpoint process on its status
         self._current_checkpoint_id: str | None = None
         self._cached_query = cached_query
+        self._query_result_dir: str | None = None  # Name of the directory all checkpoints of this job refer to
 
     def next_chunk_for(
         self, dp_group: int, node_id: int, worker_id: int, deserialize: bool
@@ -264,8 +265,7 @@ class ChunkDistributor:
             # Assign a checkpoint_id if it hasn't been assigned yet
             if self._current_checkpoint_id is None:
                 # First node reporting, assign new checkpoint_id
-                self._checkpoint_id_counter.value += 1
-                checkpoint_id = f"chkpnt_{self._checkpoint_id_counter.value}"
+                checkpoint_id = self._reserve_checkpoint_id(chkpnt_dir)
                 self._current_checkpoint_id = checkpoint_id
                 self._checkpoint_info[checkpoint_id] = {}
             else:
@@ -276,19 +276,45 @@ class ChunkDistributor:
             self._nodes_reported.add(key)
 
             if len(self._nodes_reported) == self._dp_groups * self._nodes_per_group:
-                # All nodes have reported; proceed to validation and checkpointing
-                worker_sample_ids = self._validate_checkpoint_state()
+                try:
+                    # All nodes have reported; proceed to validation and checkpointing
+                    worker_sample_ids = self._validate_checkpoint_state()
+
+                    # Start checkpointing process
+                    # By having this in the lock,
+                    # we ensure we finish the checkpoint in-memory copy first before handling the next request.
+                    self._start_checkpointing(checkpoint_id, worker_sample_ids, chkpnt_dir)
+                except Exception as e:
+                    # The other nodes find out when they ask for the status of the checkpoint.
+                    self._checkpoint_info[checkpoint_id] = {"process": None, "status": "failed", "error": str(e)}
+                    raise
+                finally:
+                    # Reset for next checkpoint, afterwards release the lock, allowing potentially for the next request.
+                    self._worker_statuses = {}
+                    self._nodes_reported = set()
+                    self._current_checkpoint_id = None
 
-                # Start checkpointing process
-                # By having this in the lock,
-                # we ensure we finish the checkpoint in-memory copy first before handling the next request.
-                self._start_checkpointing(checkpoint_id, worker_sample_ids, chkpnt_dir)
+        return checkpoint_id
+
+    def _reserve_checkpoint_id(self, chkpnt_dir: Path) -> str:
+        """
+        Assign the next checkpoint ID.
+
+        The ID is reserved on disk by creating the directory into which the checkpoint is written until it is complete.
+        IDs of previous runs of this job are hence not reused, no matter whether these checkpoints have been finished.
 
-                # Reset for next checkpoint, afterwards release the lock, allowing potentially for the next request.
-                self._worker_statuses = {}
-                self._nodes_reported = set()
-                self._current_checkpoint_id = None
+        Args:
+            chkpnt_dir (Path): Directory where the checkpoints of this job are saved.
 
+        Returns:
+            str: The ID of the checkpoint.
+        """
+        chkpnt_dir.mkdir(parents=True, exist_ok=True)
+        matches = [re.match(r"chkpnt_(\d+)", path.name) for path in chkpnt_dir.iterdir()]
+        counter = max([self._checkpoint_id_counter.value] + [int(match.group(1)) for match in matches if match]) + 1
+        checkpoint_id = f"chkpnt_{counter}"
+        (chkpnt_dir / f"{checkpoint_id}.tmp").mkdir()
+        self._checkpoint_id_counter.value = counter
         return checkpoint_id
 
     def _validate_checkpoint_state(self) -> dict[tuple[int, int], int]:
@@ -368,21 +394,29 @@ class ChunkDistributor:
             "_dp_groups": self._dp_groups,
             "_num_workers": self._num_workers,
             "_nodes_per_group": self._nodes_per_group,
+            "_og_num_workers": self._og_num_workers,
             "_checkpoint_id_counter": self._checkpoint_id_counter.value,
         }
 
         # The fundamental issue is that with multiprocessing.Spawn,
         # the QueryResult will be pickled when we start another process.
         # This means we cannot store the result in another process - the expensive operation is the pickling.
-        directory_to_copy = None
-        if self._checkpoint_id_counter.value == 1:
+        if self._query_result_dir is None:
             logger.debug("This is the first checkpoint.")
-            if self._cached_query is not None:
+            self._query_result_dir = f"queryresult_{checkpoint_id}"
+        state_to_save["_query_result_dir"] = self._query_result_dir
+
+        directory_to_copy = None
+        if not (query_result_path := chkpnt_dir / self._query_result_dir).exists():
+            if self._cached_query is not None and (self._cached_query / "meta.pkl").exists():
                 logger.debug("Copying cached QueryResult to setup initial checkpoint in subprocess.")
                 directory_to_copy = self._cached_query
             else:
                 logger.debug("Query has not been cached - pickling now. This may take some time.")
-                self._query_result.to_cache(chkpnt_dir / "queryresult")
+                tmp_path = chkpnt_dir / f"{checkpoint_id}.tmp" / "queryresult"
+                tmp_path.mkdir()
+                self._query_result.to_cache(tmp_path)
+                self._publish_query_result(tmp_path, query_result_path)
             logger.debug("Handled pickling of QueryResult.")
 
         if hasattr(self._query_result, "_mixture") and self._query_result._mixture is not None:
@@ -406,7 +440,13 @@ class ChunkDistributor:
             logger.debug("Updated alg:")
             logger.debug(str(mixture_log[-1][1]._mixing_alg))
 
-        returns_gen = self._query_result._num_returns_gen
+        query_result_state = {
+            "num_returns_gen": self._query_result._num_returns_gen,
+            "mixture_log": mixture_log,
+            # The next chunk does not necessarily follow the last mixture in the log (e.g., due to client feedback).
+            "mixture": deepcopy(self._query_result._mixture),
+            "key_id_map": deepcopy(self._query_result._key_id_map),
+        }
 
         logger.debug("Spinning up the persisting process.")
 
@@ -419,8 +459,7 @@ class ChunkDistributor:
                 checkpoint_id,
                 chkpnt_dir,
                 state_to_save,
-                mixture_log,
-                returns_gen,
+                query_result_state,
                 worker_sample_ids,
                 directory_to_copy,
             ),
@@ -433,8 +472,7 @@ class ChunkDistributor:
         checkpoint_id: str,
         chkpnt_dir: Path,
         state_to_save: dict[str, Any],
-        mixture_log: list[tuple[int, Any]],
-        num_returns_gen: int,
+        query_result_state: dict[str, Any],
         worker_sample_ids: dict[tuple[int, int], int],
         directory_to_copy: Path | None,
     ) -> None:
@@ -448,7 +486,7 @@ class ChunkDistributor:
             checkpoint_id (str): Identifier for the checkpoint.
             chkpnt_dir (Path): Directory where the checkpoint will be saved.
             state_to_save (dict[str, Any]): The state dictionary to save.
-            query_result_copy (QueryResult): The QueryResult to save.
+            query_result_state (dict[str, Any]): The state of the QueryResult to save.
             worker_sample_ids (dict[tuple[int, int], int]): Mapping of worker sample indices per worker.
 
         Raises:
@@ -456,17 +494,20 @@ class ChunkDistributor:
         """
 
         try:
+            # As long as the checkpoint is not complete, we write into the reserved directory.
+            checkpoint_path = chkpnt_dir / f"{checkpoint_id}.tmp"
+            query_result_path = chkpnt_dir / state_to_save["_query_result_dir"]
+
             if directory_to_copy is not None:
                 logger.debug("Starting to copy directory in process.")
-                shutil.copytree(directory_to_copy, chkpnt_dir / "queryresult")
+                tmp_path = checkpoint_path / "queryresult"
+                shutil.copytree(directory_to_copy, tmp_path)
+                if not (directory_to_copy / "meta.pkl").exists():
+                    raise RuntimeError(f"The cached query {directory_to_copy} has been removed while copying it.")
+                ChunkDistributor._publish_query_result(tmp_path, query_result_path)
                 logger.debug("Directory copied..")
 
-            assert (
-                chkpnt_dir / "queryresult"
-            ).exists(), f"QueryResult directory {(chkpnt_dir / 'queryresult')} should exist now!"
-
-            checkpoint_path = chkpnt_dir / checkpoint_id
-            checkpoint_path.mkdir(parents=True, exist_ok=False)
+            assert query_result_path.exists(), f"QueryResult directory {query_result_path} should exist now!"
 
             logger.debug("Adjusting the state.")
             # Move next chunk 1 backwards (because on replay, we will need to hand out the current chunk again)
@@ -479,7 +520,10 @@ class ChunkDistributor:
                         next_chunk = (
                             state_to_save["next_chunk"][dp_group][node][worker_id] - state_to_save["_num_workers"]
                         )
-                        if next_chunk >= 0:
+                        if next_chunk >= 0 and next_chunk not in state_to_save["chunk_cache"][dp_group]:
+                            # The worker has not requested its chunk since we have continued from a checkpoint.
+                            logger.debug(f"For dp={dp_group}, node={node}, w={worker_id}, nothing has been requested.")
+                        elif next_chunk >= 0:
                             state_to_save["next_chunk"][dp_group][node][worker_id] = next_chunk
                             state_to_save["chunk_usage"][dp_group][next_chunk] = 0
                             chunk = state_to_save["chunk_cache"][dp_group][next_chunk]
@@ -500,17 +544,36 @@ class ChunkDistributor:
             with open(checkpoint_path / "chunk_distributor_state.pkl", "wb") as f:
                 dill.dump(state_to_save, f, protocol=dill.HIGHEST_PROTOCOL)
 
-            logger.info(f"Checkpointing the mixture log and num returns with num returns = {num_returns_gen}")
+            logger.info(
+                "Checkpointing the mixture log and num returns "
+                + f"with num returns = {query_result_state['num_returns_gen']}"
+            )
             with open(checkpoint_path / "query_result_state.pkl", "wb") as f:
-                dill.dump(
-                    {"num_returns_gen": num_returns_gen, "mixture_log": mixture_log}, f, protocol=dill.HIGHEST_PROTOCOL
-                )
+                dill.dump(query_result_state, f, protocol=dill.HIGHEST_PROTOCOL)
 
+            os.rename(checkpoint_path, chkpnt_dir / checkpoint_id)
             logger.debug("Wrote checkpoint.")
         except Exception as e:
             logger.error(f"Error during checkpointing: {e}")
             raise e
 
+    @staticmethod
+    def _publish_query_result(tmp_path: Path, query_result_path: Path) -> None:
+        """
+        Move a completely written QueryResult to the location at which the checkpoints of this job expect it.
+
+        Args:
+            tmp_path (Path): The directory the QueryResult has been written to.
+            query_result_path (Path): The final directory of the QueryResult.
+        """
+        try:
+            os.rename(tmp_path, query_result_path)
+        except OSError:
+            if not query_result_path.exists():
+                raise
+            # An earlier checkpoint, which has not been finished when this one started, has provided it by now.
+            shutil.rmtree(tmp_path)
+
     def checkpoint_completed(self, checkpoint_id: str, on_disk: bool) -> bool:
         """
         Check if the checkpoint operation has been completed.
@@ -534,6 +597,9 @@ class ChunkDistributor:
         if checkpoint_info is None or not checkpoint_info:
             return False  # no checkpoint in progress
 
+        if checkpoint_info.get("status") == "failed":
+            raise RuntimeError(f"Checkpoint {checkpoint_id} failed: {checkpoint_info['error']}")
+
         if "process" not in checkpoint_info or checkpoint_info["process"] is None:
             return False  # No checkpoint in progress
 
@@ -577,8 +643,6 @@ class ChunkDistributor:
         """
         # Determine whether the checkpoint is from local mode or server mode
         chkpnt_dir = chkpnt_dir / checkpoint_id
-        query_dir = chkpnt_dir.parent / "queryresult"
-
         logger.debug(f"Loading checkpoint from {chkpnt_dir}")
         logger.debug("Loading ChunkDistributor state.")
         checkpoint_state_path = chkpnt_dir / "chunk_distributor_state.pkl"
@@ -588,29 +652,39 @@ class ChunkDistributor:
             raise FileNotFoundError(f"Checkpoint state file not found at {checkpoint_state_path}")
         if not query_result_state_path.exists():
             raise FileNotFoundError(f"QueryResult state file not found at {query_result_state_path}")
-        if not query_dir.exists():
-            raise FileNotFoundError(f"QueryResult directory not found at {query_dir}")
-
         logger.debug("Loading states.")
         with open(checkpoint_state_path, "rb") as f:
             state = dill.load(f)
         with open(query_result_state_path, "rb") as f:
             query_result_state = dill.load(f)
 
+        query_dir = chkpnt_dir.parent / state.get("_query_result_dir", "queryresult")
+        if not query_dir.exists():
+            raise FileNotFoundError(f"QueryResult directory not found at {query_dir}")
+
         logger.debug("Loading QueryResult.")
         query_result = QueryResult.from_cache(query_dir, replay=False)
-        query_result._mixture_log = query_result_state["mixture_log"]
+        # Mixtures which did not lead to a chunk (yet) are going to be logged again.
+        query_result._mixture_log = [
+            (idx, mixture)
+            for idx, mixture in query_result_state["mixture_log"]
+            if idx < query_result_state["num_returns_gen"]
+        ]
+        query_result._key_id_map = {}  # The QueryResult might have been cached for another mixture
         query_result._query_log_dir = query_log_dir
         if query_log_dir is not None:
             query_log_dir.mkdir(exist_ok=True)
         query_result.replay(query_result_state["num_returns_gen"])
+        if "mixture" in query_result_state:
+            query_result._mixture = query_result_state["mixture"]
+            query_result._key_id_map = query_result_state["key_id_map"]
 
         logger.debug("Instantiating class.")
 
         chunk_distributor = cls(
             dp_groups=state["_dp_groups"],
             nodes_per_group=state["_nodes_per_group"],
-            num_workers=state["_num_workers"],
+            num_workers=state.get("_og_num_workers", state["_num_workers"]),
             query_result=query_result,
             job_id=job_id,
         )
@@ -620,6 +694,8 @@ class ChunkDistributor:
         chunk_distributor._chunk_usage = state["chunk_usage"]
         chunk_distributor._next_chunk = state["next_chunk"]
 
+        chunk_distributor._query_result_dir = query_dir.name
+
         # Reset checkpoint-related attributes
         chunk_distributor._checkpoint_info = {}
         chunk_distributor._current_checkpoint_id = None
@@ -627,17 +703,6 @@ class ChunkDistributor:
         chunk_distributor._nodes_reported = set()
         chunk_distributor._checkpoint_id_counter.value = state["_checkpoint_id_counter"]
 
-        # Update the _checkpoint_id_counter.value to avoid overwriting existing checkpoints
-        checkpoint_dirs = chkpnt_dir.parent.glob("chkpnt_*")
-        checkpoint_numbers = [chunk_distributor._checkpoint_id_counter.value]
-        pattern = re.compile(r"chkpnt_(\d+)")
-        for checkpoint_dir in checkpoint_dirs:
-            match = pattern.match(checkpoint_dir.name)
-            if match:
-                checkpoint_numbers.append(int(match.group(1)))
-        if checkpoint_numbers:
-            chunk_distributor._checkpoint_id_counter.value = max(checkpoint_numbers)
-
         logger.debug("Loaded Distributor from checkpoint.")
 
         return chunk_distributor
diff --git a/mixtera/core/query/query_cache.py b/mixtera/core/query/query_cache.py
index f069c38..48c84c2 100644
--- a/mixtera/core/query/query_cache.py
+++ b/mixtera/core/query/query_cache.py
@@ -88,6 +88,8 @@ class QueryCache:
                 if cached_query_str == str(query):
                     if db_ver != self._mdc.get_db_version():
                         logger.debug(f"Database has been updated, removing cached query at {query_dir}.")
+                        # Invalidate the entry first, a checkpoint might be copying it.
+                        meta_path.unlink(missing_ok=True)
                         shutil.rmtree(query_dir)
                         if not os.listdir(hash_dir):
                             logger.debug(f"Directory for {query_hash} is empty after removing the cache.")
-- 
2.43.0


From a8d98bd597fef1833870539961878fe6b1abcae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:55 +0000
Subject: [PATCH 14/33] fix: the mixture log does not alias a schedule that
 changes later

---
 mixtera/core/query/query_result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index d8eca8d..4d92f64 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -536,7 +536,7 @@ class QueryResult:
                     logger.debug("Obtained new None mixture.")
                     previous_mixture = None
                     if not self._is_replay:
-                        self._mixture_log.append((current_chunk_index, base_mixture))
+                        self._mixture_log.append((current_chunk_index, deepcopy(base_mixture)))
                         mixture_id = len(self._mixture_log) - 1
                     else:
                         mixture_id = self._replay_mixture_id
-- 
2.43.0


From e0488ba33af363633cd5b40911576e731029513a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:55 +0000
Subject: [PATCH 15/33] fix: a checkpoint keeps the position in a restored
 chunk that has not been read yet

---
 mixtera/core/query/chunk_distributor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index 04008c8..7a23408 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -530,7 +530,11 @@ class ChunkDistributor:
                             is_serialized = isinstance(chunk, SerializedResultChunk)
                             if is_serialized:
                                 chunk = dill.loads(chunk)
-                            chunk._samples_to_skip = worker_sample_ids[(dp_group, worker_id)]
+                            # The worker does not know about the samples of a restored chunk that have been skipped
+                            # until it has handed out a sample of that chunk.
+                            chunk._samples_to_skip = max(
+                                chunk._samples_to_skip, worker_sample_ids[(dp_group, worker_id)]
+                            )
                             chunk = dill.dumps(chunk) if is_serialized else chunk
                             state_to_save["chunk_cache"][dp_group][next_chunk] = chunk
                         else:
-- 
2.43.0


From de867c5bf47419a978b3b60e57a33afb586ffc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:55 +0000
Subject: [PATCH 16/33] fix: a killed worker process does not block registering
 datasets and storing query results forever

---
 .../core/datacollection/mixtera_data_collection.py   |  9 +++++----
 mixtera/utils/utils.py                               | 12 +++++++-----
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/mixtera/core/datacollection/mixtera_data_collection.py b/mixtera/core/datacollection/mixtera_data_collection.py
index e265d5a..1dac7ed 100644
--- a/mixtera/core/datacollection/mixtera_data_collection.py
+++ b/mixtera/core/datacollection/mixtera_data_collection.py
@@ -1,7 +1,7 @@
 import os
 import threading
+from concurrent.futures import ProcessPoolExecutor
 from contextlib import contextmanager
-from multiprocessing import Pool
 from pathlib import Path
 from typing import Any, Callable, Iterator, List, Type
 
@@ -281,14 +281,15 @@ class MixteraDataCollection:
         # We should make this configurable at some point, but it is not on the hot path of query execution...
         chunk_size = 2000
 
-        # If we used mocking in unit tests, they get lost when we use a mp.Pool
+        # If we used mocking in unit tests, they get lost when we use a multiprocessing pool
         # Hence, we need to disable multiprocessing for tests here
-        pool_c = DummyPool if os.environ.get("PYTEST_CURRENT_TEST") else Pool
+        # In contrast to a mp.Pool, the executor does not wait forever if one of the worker processes gets killed.
+        pool_c = DummyPool if os.environ.get("PYTEST_CURRENT_TEST") else ProcessPoolExecutor
 
         with pool_c(num_workers) as pool:
             for i in range(0, len(tasks), chunk_size):
                 chunk = tasks[i : i + chunk_size]
-                results = pool.map(process_file_for_metadata, chunk)
+                results = list(pool.map(process_file_for_metadata, chunk))
                 logger.info(f"Processed chunk {i // chunk_size + 1}, inserting samples.")
                 # Insert collected metadata into the database in the main process
                 self._insert_samples_with_metadata(dataset_id, results, properties)
diff --git a/mixtera/utils/utils.py b/mixtera/utils/utils.py
index c8f258c..11c5217 100644
--- a/mixtera/utils/utils.py
+++ b/mixtera/utils/utils.py
@@ -1,10 +1,10 @@
 import asyncio
-import multiprocessing as mp
 import os
 import pickle
 import random
 import time
 from collections import defaultdict
+from concurrent.futures import ProcessPoolExecutor
 from copy import deepcopy
 from pathlib import Path
 from typing import TYPE_CHECKING, Any, Callable, Iterable, Iterator, List, Optional, Type, Union
@@ -346,14 +346,15 @@ def serialize_chunker_index(
     num_workers = max(min(num_workers, len(file_args_list)), 1)
 
     # Use a dummy pool for testing, or a multiprocessing pool otherwise
+    # In contrast to a mp.Pool, the executor does not wait forever if one of the worker processes gets killed.
     in_test = os.environ.get("PYTEST_CURRENT_TEST")
-    pool_c = DummyPool if in_test else mp.Pool
+    pool_c = DummyPool if in_test else ProcessPoolExecutor
     core_string = "" if in_test else f" (using {num_workers} cores)"
 
     with pool_c(num_workers) as pool:
         list(
             tqdm(
-                pool.imap_unordered(serialize_file, file_args_list),
+                pool.map(serialize_file, file_args_list),
                 total=len(file_args_list),
                 desc=f"Serializing Files{core_string}",
             )
@@ -401,8 +402,9 @@ def deserialize_chunker_index(input_dir: str | Path) -> "ChunkerIndex":
     num_workers = max(min(num_workers, len(file_args_list)), 1)
 
     # Use a dummy pool for testing, or a multiprocessing pool otherwise
+    # In contrast to a mp.Pool, the executor does not wait forever if one of the worker processes gets killed.
     in_test = os.environ.get("PYTEST_CURRENT_TEST")
-    pool_c = DummyPool if in_test else mp.Pool
+    pool_c = DummyPool if in_test else ProcessPoolExecutor
     core_string = "" if in_test else f" (using {num_workers} cores)"
 
     logger.info(f"Deserializing all files in parallel{core_string}.")
@@ -410,7 +412,7 @@ def deserialize_chunker_index(input_dir: str | Path) -> "ChunkerIndex":
     with pool_c(num_workers) as pool:
         results = list(
             tqdm(
-                pool.imap_unordered(deserialize_file, file_args_list),
+                pool.map(deserialize_file, file_args_list),
                 total=len(file_args_list),
                 desc=f"Deserializing Files{core_string}",
             )
-- 
2.43.0


From ad8ca65258f2ae28f6549f0107d07a2b7af6a84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:29 +0000
Subject: [PATCH 17/33] fix: adjusting the chunk size of a nested mixture
 changes the sizes of its components

---
 mixtera/core/query/mixture/dynamic_mixture.py             | 1 +
 mixtera/core/query/mixture/hierarchical_static_mixture.py | 4 ++++
 mixtera/core/query/mixture/mixture.py                     | 5 +++++
 mixtera/core/query/mixture/mixture_schedule.py            | 1 +
 mixtera/core/query/mixture/static_mixture.py              | 4 ++++
 5 files changed, 15 insertions(+)

diff --git a/mixtera/core/query/mixture/dynamic_mixture.py b/mixtera/core/query/mixture/dynamic_mixture.py
index cc9db86..bb9a00d 100644
--- a/mixtera/core/query/mixture/dynamic_mixture.py
+++ b/mixtera/core/query/mixture/dynamic_mixture.py
@@ -34,6 +34,7 @@ class DynamicMixture(Mixture):
                 + f"initial_mixture chunk size is {initial_mixture.chunk_size}. Adjusting."
             )
             initial_mixture.chunk_size = chunk_size
+            initial_mixture.chunk_size_changed()
 
         self._current_mixture = initial_mixture
         self._mixing_alg = mixing_alg
diff --git a/mixtera/core/query/mixture/hierarchical_static_mixture.py b/mixtera/core/query/mixture/hierarchical_static_mixture.py
index 0cb51df..d51a5d3 100644
--- a/mixtera/core/query/mixture/hierarchical_static_mixture.py
+++ b/mixtera/core/query/mixture/hierarchical_static_mixture.py
@@ -36,8 +36,12 @@ class HierarchicalStaticMixture(Mixture):
             Component(values=["medicine"], weight=0.5)])
         """
         super().__init__(chunk_size, strict=strict)
+        self._mixture_node = mixture
         self._mixture = self.parse_mixture_node(chunk_size, mixture)
 
+    def chunk_size_changed(self) -> None:
+        self._mixture = self.parse_mixture_node(self.chunk_size, self._mixture_node)
+
     def __str__(self) -> str:
         """String representation of this mixture object."""
         return f'{{"mixture": {self._mixture}, "chunk_size": {self.chunk_size}, "strict": {self.strict}}}'
diff --git a/mixtera/core/query/mixture/mixture.py b/mixtera/core/query/mixture/mixture.py
index 84caef4..6a2c390 100644
--- a/mixtera/core/query/mixture/mixture.py
+++ b/mixtera/core/query/mixture/mixture.py
@@ -57,6 +57,11 @@ class Mixture(ABC):
         """
         raise NotImplementedError("Method must be implemented in subclass!")
 
+    def chunk_size_changed(self) -> None:
+        """
+        Called after the chunk size has been changed, e.g., because the mixture is part of another mixture.
+        """
+
     def process_client_feedback(self, feedback: ClientFeedback) -> None:
         """
         Updates the mixture according to the received feedback.
diff --git a/mixtera/core/query/mixture/mixture_schedule.py b/mixtera/core/query/mixture/mixture_schedule.py
index b8f3a0f..04534be 100644
--- a/mixtera/core/query/mixture/mixture_schedule.py
+++ b/mixtera/core/query/mixture/mixture_schedule.py
@@ -39,6 +39,7 @@ class MixtureSchedule(Mixture):
                     f"{idx}({entry.mixture.chunk_size}) does not match the schedule chunk size. Adjusting it."
                 )
                 entry.mixture.chunk_size = self.chunk_size
+                entry.mixture.chunk_size_changed()
 
         self.schedule = sorted(schedule, key=lambda entry: entry.start_step)
         self.current_step = 0
diff --git a/mixtera/core/query/mixture/static_mixture.py b/mixtera/core/query/mixture/static_mixture.py
index 0eadf6d..73b7f28 100644
--- a/mixtera/core/query/mixture/static_mixture.py
+++ b/mixtera/core/query/mixture/static_mixture.py
@@ -35,8 +35,12 @@ class StaticMixture(Mixture):
         # Renormalize to reduce deviance from 1.0 further
         mixture = {key: val / total_weight for key, val in mixture.items()}
 
+        self._weights = mixture
         self._mixture = StaticMixture.parse_user_mixture(chunk_size, mixture)
 
+    def chunk_size_changed(self) -> None:
+        self._mixture = StaticMixture.parse_user_mixture(self.chunk_size, self._weights)
+
     @staticmethod
     def parse_user_mixture(chunk_size: int, user_mixture: dict[MixtureKey, float]) -> dict[MixtureKey, int]:
         """Given a chunk size and user mixture, return an internal adjusted representation
-- 
2.43.0


From 84c3edf130462e13f99e618ee3bd689b11d3931f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:29 +0000
Subject: [PATCH 18/33] fix: a schedule informs all of its mixtures about the
 index

---
 mixtera/core/query/mixture/mixture_schedule.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/query/mixture/mixture_schedule.py b/mixtera/core/query/mixture/mixture_schedule.py
index 04534be..b4f2c33 100644
--- a/mixtera/core/query/mixture/mixture_schedule.py
+++ b/mixtera/core/query/mixture/mixture_schedule.py
@@ -55,12 +55,13 @@ class MixtureSchedule(Mixture):
 
     def process_index(self, chunker_index: "ChunkerIndex") -> None:
         """
-        Inform the current mixture about the overall chunker index.
+        Inform all mixtures about the overall chunker index, since we are not called again when the mixture changes.
 
         Args:
             chunker_index: The chunker index.
         """
-        self.current_mixture.process_index(chunker_index)
+        for entry in self.schedule:
+            entry.mixture.process_index(chunker_index)
 
     @property
     def current_mixture(self) -> Mixture:
-- 
2.43.0


From c4a853f8e7d7c993a73938056ac62ded6bc6df12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:29 +0000
Subject: [PATCH 19/33] fix: every mixture of a schedule defines on its own
 whether it is strict

---
 mixtera/core/query/mixture/mixture_schedule.py | 9 +++++++++
 mixtera/core/query/query_result.py             | 4 +++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/mixture/mixture_schedule.py b/mixtera/core/query/mixture/mixture_schedule.py
index b4f2c33..c202ed3 100644
--- a/mixtera/core/query/mixture/mixture_schedule.py
+++ b/mixtera/core/query/mixture/mixture_schedule.py
@@ -44,6 +44,15 @@ class MixtureSchedule(Mixture):
         self.schedule = sorted(schedule, key=lambda entry: entry.start_step)
         self.current_step = 0
 
+    @property
+    def strict(self) -> bool:  # type: ignore[override]
+        """Each mixture of the schedule defines on its own whether it is strict."""
+        return self.current_mixture.strict
+
+    @strict.setter
+    def strict(self, strict: bool) -> None:
+        del strict  # The base class sets the default value.
+
     def mixture_in_rows(self) -> dict[MixtureKey, int]:
         """
         Returns the mixture dictionary for the current training step.
diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 4d92f64..bda0d1c 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -312,6 +312,7 @@ class QueryResult:
         num_samples_used: dict[MixtureKey, int] = defaultdict(int)
 
         previous_mixture = None
+        previous_strict = None
         base_mixture, target_chunk_index = yield
         # We allow to re-query the latest chunk after not being able to generate one,
         # e.g., due to dynamic mixture changes.
@@ -328,9 +329,10 @@ class QueryResult:
 
             chunk_success = False
             if mixture:
-                if previous_mixture != mixture:
+                if previous_mixture != mixture or previous_strict != is_strict:
                     logger.debug(f"Obtained new mixture: {mixture}")
                     previous_mixture = deepcopy(mixture)
+                    previous_strict = is_strict
 
                     if len(self._mixture_log) > 0:
                         last_mixture = self._mixture_log[-1][1]
-- 
2.43.0


From 9bd9e646dbc6f404e122df30820c1dc14c94c694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:23 +0000
Subject: [PATCH 20/33] fix: an error in the tokenization thread reaches the
 consumer

The background thread died on any error of the text source or the tokenizer
without telling the consumer, which then waited forever.
---
 mixtera/utils/tokenizing_iterator.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mixtera/utils/tokenizing_iterator.py b/mixtera/utils/tokenizing_iterator.py
index 5ff8a71..03205c1 100644
--- a/mixtera/utils/tokenizing_iterator.py
+++ b/mixtera/utils/tokenizing_iterator.py
@@ -127,6 +127,7 @@ class ThreadedTokenizingIterator:
         self.buffer: list[int] = []
         self.chunk_index = 0
         self.eos = False
+        self.error: Exception | None = None
         self.yielded_samples = 0
 
         self.lock = threading.Lock()
@@ -138,6 +139,15 @@ class ThreadedTokenizingIterator:
         return self
 
     def prefetch_loop(self) -> None:
+        try:
+            self._prefetch_all()
+        except Exception as ex:  # pylint: disable=broad-exception-caught
+            # The consumer waits for us, it needs to learn that there won't be any more data.
+            with self.lock:
+                self.error = ex
+                self.condition.notify_all()
+
+    def _prefetch_all(self) -> None:
         while not self.eos:
             texts = []
             local_eos = False
@@ -186,6 +196,9 @@ class ThreadedTokenizingIterator:
                     self.yielded_samples += 1
                     return chunk
 
+                if self.error is not None:
+                    raise self.error
+
                 if self.eos:
                     if self.yielded_samples == 0 and current_length > 0 and self.at_least_one_sample:
                         # Pad the remaining tokens to reach the desired length
-- 
2.43.0


From 18f311c4a5356941da57b4831d6ea19849ad0373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:23 +0000
Subject: [PATCH 21/33] fix: prefetching the first item hides neither errors
 nor None

An error while prefetching and an item that is None were both reported as the
end of the iterator: a stream of an unreadable file was silently shortened.
---
 mixtera/utils/prefetch_iterator.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mixtera/utils/prefetch_iterator.py b/mixtera/utils/prefetch_iterator.py
index 8aae563..55792c7 100644
--- a/mixtera/utils/prefetch_iterator.py
+++ b/mixtera/utils/prefetch_iterator.py
@@ -1,5 +1,5 @@
 from threading import Event, Thread
-from typing import Iterator, TypeVar
+from typing import Iterator, TypeVar, cast
 
 T = TypeVar("T")
 
@@ -10,14 +10,16 @@ class PrefetchFirstItemIterator(Iterator[T]):
         self.prefetch_event = Event()
         self.first_item_consumed = False
         self.first_item: T | None = None
+        self.first_item_error: Exception | None = None
         self.prefetch_thread = Thread(target=self._prefetch)
         self.prefetch_thread.start()
 
     def _prefetch(self) -> None:
         try:
             self.first_item = next(self.iterator)
-        except StopIteration:
-            self.first_item = None
+        except Exception as ex:  # pylint: disable=broad-exception-caught
+            # Includes StopIteration. The consumer has to see what it would have seen without prefetching.
+            self.first_item_error = ex
         finally:
             self.prefetch_event.set()
 
@@ -25,9 +27,9 @@ class PrefetchFirstItemIterator(Iterator[T]):
         if not self.first_item_consumed:
             self.prefetch_event.wait()
             self.first_item_consumed = True
-            if self.first_item is not None:
-                return self.first_item
+            if self.first_item_error is not None:
+                raise self.first_item_error
 
-            raise StopIteration()
+            return cast(T, self.first_item)
 
         return next(self.iterator)
-- 
2.43.0


From 9735d7cd6d0d613ff75a30cdd9e82729ee72a22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:23 +0000
Subject: [PATCH 22/33] fix: parallel chunk readers that fail or die are an
 error

A failed or killed reader process was treated like one that had read all of its
data, so the chunk was silently shortened. Also, a sample with the text
END_OF_STREAM ended its reader's stream.
---
 mixtera/core/query/result_chunk.py | 83 +++++++++++++++++++-----------
 1 file changed, 54 insertions(+), 29 deletions(-)

diff --git a/mixtera/core/query/result_chunk.py b/mixtera/core/query/result_chunk.py
index d5cc94a..f02566c 100644
--- a/mixtera/core/query/result_chunk.py
+++ b/mixtera/core/query/result_chunk.py
@@ -4,7 +4,9 @@ import multiprocessing as mp
 import os
 import random
 import textwrap
+import traceback
 import typing
+from dataclasses import dataclass
 from itertools import islice
 from queue import Empty
 from typing import TYPE_CHECKING, Any, Callable, Iterator, Literal, Optional, Type
@@ -34,7 +36,19 @@ Workloads = list[Workload]
 Sample = str | list[int]
 
 MULTIPROCESSING_TIMEOUT = 90
-END_OF_STREAM_OBJECT = "END_OF_STREAM"
+
+
+@dataclass(frozen=True)
+class EndOfStream:
+    """
+    The last object that a reader process puts into its queue. Not a string, since samples are strings.
+    If the reader was not able to read all of its data, it carries the reason.
+    """
+
+    error: str | None = None
+
+
+END_OF_STREAM_OBJECT = EndOfStream()
 
 original_start = mp.Process.start
 
@@ -369,14 +383,20 @@ class ResultChunk:
                 try:
                     instance = queue.get(timeout=MULTIPROCESSING_TIMEOUT)
                 except Empty as exc:
-                    if not proc.is_alive():
-                        proc.join()
-                        processes_to_remove.append((queue, proc))
-                        continue
-                    raise RuntimeError(
-                        "Queue timeout reached but process is still alive. Something went wrong."
-                    ) from exc
-                if instance == END_OF_STREAM_OBJECT:
+                    if proc.is_alive():
+                        raise RuntimeError(
+                            "Queue timeout reached but process is still alive. Something went wrong."
+                        ) from exc
+                    try:
+                        # The process may have delivered its last objects in the meantime.
+                        instance = queue.get(timeout=1)
+                    except Empty:
+                        raise RuntimeError(
+                            f"A chunk reader process died (exit code {proc.exitcode}) before reading all of its data."
+                        ) from exc
+                if isinstance(instance, EndOfStream):
+                    if instance.error is not None:
+                        raise RuntimeError(f"A chunk reader process failed:\n{instance.error}")
                     proc.join()
                     processes_to_remove.append((queue, proc))
                     continue
@@ -577,29 +597,34 @@ class ResultChunk:
         # We might have been started as a daemon,
         # in which case we need to clean up ourselves in case for whatever reason our parent exits.
         start_ppid = os.getppid() if mp.current_process().daemon else None
-        parsing_func_dict: dict[int, Callable[[str], str]] = dill.loads(pickled_parsing_func_dict)
-        for dataset_id, file_id, ranges in workloads:
-            if start_ppid is not None and start_ppid != os.getppid():
-                logger.error(
-                    "In daemonic ResultChunk reader the parent pid changed "
-                    + f"from {start_ppid} to {os.getppid()}. Assuming parent crashed and exiting."
-                )
-                try:
-                    queue.put(END_OF_STREAM_OBJECT)
-                    queue.close()
-                except Exception as ex:  # pylint: disable=broad-exception-caught
-                    logger.error(f"Error while putting EOS object into queue:\n{ex}\n\nExiting anyways.")
+        end_of_stream = END_OF_STREAM_OBJECT
+        try:
+            parsing_func_dict: dict[int, Callable[[str], str]] = dill.loads(pickled_parsing_func_dict)
+            for dataset_id, file_id, ranges in workloads:
+                if start_ppid is not None and start_ppid != os.getppid():
+                    logger.error(
+                        "In daemonic ResultChunk reader the parent pid changed "
+                        + f"from {start_ppid} to {os.getppid()}. Assuming parent crashed and exiting."
+                    )
+                    try:
+                        queue.put(END_OF_STREAM_OBJECT)
+                        queue.close()
+                    except Exception as ex:  # pylint: disable=broad-exception-caught
+                        logger.error(f"Error while putting EOS object into queue:\n{ex}\n\nExiting anyways.")
 
-                return
+                    return
 
-            filename_dict = {file_path_dict[file_id]: ranges}
-            instance_iterator = dataset_type_dict[dataset_id].read_ranges_from_files(
-                filename_dict, parsing_func_dict[dataset_id], server_connection
-            )
-            for instance in instance_iterator:
-                queue.put(instance)
+                filename_dict = {file_path_dict[file_id]: ranges}
+                instance_iterator = dataset_type_dict[dataset_id].read_ranges_from_files(
+                    filename_dict, parsing_func_dict[dataset_id], server_connection
+                )
+                for instance in instance_iterator:
+                    queue.put(instance)
+        except Exception:  # pylint: disable=broad-exception-caught
+            # The consumer must not mistake our failure for the end of the data.
+            end_of_stream = EndOfStream(error=traceback.format_exc())
 
-        queue.put(END_OF_STREAM_OBJECT)
+        queue.put(end_of_stream)
 
         queue.close()
 
-- 
2.43.0


From 461b6c91d4feb2f58f47f2b917afbb8acd27c8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:15 +0000
Subject: [PATCH 23/33] fix: the torch dataset reports the sample at which to
 continue

The status of a loader worker was the index of the last sample it had yielded,
which is the index at which a restored job continues. That sample was hence
yielded twice, and a worker that had yielded one sample could not be told from
one that had not yielded any.
---
 mixtera/torch/mixtera_torch_dataset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mixtera/torch/mixtera_torch_dataset.py b/mixtera/torch/mixtera_torch_dataset.py
index e8819e2..82d3ddf 100644
--- a/mixtera/torch/mixtera_torch_dataset.py
+++ b/mixtera/torch/mixtera_torch_dataset.py
@@ -125,7 +125,7 @@ class MixteraTorchDataset(IterableDataset):
 
     def _init_status_shm(self) -> None:
         # This function intiailizes a shared memory segment
-        # in which all workers write at which sample in the current chunk they are.
+        # in which all workers write how many samples of the current chunk they have yielded.
         # At the Mixtera server, we keep track of which chunk they are at.
         # This way, we can on checkpoint remember at which sample to continue at the worker.
 
@@ -264,7 +264,8 @@ class MixteraTorchDataset(IterableDataset):
             self._res_str_args.worker_id = self.worker_id
 
             for sample_chnk_idx, key_id, sample in self._client.stream_results(self._res_str_args):
-                status_array[self.worker_id] = sample_chnk_idx
+                # Once yielded, the sample is consumed, i.e., we continue at the sample after it.
+                status_array[self.worker_id] = sample_chnk_idx + 1
                 yield self._yield_func(key_id, sample)
 
             with self.completion_lock:
-- 
2.43.0


From df85992ef2623106fa53ae852165f2064585f6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:13 +0000
Subject: [PATCH 24/33] fix: the torch dataset reports the worker status after
 the last sample

Without loader workers, the dataset closed the shared memory that contains the
status in the training process once the data was over. A checkpoint afterwards
(e.g., the final one) failed in this process, and the other nodes waited for it
forever; the Hugging Face dataset even reported uninitialized memory.
---
 mixtera/torch/mixtera_torch_dataset.py | 66 ++++++++++----------------
 1 file changed, 25 insertions(+), 41 deletions(-)

diff --git a/mixtera/torch/mixtera_torch_dataset.py b/mixtera/torch/mixtera_torch_dataset.py
index 82d3ddf..fc2539c 100644
--- a/mixtera/torch/mixtera_torch_dataset.py
+++ b/mixtera/torch/mixtera_torch_dataset.py
@@ -64,6 +64,7 @@ class MixteraTorchDataset(IterableDataset):
         self._query_execution_args = query_execution_args
         self._status_shm = _status_shm
         self._comp_shm = _comp_shm
+        self._shm_unlinked = False
         self._checkpoint_path = checkpoint_path
         self.requires_callback = False
         self._return_key_id = return_key_id
@@ -198,43 +199,27 @@ class MixteraTorchDataset(IterableDataset):
     def __getitem__(self, index: int) -> Any:
         raise NotImplementedError("This is just overwritten to satify pylint.")
 
-    def _cleanup_shared_memory(self, unlink: bool) -> None:
-        # Attempt to close and unlink shared memory segments
-        any_close = False
-        try:
-            if self._status_shm is not None:
-                any_close = True
-                self._status_shm.close()
-                if unlink:
-                    self._status_shm.unlink()
-                self._status_shm = None
-        except FileNotFoundError as e:
-            logger.warning(
-                f"FileNotFoundError during shared memory cleanup: {e}\n"
-                + "This indicates multiple workers cleaned up the shm, which should not happen."
-            )
-        except Exception as e:  # pylint: disable=broad-exception-caught
-            logger.warning(f"Error during shared memory cleanup: {e}")
-
-        try:
-            if self._comp_shm is not None:
-                any_close = True
-                self._comp_shm.close()
-                if unlink:
-                    self._comp_shm.unlink()
-                self._comp_shm = None
-        except FileNotFoundError as e:
-            logger.warning(
-                f"FileNotFoundError during shared memory cleanup: {e}\n"
-                + "This indicates multiple workers cleaned up the shm, which should not happen."
-            )
-        except Exception as e:  # pylint: disable=broad-exception-caught
-            logger.warning(f"Error during shared memory cleanup: {e}")
+    def _cleanup_shared_memory(self) -> None:
+        # We only unlink the shared memory segments and keep them mapped until this object or its process vanishes:
+        # The training process reports the worker status for checkpoints that it takes after the last sample, too.
+        # (Without data loader workers, it is the process that runs this function.)
+        if self._shm_unlinked:
+            return
+
+        self._shm_unlinked = True
+        for shm in (self._status_shm, self._comp_shm):
+            try:
+                if shm is not None:
+                    shm.unlink()
+            except FileNotFoundError as e:
+                logger.warning(
+                    f"FileNotFoundError during shared memory cleanup: {e}\n"
+                    + "This indicates multiple workers cleaned up the shm, which should not happen."
+                )
+            except Exception as e:  # pylint: disable=broad-exception-caught
+                logger.warning(f"Error during shared memory cleanup: {e}")
 
-        if any_close:
-            logger.info(f"[Worker {self.worker_id}] Shared memory closed.")
-            if unlink:
-                logger.info(f"[Worker {self.worker_id}] Shared memory unlinked.")
+        logger.info(f"[Worker {self.worker_id}] Shared memory unlinked.")
 
     @property
     def worker_status(self) -> list[int] | None:
@@ -272,12 +257,11 @@ class MixteraTorchDataset(IterableDataset):
                 completion_array[self.worker_id] = 1
                 if np.all(completion_array == 1):
                     logger.debug(f"[Worker {self.worker_id}] All data loader workers are done - will unlink.")
-                    self._cleanup_shared_memory(True)
+                    self._cleanup_shared_memory()
                 else:
                     logger.debug(
                         f"[Worker {self.worker_id}] Only {np.sum(completion_array)}/{self.num_workers} are done."
-                        + " Just cleaning up this worker."
                     )
-                    self._cleanup_shared_memory(False)
-        finally:
-            self._cleanup_shared_memory(True)
+        except BaseException:  # An error, or the iteration has been stopped early.
+            self._cleanup_shared_memory()
+            raise
-- 
2.43.0


From 8e5b3a0bf95b04921783b31009818c349a1c7324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:52 +0000
Subject: [PATCH 25/33] fix: mixtera.id names a checkpoint only once it is
 complete

The ID was written before the checkpoint was complete, replacing the ID of the
previous one. A training that crashed meanwhile could not be restored.
---
 mixtera/utils/checkpoint.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mixtera/utils/checkpoint.py b/mixtera/utils/checkpoint.py
index 5b39b13..81f2109 100644
--- a/mixtera/utils/checkpoint.py
+++ b/mixtera/utils/checkpoint.py
@@ -56,13 +56,14 @@ def handle_mixtera_checkpoint(
     logger.debug(f"[DP Group {dp_group_id}][Node {node_id}] Reporting worker status {worker_status}")
     checkpoint_id = torch_dataset._client.checkpoint(job_id, dp_group_id, node_id, worker_status)
 
-    if node_id == 0 and dp_group_id == 0:
-        logger.debug(f"[DP Group {dp_group_id}][Node {node_id}] Checkpoint ID is {checkpoint_id}")
-        with open(checkpoint_path / "mixtera.id", "w+", encoding="utf-8") as fp:
-            fp.write(checkpoint_id)
+    logger.debug(f"[DP Group {dp_group_id}][Node {node_id}] Checkpoint ID is {checkpoint_id}")
 
     while not torch_dataset._client.checkpoint_completed(job_id, checkpoint_id, wait_for_disk):
         sleep(0.1)
 
     if node_id == 0 and dp_group_id == 0:
+        # Only now we can restore this checkpoint. If there is an ID of a previous checkpoint, we replace it atomically.
+        with open(checkpoint_path / "mixtera.id.tmp", "w+", encoding="utf-8") as fp:
+            fp.write(checkpoint_id)
+        (checkpoint_path / "mixtera.id.tmp").replace(checkpoint_path / "mixtera.id")
         logger.info("Finalized Mixtera Checkpoint.")
-- 
2.43.0


From 39df8be83143bc795273d82ff9f2d6ffcc85755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 26/33] fix: a job is not reported as restored while it is
 about to be restored again

If a training is restarted while the server still restores the job for the
previous attempt, the first restoration marked the job as ready. The training
then started to read, and the second restoration replaced the job below it, so
that samples were delivered twice.
---
 mixtera/network/server/server.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mixtera/network/server/server.py b/mixtera/network/server/server.py
index 2942c67..652e65a 100644
--- a/mixtera/network/server/server.py
+++ b/mixtera/network/server/server.py
@@ -58,6 +58,7 @@ class MixteraServer:
         # Status of the background tasks, None while they are in progress
         self._dataset_registration: dict[str, bool | None] = {}
         self._query_registration: dict[str, bool | None] = {}
+        self._pending_restores: dict[str, int] = {}  # job_id -> number of restorations that have not finished yet
 
     @staticmethod
     def _require(value: typing.Any) -> typing.Any:
@@ -437,23 +438,29 @@ class MixteraServer:
         chkpnt_id = self._require(await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader))
 
         self._query_registration[job_id] = None  # Otherwise, we immediately return True.
+        self._pending_restores[job_id] = self._pending_restores.get(job_id, 0) + 1
 
         asyncio.create_task(self._background_restore_checkpoint(job_id, chkpnt_id))
         await write_utf8_string(job_id, NUM_BYTES_FOR_IDENTIFIERS, writer)
 
     async def _background_restore_checkpoint(self, job_id: str, chkpnt_id: str) -> None:
         async with self._register_query_lock:
+            success = False
             try:
                 await asyncio.to_thread(self._local_stub.restore_checkpoint, job_id, chkpnt_id)
                 async with self._chunk_distributor_map_lock:
                     self._chunk_distributor_map[job_id] = self._local_stub._get_query_chunk_distributor(job_id)
-                self._query_registration[job_id] = True
+                success = True
                 logger.debug(
                     f"Background checkpoint restoration completed for job_id {job_id} with checkpoint {chkpnt_id}"
                 )
             except Exception:  # pylint: disable=broad-exception-caught
                 logger.error(f"Background checkpoint restoration failed: {traceback.format_exc()}")
-                self._query_registration[job_id] = False
+
+            # The job is not ready if it is about to be restored again, e.g., because the training has been restarted.
+            self._pending_restores[job_id] = self._pending_restores.get(job_id, 1) - 1
+            if self._pending_restores[job_id] == 0:
+                self._query_registration[job_id] = success
 
     async def _check_query_registration(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
         """
-- 
2.43.0


From 11356f1929a402fc5819f235db480331e844fa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:18 +0000
Subject: [PATCH 27/33] fix: ADO accepts reports that do not cover all domains

A report whose last domains had no samples, that contained more domains than the
previous ones, or that contained no samples at all failed with an assertion or an
index error, since the per-domain structures had different lengths.
---
 mixtera/core/algo/ado/ado.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/algo/ado/ado.py b/mixtera/core/algo/ado/ado.py
index cb006d6..aa8c9c3 100644
--- a/mixtera/core/algo/ado/ado.py
+++ b/mixtera/core/algo/ado/ado.py
@@ -593,6 +593,12 @@ class AdoDynamicMixing(DynamicMixingAlgorithm):
             losses: A numpy array of losses per domain.
             counts: A numpy array of counts per domain.
         """
+        # A report does not need to cover all domains (e.g., the last ones may not be part of the current batch).
+        # All per-domain structures have to be of the same length, i.e., we pad the missing domains.
+        num_domains = max(len(losses), len(self.losses), len(self.initial_mixture))
+        losses = np.pad(losses, (0, num_domains - len(losses)))
+        counts = np.pad(counts, (0, num_domains - len(counts)))
+
         # We first need to catch the number of internal domains, otherwise we will not trigger the following condition.
         num_incoming_domains = len(losses)
         num_internal_domains = len(self.losses)
@@ -617,6 +623,9 @@ class AdoDynamicMixing(DynamicMixingAlgorithm):
                 self.pi_bar_t_minus_1 = np.concatenate(
                     [self.pi_bar_t_minus_1, np.zeros(size_diff, dtype=self.pi_bar_t_minus_1.dtype)]
                 )
+            if self.scaling_law_params is not None:
+                # Same parameters as for domains without sufficient data.
+                self.scaling_law_params = np.concatenate([self.scaling_law_params, np.full((size_diff, 3), -1.0)])
 
         # Keep track of per-step counts and losses
         # Adjust the lengths if necessary
@@ -635,8 +644,6 @@ class AdoDynamicMixing(DynamicMixingAlgorithm):
         self.per_step_losses.append(per_step_losses)
 
         if self.use_same_step_size:
-            num_valid_domains: int = np.sum(self.counts > 0)
-            assert num_valid_domains > 0
             total_tokens = counts.sum()
             increment = np.zeros_like(counts, dtype=counts.dtype)
             increment[self.counts > 0] = int(total_tokens)
-- 
2.43.0


From 9fd25ca5fc9aea9652b14f40b2ef28ba5dbb376d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:18 +0000
Subject: [PATCH 28/33] fix: a killed worker process does not block fitting
 ADO's scaling laws forever

---
 mixtera/core/algo/ado/ado.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/mixtera/core/algo/ado/ado.py b/mixtera/core/algo/ado/ado.py
index aa8c9c3..4cee531 100644
--- a/mixtera/core/algo/ado/ado.py
+++ b/mixtera/core/algo/ado/ado.py
@@ -2,8 +2,8 @@
 # Mathematical notation with snake-case is harder to read.
 
 import json
-import multiprocessing as mp
 import os
+from concurrent.futures import ProcessPoolExecutor
 from multiprocessing import shared_memory
 from typing import Any
 
@@ -406,13 +406,15 @@ class AdoDynamicMixing(DynamicMixingAlgorithm):
         num_workers = max(num_cores - 4, 1)
         num_workers = max(min(num_workers, len(args_list)), 1)
 
-        with mp.Pool(num_workers) as pool:
-            results = pool.map(fit_scaling_law_for_domain, args_list)
-
-        counts_shm.close()
-        counts_shm.unlink()
-        losses_shm.close()
-        losses_shm.unlink()
+        try:
+            # In contrast to a mp.Pool, the executor does not wait forever if one of the worker processes gets killed.
+            with ProcessPoolExecutor(num_workers) as pool:
+                results = list(pool.map(fit_scaling_law_for_domain, args_list))
+        finally:
+            counts_shm.close()
+            counts_shm.unlink()
+            losses_shm.close()
+            losses_shm.unlink()
 
         for result in results:
             k, best_params, domain_log = result
-- 
2.43.0


From 320a1ba766dbd6d527614344944d68c7b57179fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:13 +0000
Subject: [PATCH 29/33] fix: feedback for the last samples of a job still has a
 mixture id

The client forgot the current mixture id as soon as the stream of one loader worker
ended. If the training then reported feedback for the samples that had been loaded
before, handle_mixtera_feedback failed with an assertion, or reported the wrong id.
The id now belongs to the job and is forgotten when the client starts another one.
---
 mixtera/core/client/local/local_stub.py   |  2 ++
 mixtera/core/client/mixtera_client.py     | 12 ++++++++----
 mixtera/core/client/server/server_stub.py |  4 +++-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/mixtera/core/client/local/local_stub.py b/mixtera/core/client/local/local_stub.py
index 444ed25..08e32ad 100644
--- a/mixtera/core/client/local/local_stub.py
+++ b/mixtera/core/client/local/local_stub.py
@@ -93,6 +93,7 @@ class LocalStub(MixteraClient):
             else:
                 query.execute(self._mdc, args.mixture, self.mixture_log_directory / query.job_id)
                 cache_path = self._query_cache.cache_query(query)
+        self._reset_current_mixture_id()
         return self._register_query(
             query, args.mixture, args.dp_groups, args.nodes_per_group, args.num_workers, cache_path
         )
@@ -213,6 +214,7 @@ class LocalStub(MixteraClient):
                 query,
                 mixture if mixture is not None else distri._query_result._mixture,
             )
+        self._reset_current_mixture_id()
 
     def process_feedback(self, job_id: str, feedback: ClientFeedback) -> bool:
         if job_id not in self._training_query_map:
diff --git a/mixtera/core/client/mixtera_client.py b/mixtera/core/client/mixtera_client.py
index b7648c9..bc37508 100644
--- a/mixtera/core/client/mixtera_client.py
+++ b/mixtera/core/client/mixtera_client.py
@@ -147,6 +147,14 @@ class MixteraClient(ABC):
 
         return None if val < 0 else val
 
+    def _reset_current_mixture_id(self) -> None:
+        """
+        Forgets the current mixture ID because a new job starts. We do not forget it when a stream of chunks ends:
+        the training still reports feedback for the last samples, and other workers might not have finished yet.
+        """
+        with self.current_mixture_id_val.get_lock():
+            self.current_mixture_id_val.get_obj().value = -1
+
     @abstractmethod
     def register_dataset(
         self,
@@ -288,10 +296,6 @@ class MixteraClient(ABC):
             )
             yield from result_chunk
 
-        with self.current_mixture_id_val.get_lock():
-            self.current_mixture_id_val.get_obj().value = -1
-            # logger.debug("Reset current mixture ID to -1.")
-
     @abstractmethod
     def _stream_result_chunks(
         self, job_id: str, dp_group_id: int, node_id: int, worker_id: int
diff --git a/mixtera/core/client/server/server_stub.py b/mixtera/core/client/server/server_stub.py
index 3025a9a..65e955f 100644
--- a/mixtera/core/client/server/server_stub.py
+++ b/mixtera/core/client/server/server_stub.py
@@ -72,6 +72,7 @@ class ServerStub(MixteraClient):
             return False
 
         logger.info(f"Started query registration for job {query.job_id} at server!")
+        self._reset_current_mixture_id()
 
         return True
 
@@ -133,7 +134,8 @@ class ServerStub(MixteraClient):
         return self.server_connection.checkpoint_completed(job_id, chkpnt_id, on_disk)
 
     def restore_checkpoint(self, job_id: str, chkpnt_id: str) -> None:
-        return self.server_connection.restore_checkpoint(job_id, chkpnt_id)
+        self.server_connection.restore_checkpoint(job_id, chkpnt_id)
+        self._reset_current_mixture_id()
 
     def wait_for_execution(self, job_id: str) -> bool:
         logger.info("Waiting for query execution at server to finish.")
-- 
2.43.0


From 5521367f3971e1a27d8b6f07045634c31d8dc11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:35 +0000
Subject: [PATCH 30/33] fix: a disk error while logging the mixture does not
 end the data of a job

---
 mixtera/core/query/query_result.py | 33 +++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index bda0d1c..7f0c01e 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -123,16 +123,22 @@ class QueryResult:
 
         logger.debug("Persisting mixture log to disk...")
 
-        with open(self._query_log_dir / "mixture.log", "w", encoding="utf-8") as fp:
-            json.dump(
-                {
-                    "log:": {chk_id: mixture.stringified_mixture() for chk_id, mixture in self._mixture_log},
-                    "curr_chunk_idx": curr_chunk_idx,
-                },
-                fp,
-                indent=4,
-                sort_keys=True,
-            )
+        # The logs are informational. If writing them fails, e.g., because the disk is full, we need to continue:
+        # An exception would finish the chunk generator, which looks like the end of the data.
+        try:
+            with open(self._query_log_dir / "mixture.log", "w", encoding="utf-8") as fp:
+                json.dump(
+                    {
+                        "log:": {chk_id: mixture.stringified_mixture() for chk_id, mixture in self._mixture_log},
+                        "curr_chunk_idx": curr_chunk_idx,
+                    },
+                    fp,
+                    indent=4,
+                    sort_keys=True,
+                )
+        except OSError as e:
+            logger.error(f"Could not persist the mixture log: {e}")
+            return
 
         logger.debug("Mixture log persisted.")
 
@@ -140,8 +146,11 @@ class QueryResult:
         if self._query_log_dir is None:
             return
 
-        with open(self._query_log_dir / "chunk.idx", "w", encoding="utf-8") as fp:
-            fp.write(str(current_chunk_index))
+        try:
+            with open(self._query_log_dir / "chunk.idx", "w", encoding="utf-8") as fp:
+                fp.write(str(current_chunk_index))
+        except OSError as e:
+            logger.error(f"Could not persist the current chunk index: {e}")
 
     def _parse_meta(self, mdc: MixteraDataCollection, results: pa.Table) -> dict:
         dataset_ids = set(pc.unique(results["dataset_id"]).to_pylist())
-- 
2.43.0


From 5657e1faf4e6e7a1dbea8880443f6d53cead48e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:48 +0000
Subject: [PATCH 31/33] fix: samples with reordered value lists or separators
 in property values are not dropped

---
 mixtera/core/query/chunker/src/chunker.cpp | 90 ++++++++++++++--------
 1 file changed, 56 insertions(+), 34 deletions(-)

diff --git a/mixtera/core/query/chunker/src/chunker.cpp b/mixtera/core/query/chunker/src/chunker.cpp
index 9af4868..086c83d 100644
--- a/mixtera/core/query/chunker/src/chunker.cpp
+++ b/mixtera/core/query/chunker/src/chunker.cpp
@@ -10,6 +10,7 @@
 #include <pybind11/stl.h>
 #include <spdlog/spdlog.h>
 
+#include <algorithm>
 #include <indicators/block_progress_bar.hpp>
 #include <indicators/cursor_control.hpp>
 #include <indicators/progress_bar.hpp>
@@ -90,6 +91,18 @@ void merge_sorted_intervals_inplace(std::vector<Interval>& target_intervals, std
   std::inplace_merge(target_intervals.begin(), target_intervals.begin() + m, target_intervals.end());
 }
 
+// Helper function to append a property value to a key. We terminate (instead of separate) the values and escape the
+// special characters of the key format, such that each list of values has exactly one representation.
+void append_value(std::string& key, const std::string& value) {
+  for (const char character : value) {
+    if (character == '\\' || character == ',' || character == ';') {
+      key += '\\';
+    }
+    key += character;
+  }
+  key += ',';
+}
+
 // Helper function to process a range of rows
 void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::vector<std::string>& property_columns,
                    ChunkerIndexCpp& local_chunker_index) {
@@ -148,7 +161,7 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
               auto str_array = arrow::internal::checked_pointer_cast<arrow::LargeStringArray>(array);
               value = str_array->GetString(i);
             }
-            key += value;
+            append_value(key, value);
 
             // Handle LIST and LARGE_LIST types
           } else if (type_id == arrow::Type::LIST || type_id == arrow::Type::LARGE_LIST) {
@@ -182,9 +195,8 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
               FAIL(fmt::format("Invalid offset/length for LIST column '{}' at row {}", col_name, i));
             }
 
-            // Build values string
-            std::string values_str;
-            bool first_value = true;
+            // Collect the values of this row
+            std::vector<std::string> values;
 
             const auto value_type_id = value_array->type_id();
 
@@ -202,11 +214,7 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
                   auto str_values = arrow::internal::checked_pointer_cast<arrow::LargeStringArray>(value_array);
                   val = str_values->GetString(k);
                 }
-                if (!first_value) {
-                  values_str += ",";
-                }
-                first_value = false;
-                values_str += val;
+                values.push_back(std::move(val));
               }
 
               // Handle DICTIONARY elements within the list
@@ -248,11 +256,7 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
                                    col_name, dict->type()->ToString()));
                 }
 
-                if (!first_value) {
-                  values_str += ",";
-                }
-                first_value = false;
-                values_str += val;
+                values.push_back(std::move(val));
               }
 
             } else {
@@ -260,7 +264,11 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
                                value_array->type()->ToString()));
             }
 
-            key += values_str;
+            // The order of the values does not matter for a MixtureKey.
+            std::sort(values.begin(), values.end());
+            for (const std::string& val : values) {
+              append_value(key, val);
+            }
 
             // Handle DICTIONARY type
           } else if (type_id == arrow::Type::DICTIONARY) {
@@ -298,7 +306,7 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
                                dict->type()->ToString()));
             }
 
-            key += value;
+            append_value(key, value);
 
           } else {
             FAIL(fmt::format("Unsupported array type in column '{}' at row {}. Type: {}", col_name, i,
@@ -531,26 +539,36 @@ ChunkerIndexCpp merge_chunker_indices(std::vector<ChunkerIndexCpp>* thread_chunk
 
 py::dict string_key_to_property_dict(const MixtureKeyCpp& key) {
   // Parse the C++ key string into a properties dictionary for Python
-  // Expected format: "prop1:val1,val2;prop2:val3"
+  // Expected format: "prop1:val1,val2,;prop2:val3,", in which special characters within values are escaped
   py::dict py_properties;
-  std::stringstream ss_props(key);
-  std::string prop_pair;
-  while (std::getline(ss_props, prop_pair, ';')) {
-    size_t colon_pos = prop_pair.find(':');
-    if (colon_pos == std::string::npos) {
-      continue;
-    }
-    std::string prop_name = prop_pair.substr(0, colon_pos);
-    std::string values_str = prop_pair.substr(colon_pos + 1);
-
-    // Split values by ','
-    std::vector<std::string> values;
-    std::stringstream ss_values(values_str);
-    std::string value;
-    while (std::getline(ss_values, value, ',')) {
-      values.push_back(value);
+  std::string prop_name;
+  std::string value;
+  std::vector<std::string> values;
+  bool in_values = false;
+
+  for (size_t pos = 0; pos <= key.size(); ++pos) {
+    if (pos == key.size() || (in_values && key[pos] == ';')) {
+      if (in_values) {
+        py_properties[py::cast(prop_name)] = py::cast(std::move(values));
+      }
+      prop_name.clear();
+      values = std::vector<std::string>();
+      in_values = false;
+    } else if (!in_values) {
+      if (key[pos] == ':') {
+        in_values = true;
+      } else {
+        prop_name += key[pos];
+      }
+    } else if (key[pos] == ',') {
+      values.push_back(std::move(value));
+      value.clear();
+    } else {
+      if (key[pos] == '\\') {
+        ++pos;
+      }
+      value += key[pos];
     }
-    py_properties[py::cast(prop_name)] = py::cast(std::move(values));
   }
   return py_properties;
 }
@@ -594,6 +612,10 @@ py::object build_py_chunker_index(ChunkerIndexCpp* merged_chunker_index) {
     for (auto& [dataset_id, files] : datasets) {
       py::dict py_files;
       for (auto& [file_id, intervals] : files) {
+        // Rows that differ in the order of their values share a key, but are not adjacent in the table.
+        if (!std::is_sorted(intervals.begin(), intervals.end())) {
+          std::sort(intervals.begin(), intervals.end());
+        }
         py_files[py::cast(file_id)] = py::cast(std::move(intervals));  // Convert vector of intervals to Python list
         intervals.clear();
         intervals.shrink_to_fit();
-- 
2.43.0


From 27b406a06a59f7b873883198ea885dd97444c5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:55 +0000
Subject: [PATCH 32/33] fix: parallel chunk reading neither hangs on readers
 killed while writing nor leaves processes behind

---
 mixtera/core/query/result_chunk.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/query/result_chunk.py b/mixtera/core/query/result_chunk.py
index f02566c..36bf46b 100644
--- a/mixtera/core/query/result_chunk.py
+++ b/mixtera/core/query/result_chunk.py
@@ -382,6 +382,9 @@ class ResultChunk:
             for queue, proc in processes:
                 try:
                     instance = queue.get(timeout=MULTIPROCESSING_TIMEOUT)
+                except (EOFError, OSError) as exc:
+                    # Nobody writes to the queue anymore, but we have not received the end of the stream.
+                    raise RuntimeError("A chunk reader process died before reading all of its data.") from exc
                 except Empty as exc:
                     if proc.is_alive():
                         raise RuntimeError(
@@ -529,7 +532,6 @@ class ResultChunk:
         processes: dict[str, list[tuple[mp.Queue, mp.Process]]] = {}
         total_processes = 0
         pickled_func_dict = dill.dumps(self._parsing_func_dict)
-        start_as_daemon = True if mp.current_process().daemon else None
         for key, process_count in process_counts.items():
             processes[key] = []
 
@@ -555,7 +557,8 @@ class ResultChunk:
                         queue,
                         mp.Process(
                             target=self._reader_process,
-                            daemon=start_as_daemon,
+                            # A consumer that does not read all of its data still needs to be able to exit.
+                            daemon=True,
                             args=(
                                 queue,
                                 self._dataset_type_dict,
@@ -571,6 +574,10 @@ class ResultChunk:
                 # Start the process
                 processes[key][-1][1].start()
 
+                # Only the reader process may hold the writing end of the queue. Otherwise, if it dies while writing
+                # a sample, we wait forever for the rest of that sample.
+                queue._writer.close()
+
         logger.debug(f"Started {total_processes} processes for chunk processing (dop = {self._degree_of_parallelism})")
         return processes
 
@@ -594,6 +601,10 @@ class ResultChunk:
             server_connection: the server connection to use
             workloads: the workloads to process
         """
+        # We only write. With our copy of the reading end being open, we would wait forever to deliver our data
+        # to a consumer that has crashed.
+        queue._reader.close()
+
         # We might have been started as a daemon,
         # in which case we need to clean up ourselves in case for whatever reason our parent exits.
         start_ppid = os.getppid() if mp.current_process().daemon else None
-- 
2.43.0


From e9cd0d5797668d9ede98a14f280c193be0fbcf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:54 +0000
Subject: [PATCH 33/33] fix: a restore of one job must not block the server for
 all clients

---
 mixtera/core/client/local/local_stub.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mixtera/core/client/local/local_stub.py b/mixtera/core/client/local/local_stub.py
index 08e32ad..3a69467 100644
--- a/mixtera/core/client/local/local_stub.py
+++ b/mixtera/core/client/local/local_stub.py
@@ -197,18 +197,20 @@ class LocalStub(MixteraClient):
     def restore_checkpoint(self, job_id: str, chkpnt_id: str) -> None:
         query = None
         mixture = None
+        # Loading a checkpoint takes long. We must not hold the lock meanwhile, as the server processes the feedback
+        # of all jobs on its event loop.
+        distri = ChunkDistributor.from_checkpoint(
+            self.checkpoint_directory / job_id,
+            chkpnt_id,
+            job_id,
+            self.mixture_log_directory / job_id,
+        )
         with self._training_query_map_lock:
             if job_id in self._training_query_map:
                 logger.warning(f"We already have a query for job {job_id}! Overwriting this with checkpoint.")
                 query = self._training_query_map[job_id][1]
                 mixture = self._training_query_map[job_id][2]
 
-            distri = ChunkDistributor.from_checkpoint(
-                self.checkpoint_directory / job_id,
-                chkpnt_id,
-                job_id,
-                self.mixture_log_directory / job_id,
-            )
             self._training_query_map[job_id] = (
                 distri,
                 query,
-- 
2.43.0

