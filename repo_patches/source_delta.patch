From d77977fce16fc21eaf5e180f23e2a3c87a11bde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:37 +0000
Subject: [PATCH 01/37] fix: coalescing with new data overlapping the first row
 group

'rrg_start_idx' being 0 was evaluated as 'no overlap', so that when coalescing
was triggered, new data overlapping the first row group was only merged with
incomplete row groups at the tail, resulting in an unordered dataset and
duplicates not dropped.
---
 oups/store/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 871f3a4..96c7726 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -518,7 +518,7 @@ def write(
             # Confirm or not coalescing of incomplete row groups.
             n_irgs = n_rrgs - rrg_start_idx_tmp
             if total_rows_in_irgs >= max_row_group_size or n_irgs >= max_nirgs:
-                if rrg_start_idx and (
+                if rrg_start_idx is not None and (
                     not rrg_end_idx or (rrg_end_idx and rrg_start_idx_tmp < rrg_end_idx)
                 ):
                     # 1st case checked: case 'ordered_on' is used with potential
-- 
2.43.0


From 222d44a2e58b70fe61814168ce71b237a4ef784f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:43 +0000
Subject: [PATCH 02/37] fix: position of row groups inserted in the middle of
 existing ones

- New data without overlap with existing row groups, but which values precede
  some of them, was written at the tail: dataset was not ordered any longer on
  'ordered_on' (and coalescing mixed it with tail row groups).
- New data merged with existing row groups was positioned by sorting row groups
  on 'max' of 'ordered_on', misplacing it when the next row group starts (and
  ends) with this very same value.
---
 oups/store/writer.py | 46 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 96c7726..c961c6d 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -15,7 +15,6 @@ from typing import Dict, Hashable, List, Tuple, Union
 from fastparquet import ParquetFile
 from fastparquet import write as fp_write
 from fastparquet.api import filter_row_groups
-from fastparquet.api import statistics
 from fastparquet.util import update_custom_metadata
 from numpy import searchsorted as np_searchsorted
 from numpy import unique as np_unique
@@ -248,6 +247,25 @@ def check_cmidx(cmidx: MultiIndex):
                 raise TypeError(f"name {name} has to be of type 'string', not '{type(name)}'.")
 
 
+def _move_last_row_groups(pf: ParquetFile, n_kept: int, idx: int):
+    """
+    Move row groups listed after the 'n_kept' first ones to position 'idx'.
+
+    Parameters
+    ----------
+    pf : ParquetFile
+        ParquetFile which row groups are to be re-ordered.
+    n_kept : int
+        Number of row groups, at head of the list, which are already existing.
+        Row groups listed after are the new ones, to be moved.
+    idx : int
+        Position among existing row groups at which moving new row groups.
+
+    """
+    rgs = pf.fmd.row_groups
+    pf.fmd.row_groups = [*rgs[:idx], *rgs[n_kept:], *rgs[idx:n_kept]]
+
+
 def write_metadata(
     pf: ParquetFile,
     metadata: Dict[str, str] = None,
@@ -458,6 +476,8 @@ def write(
         # Identify overlaps in row groups between new data and recorded data.
         # Recorded row group start and end indexes.
         rrg_start_idx, rrg_end_idx = None, None
+        # Position at which new row groups are inserted, if not at the tail.
+        insert_idx = None
         pf = ParquetFile(dirpath)
         n_rrgs = len(pf.row_groups)
         if duplicates_on is not None:
@@ -505,7 +525,17 @@ def write(
                     rrg_end_idx = rrgs_idx[-1] + 1
                     if rrg_end_idx == n_rrgs:
                         rrg_end_idx = None
-        if max_nirgs is not None:
+            else:
+                # No overlap. Position of new data is after row groups which
+                # values are smaller.
+                n_prior_rgs = len(
+                    filter_row_groups(pf, [[(ordered_on, "<=", start)]], as_idx=True),
+                )
+                if n_prior_rgs < n_rrgs:
+                    insert_idx = n_prior_rgs
+        # If new data is inserted ahead of existing row groups, without
+        # overlap, then coalescing of end data is not performed.
+        if max_nirgs is not None and insert_idx is None:
             # Number of incomplete row groups at end of recorded data.
             # Initialize number of rows with number to be written.
             total_rows_in_irgs = len(data)
@@ -542,6 +572,10 @@ def write(
                 compression=compression,
                 write_fmd=False,
             )
+            if insert_idx is not None:
+                # New data is inserted ahead of existing row groups.
+                _move_last_row_groups(pf, n_rrgs, insert_idx)
+                pf._sort_part_names(write_fmd=False)
         else:
             # Case 'updating' (with existing row groups removal).
             # Read row groups that have impacted data as a vaex dataframe.
@@ -574,12 +608,8 @@ def write(
             pf.remove_row_groups(overlapping_rgs, write_fmd=False)
             if rrg_end_idx is not None:
                 # New data has been inserted in the middle of existing row groups.
-                # Sorting row groups based on 'max' in 'ordered_on'.
-                ordered_on_idx = pf.columns.index(ordered_on)
-                pf.fmd.row_groups = sorted(
-                    pf.fmd.row_groups,
-                    key=lambda rg: statistics(rg.columns[ordered_on_idx])["max"],
-                )
+                # New row groups take the place of those removed.
+                _move_last_row_groups(pf, n_rrgs - len(overlapping_rgs), rrg_start_idx)
             # Rename partition files, and write fmd.
             pf._sort_part_names(write_fmd=False)
     else:
-- 
2.43.0


From 1b138a5c9d01b37968766c56d1b4bc5426fceca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:13 +0000
Subject: [PATCH 03/37] fix: 'max_nirgs' used without 'max_row_group_size'

TypeError was raised, while 'max_row_group_size' has a default value.
---
 oups/store/writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index c961c6d..697307b 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -536,6 +536,8 @@ def write(
         # If new data is inserted ahead of existing row groups, without
         # overlap, then coalescing of end data is not performed.
         if max_nirgs is not None and insert_idx is None:
+            if max_row_group_size is None:
+                max_row_group_size = MAX_ROW_GROUP_SIZE
             # Number of incomplete row groups at end of recorded data.
             # Initialize number of rows with number to be written.
             total_rows_in_irgs = len(data)
-- 
2.43.0


From 53a506d4e947875f31f8e3c13d5dc3c0314a9f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:13 +0000
Subject: [PATCH 04/37] fix: do not modify in-place parameters provided by the
 caller of 'write'

Using same 'metadata' dict for several datasets, oups specific metadata from
one dataset was leaking into the next ones.
---
 oups/store/writer.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 697307b..53dc52a 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -111,7 +111,7 @@ def iter_dataframe(
         elif isinstance(duplicates_on, list):
             if duplicates_on and sharp_on not in duplicates_on:
                 # Case 'not an empty list', and 'ordered_on' not in.
-                duplicates_on.append(sharp_on)
+                duplicates_on = [*duplicates_on, sharp_on]
         elif duplicates_on != sharp_on:
             # Case 'duplicates_on' is a single column name, but not
             # 'sharp_on'.
@@ -331,10 +331,9 @@ def write_metadata(
             existing_oups_spec_md = new_oups_spec_md
         del OUPS_METADATA[md_key]
 
-        if metadata:
-            metadata[OUPS_METADATA_KEY] = dumps(existing_oups_spec_md)
-        else:
-            metadata = {OUPS_METADATA_KEY: dumps(existing_oups_spec_md)}
+        # Not modifying in-place 'metadata', it is owned by the caller, and may
+        # be used for another dataset.
+        metadata = (metadata or {}) | {OUPS_METADATA_KEY: dumps(existing_oups_spec_md)}
 
     if metadata:
         update_custom_metadata(pf, metadata)
@@ -496,7 +495,7 @@ def write(
             elif isinstance(duplicates_on, list):
                 if duplicates_on and ordered_on not in duplicates_on:
                     # Case 'not an empty list', and 'ordered_on' not in.
-                    duplicates_on.append(ordered_on)
+                    duplicates_on = [*duplicates_on, ordered_on]
             elif duplicates_on != ordered_on:
                 # Case 'duplicates_on' is a single column name, but not
                 # 'ordered_on'.
-- 
2.43.0


From 1185fd9a829dbac8812a06520f15c7bdb269e345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:13 +0000
Subject: [PATCH 05/37] fix: management of null values in oups specific
 metadata

Values evaluating to False (0 for instance) were not added to existing ones,
and a 'None' value was kept when there were no prior metadata.
---
 oups/store/writer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 53dc52a..f0d97ca 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -324,11 +324,13 @@ def write_metadata(
                     else:
                         # Case 'update'.
                         existing_oups_spec_md[key] = value
-                elif value:
+                elif value is not None:
                     # Case 'add'.
                     existing_oups_spec_md[key] = value
         else:
-            existing_oups_spec_md = new_oups_spec_md
+            existing_oups_spec_md = {
+                key: value for key, value in new_oups_spec_md.items() if value is not None
+            }
         del OUPS_METADATA[md_key]
 
         # Not modifying in-place 'metadata', it is owned by the caller, and may
-- 
2.43.0


From ac88df20318ca1f8f3ff573665daab0538f21b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:14 +0000
Subject: [PATCH 06/37] fix: writing an empty dataframe in an existing dataset

An exception was raised, and an empty part file, not readable, was possibly
left in the dataset directory. AggStream is writing such empty results when
seed chunks successively fall in the same bin, and that results are written
due to 'max_in_memory_size'.
---
 oups/store/writer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index f0d97ca..f61771f 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -502,7 +502,7 @@ def write(
                 # Case 'duplicates_on' is a single column name, but not
                 # 'ordered_on'.
                 duplicates_on = [duplicates_on, ordered_on]
-        if ordered_on is not None:
+        if ordered_on is not None and len(data):
             # Get 'rrg_start_idx' & 'rrg_end_idx'.
             if isinstance(data, pDataFrame):
                 # Case 'pandas'.
@@ -567,7 +567,8 @@ def write(
             # Case 'appending' (no overlap with recorded data identified).
             # 'coalesce' has possibly been requested but not needed, hence no row
             # groups removal in existing ones.
-            iter_data = iter_dataframe(data, max_row_group_size)
+            # If there is no row in new data, there is nothing to append.
+            iter_data = iter_dataframe(data, max_row_group_size) if len(data) else iter([])
             pf.write_row_groups(
                 data=iter_data,
                 row_group_offsets=None,
-- 
2.43.0


From a50aa0496597a18359d8333d434925392382c0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:14 +0000
Subject: [PATCH 07/37] fix: check column names before updating a dataset

When appending, a missing column was raising an exception after a part file
has been created, and data in additional columns was silently lost.
---
 oups/store/writer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index f61771f..b2bb5ab 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -481,6 +481,15 @@ def write(
         insert_idx = None
         pf = ParquetFile(dirpath)
         n_rrgs = len(pf.row_groups)
+        if len(data):
+            # Check column names before modifying anything on disk.
+            new_cols = data.columns if isinstance(data, pDataFrame) else data.get_column_names()
+            if diff_cols := set(map(str, new_cols)) ^ set(map(str, pf.columns)):
+                raise ValueError(
+                    "column names of new data have to be the same than those in existing "
+                    f"dataset. {diff_cols} are columns being either only in existing dataset "
+                    "or only in new data.",
+                )
         if duplicates_on is not None:
             if not ordered_on:
                 raise ValueError(
-- 
2.43.0


From 629788c098373e6c05bf07f41c2075ca5f62767e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:14 +0000
Subject: [PATCH 08/37] fix: do not remove base directory (and above) when
 removing a dataset

With a trailing '/' in 'basepath', base directory was not recognized and once
empty, it was removed, as well as its empty parents.
---
 oups/store/collection.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/oups/store/collection.py b/oups/store/collection.py
index 6063968..2cf53f6 100644
--- a/oups/store/collection.py
+++ b/oups/store/collection.py
@@ -268,12 +268,14 @@ class ParquetSet:
         if key in self._keys:
             # Keep track of intermediate partition folders, in case one get
             # empty.
-            basepath = self._basepath
-            dirpath = os_path.join(basepath, key.to_path)
+            dirpath = os_path.join(self._basepath, key.to_path)
             rmtree(dirpath)
             self._keys.remove(key)
-            # Remove possibly empty directories.
-            upper_dir = strip_path_tail(dirpath)
-            while (upper_dir != basepath) and (not listdir(upper_dir)):
-                rmdir(upper_dir)
+            # Remove possibly empty directories, only those defined by 'key'
+            # (directories from 'basepath' and above are not to be removed).
+            upper_dir = dirpath
+            for _ in range(self._indexer.depth - 1):
                 upper_dir = strip_path_tail(upper_dir)
+                if listdir(upper_dir):
+                    break
+                rmdir(upper_dir)
-- 
2.43.0


From 8215d79b26c1b0390b3c3c2ea0471ac06d6f0bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:02 +0000
Subject: [PATCH 09/37] fix: do not identify as keys directories not complying
 with the schema

With more fields than expected, first ones were silently ignored. With fields
not split in expected levels, or for instance '007' for an 'int', resulting key
was giving access to another (possibly not existing) directory.
---
 oups/store/collection.py | 5 ++++-
 oups/store/indexer.py    | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/oups/store/collection.py b/oups/store/collection.py
index 2cf53f6..0fbbe32 100644
--- a/oups/store/collection.py
+++ b/oups/store/collection.py
@@ -81,7 +81,10 @@ def get_keys(basepath: str, indexer: Type[dataclass]) -> SortedSet:
             for path, files in paths_files
             if (
                 any((is_parquet_file(file) for file in files))
-                and (key := indexer.from_path(DIR_SEP.join(path.rsplit(DIR_SEP, depth)[1:])))
+                and (key_path := DIR_SEP.join(path.rsplit(DIR_SEP, depth)[1:]))
+                and (key := indexer.from_path(key_path))
+                # Path has to be the one to which 'key' gives access.
+                and key.to_path == key_path
             )
         ],
     )
diff --git a/oups/store/indexer.py b/oups/store/indexer.py
index 5c25abb..8f99a61 100644
--- a/oups/store/indexer.py
+++ b/oups/store/indexer.py
@@ -216,6 +216,9 @@ def _dataclass_instance_from_str(cls: Type[dataclass], string: str) -> Union[dat
                     strings_as_list[-level_length:],
                 )
             ] + [level_types[-1](*level)]
+        if len(strings_as_list) != level_length:
+            # Number of fields in string is not that of the dataclass.
+            return None
         return cls(*level, check=False)
     except (TypeError, ValueError):
         # TypeError if the number of arguments for instantiation of a
-- 
2.43.0


From 9654fc522e2561322a0ec794b0fd922778259122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:02 +0000
Subject: [PATCH 10/37] fix: management of empty strings as field values of an
 indexer

- If first value of last level is an empty string, fields separator was missing
  from resulting string. The key could not be retrieved from this string.
- An empty string as only value of a level was resulting in an empty directory
  name. Data would then be written to (and removed from) 'basepath' itself or
  even the root directory.
---
 oups/store/indexer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oups/store/indexer.py b/oups/store/indexer.py
index 8f99a61..f8c1dea 100644
--- a/oups/store/indexer.py
+++ b/oups/store/indexer.py
@@ -107,6 +107,10 @@ last position.",
                     )
             if not ((type(field) in TYPE_ACCEPTED) or _is_dataclass_instance(field)):
                 raise TypeError(f"field type {type(field)} not possible.")
+        if fields_[0] == "" and (number_of_fields == 1 or _is_dataclass_instance(fields_[1])):
+            # An empty string as only value of a level cannot be turned into a
+            # directory name.
+            raise ValueError("an empty string cannot be the only value of a level.")
     return
 
 
@@ -139,7 +143,7 @@ def _dataclass_instance_to_str(toplevel: dataclass, as_path: bool = False) -> st
     for fields_ in _dataclass_instance_to_lists(toplevel):
         # Relying on the fact that only the tail can be a dataclass instance.
         to_str.append(toplevel.fields_sep.join(map(str, fields_[:-1])))
-    if to_str[-1]:
+    if len(fields_) > 1:
         to_str[-1] += f"{toplevel.fields_sep}{str(fields_[-1])}"
     else:
         to_str[-1] = str(fields_[-1])
-- 
2.43.0


From 3a4638b0843c4b3457faa620f0df464504462d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:38 +0000
Subject: [PATCH 11/37] fix: record aggstream metadata when last seed index is
 0

'last_seed_index' being 0 was considered as not being provided, and restarting
aggregation from recorded results was not possible.
---
 oups/aggstream/aggstream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 7560311..4225935 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -789,7 +789,7 @@ def _post_n_write_agg_chunks(
         initial_agg_res = False
         main_res = None
     main_key, snap_key = key if isinstance(key, tuple) else (key, None)
-    if last_seed_index:
+    if last_seed_index is not None:
         # If 'last_seed_index', set oups metadata.
         # It is possible there is no result yet to write for different reasons:
         # - new seed data has been streamed and needs to be taken into account,
@@ -823,7 +823,7 @@ def _post_n_write_agg_chunks(
             )
         else:
             store[main_key] = write_config, main_res
-    elif last_seed_index:
+    elif last_seed_index is not None:
         # If no result, metadata is possibly to be written, as this is the
         # flag indicating the last 'aggstream' local iteration.
         try:
-- 
2.43.0


From 88debe551a7d03ae94b6b76443fc361a17cdfb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:38 +0000
Subject: [PATCH 12/37] fix: do not modify keys configuration provided to
 AggStream

Parameters were popped from user-provided dict, which could not be re-used to
instantiate another AggStream.
---
 oups/aggstream/aggstream.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 4225935..a4f55c6 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -170,10 +170,9 @@ def _init_keys_config(
     consolidated_keys_config = {}
     agg_pd = {}
     for key, key_conf_in in keys_config.items():
-        # Parameters in 'key_conf_in' take precedence over those in
-        # 'keys_default'. Additionally, with this step, 'key_conf_in' is a
-        # deep copy, and when parameters are popped, it does not affect
-        # the initial 'key_conf_in'.
+        # Copy, so that when parameters are popped, it does not affect the
+        # initial 'key_conf_in'.
+        key_conf_in = dict(key_conf_in)
         try:
             bin_by = key_conf_in.pop(KEY_BIN_BY)
         except KeyError:
@@ -183,6 +182,8 @@ def _init_keys_config(
             key_conf_in[KEY_MAX_IN_MEMORY_SIZE_B] = int(
                 key_conf_in.pop(KEY_MAX_IN_MEMORY_SIZE_MB) * MEGABYTES_TO_BYTES,
             )
+        # Parameters in 'key_conf_in' take precedence over those in
+        # 'keys_default'.
         key_conf_in = keys_default | key_conf_in
         # Check parameters in 'key_conf_in' are valid ones.
         for param in key_conf_in:
-- 
2.43.0


From 2cf6298aad14dc324e99e021c611cf907d3be5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:38 +0000
Subject: [PATCH 13/37] fix: use of 'None' for unfiltered data in 'filters'
 parameter of AggStream

While documented as accepted, it was raising an exception.
---
 oups/aggstream/aggstream.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index a4f55c6..682fbe3 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -1259,7 +1259,7 @@ class AggStream:
             # Check if only an "AND" part has been provided. If yes, enclose it
             # in an outer list.
             filters = {
-                filt_id: [filters_] if isinstance(filters_[0], tuple) else filters_
+                filt_id: [filters_] if filters_ and isinstance(filters_[0], tuple) else filters_
                 for filt_id, filters_ in filters.items()
             }
         # Set default values for keys' config.
@@ -1290,6 +1290,9 @@ class AggStream:
                             "`filters` parameter with a value different than "
                             "`None`.",
                         )
+                    if NO_FILTER_ID not in keys:
+                        # No key related to unfiltered data.
+                        del filters[NO_FILTER_ID]
                 elif NO_FILTER_ID in keys:
                     # If not in 'filters' but in 'keys', add it to 'filters'.
                     filters[NO_FILTER_ID] = None
-- 
2.43.0


From 6e218ecad6c018d6393db8514655ca771415e7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:38 +0000
Subject: [PATCH 14/37] fix: AggStream.agg with a seed iterable not generating
 any chunk

StopIteration was raised.
---
 oups/aggstream/aggstream.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 682fbe3..87ba87a 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -1376,7 +1376,12 @@ class AggStream:
 
         """
         remainder = iter(seed)
-        first = next(remainder)
+        try:
+            first = next(remainder)
+        except StopIteration:
+            # No seed chunk. 'agg_cs' initialization is to be done with next
+            # seed.
+            return []
         # Recompose seed with 1st item materialized.
         seed = chain([first], remainder)
         seed_dtypes = first.dtypes.to_dict()
-- 
2.43.0


From 1430aec30b90e67628cb4adbb0e5e7d206eb5907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 15/37] fix: discard oups specific metadata waiting to be
 written if write fails

Metadata was kept in memory and attached to data written later on for same key,
even if unrelated (for instance 'restart_index' of a failed AggStream write).
---
 oups/store/collection.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/oups/store/collection.py b/oups/store/collection.py
index 0fbbe32..6c94d8d 100644
--- a/oups/store/collection.py
+++ b/oups/store/collection.py
@@ -21,6 +21,7 @@ from oups.store.indexer import is_toplevel
 from oups.store.router import ParquetHandle
 from oups.store.utils import files_at_depth
 from oups.store.utils import strip_path_tail
+from oups.store.writer import OUPS_METADATA
 from oups.store.writer import write
 
 
@@ -200,7 +201,13 @@ class ParquetSet:
         if not isinstance(data, (pDataFrame, vDataFrame)):
             raise TypeError("data should be a pandas or vaex dataframe.")
         dirpath = os_path.join(self._basepath, key.to_path)
-        write(dirpath=dirpath, data=data, md_key=key, **kwargs)
+        try:
+            write(dirpath=dirpath, data=data, md_key=key, **kwargs)
+        except Exception:
+            # Oups specific metadata possibly waiting to be written describe
+            # 'data'. It should not be picked up by next write for this key.
+            OUPS_METADATA.pop(key, None)
+            raise
         if key not in self:
             # If no trouble from writing, add key.
             self._keys.add(key)
-- 
2.43.0


From 4d6614acd1d3d235718688afdb45303f3b1d3f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 16/37] fix: 'max_nirgs' reached without any incomplete row
 group

---
 oups/store/writer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index b2bb5ab..af25fb7 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -568,9 +568,11 @@ def write(
                     # the tail, in which case coalescing of end data would not be
                     # performed.
                     rrg_start_idx = min(rrg_start_idx_tmp, rrg_start_idx)
-                elif not rrg_end_idx:
+                elif not rrg_end_idx and n_irgs:
                     # 2nd case checked: case 'ordered_on' is not used. New data is
                     # necessarily appended in this case.
+                    # If there is no incomplete row group, there is nothing to
+                    # coalesce with new data.
                     rrg_start_idx = rrg_start_idx_tmp
         if rrg_start_idx is None:
             # Case 'appending' (no overlap with recorded data identified).
-- 
2.43.0


From 293f6e4a4b7566faca93e5cbf1f2710be422eaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 17/37] fix: expansion of column names not being string
 representations of tuples

---
 oups/store/writer.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index af25fb7..3910d64 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -201,12 +201,14 @@ def to_midx(idx: Index, levels: List[str] = None) -> MultiIndex:
     for val in idx:
         try:
             tup = literal_eval(val)
-            # Get max number of levels.
-            max_levels = max(len(tup), max_levels)
-            idx_temp.append(tup)
-        except ValueError:
+        except (SyntaxError, ValueError):
+            tup = None
+        if not isinstance(tup, tuple):
             # Keep value as string, enclosed in a tuple.
-            idx_temp.append(tuple(val))
+            tup = (val,)
+        # Get max number of levels.
+        max_levels = max(len(tup), max_levels)
+        idx_temp.append(tup)
     # Generate names of levels if required.
     diff = 0
     if levels is None:
@@ -216,7 +218,8 @@ def to_midx(idx: Index, levels: List[str] = None) -> MultiIndex:
     elif (len_lev := len(levels)) < max_levels:
         diff = max_levels - len_lev
     if diff > 0:
-        levels.extend([f"l{i}" for i in range(len_lev, max_levels)])
+        # Not modifying in-place 'levels', it is owned by the caller.
+        levels = [*levels, *[f"l{i}" for i in range(len_lev, max_levels)]]
     # Equalize length of tuples.
     tuples = [(*t, *[""] * n) if (n := (max_levels - len(t))) else t for t in idx_temp]
     return MultiIndex.from_tuples(tuples, names=levels)
-- 
2.43.0


From a896d4fe3f13b6304a109c8f14d87d7f8dbaec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 18/37] fix: write snapshots before bins, which record restart
 index

---
 oups/aggstream/aggstream.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 87ba87a..771a4ae 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -814,14 +814,17 @@ def _post_n_write_agg_chunks(
     if isinstance(main_res, DataFrame):
         # Record data (with metadata possibly updated).
         if agg_res_type is AggResType.BOTH:
-            store[main_key] = (
-                write_config | {KEY_MAX_ROW_GROUP_SIZE: write_config[KEY_MAX_ROW_GROUP_SIZE][0]},
-                main_res,
-            )
+            # Main key is written last. It records the index from which restarting,
+            # and a restart after an interruption between both writes would
+            # otherwise skip snapshots not written.
             store[snap_key] = (
                 write_config | {KEY_MAX_ROW_GROUP_SIZE: write_config[KEY_MAX_ROW_GROUP_SIZE][1]},
                 snap_res,
             )
+            store[main_key] = (
+                write_config | {KEY_MAX_ROW_GROUP_SIZE: write_config[KEY_MAX_ROW_GROUP_SIZE][0]},
+                main_res,
+            )
         else:
             store[main_key] = write_config, main_res
     elif last_seed_index is not None:
-- 
2.43.0


From b49ecf79f6c705caec5368bb9af4d5d8241974df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 19/37] fix: splitting of a key string with an alphanumeric or
 multi-character fields separator

---
 oups/store/indexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oups/store/indexer.py b/oups/store/indexer.py
index f8c1dea..ee92fcc 100644
--- a/oups/store/indexer.py
+++ b/oups/store/indexer.py
@@ -198,7 +198,7 @@ def _dataclass_instance_from_str(cls: Type[dataclass], string: str) -> Union[dat
     types = _dataclass_fields_types_to_lists(cls)
     # Split string depending 'fields_sep' and 'DIR_SEP', into different fields.
     fields_sep = cls.fields_sep
-    strings_as_list = re.split(rf"{DIR_SEP}|\{fields_sep}", string)
+    strings_as_list = re.split(f"{re.escape(DIR_SEP)}|{re.escape(fields_sep)}", string)
     # Manages last level first.
     level_types = types.pop()  # remove last element
     level_length = len(level_types)
-- 
2.43.0


From bd22cdf48bc028a491b1e426b52d04bc185bb6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 20/37] fix: keep metadata of a dataset without any row when
 adding the first rows

---
 oups/store/writer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 3910d64..18427f4 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -632,6 +632,12 @@ def write(
             pf._sort_part_names(write_fmd=False)
     else:
         # Case initiating a new dataset.
+        # Metadata of an existing dataset without any row (no part file) is kept.
+        prev_metadata = {}
+        if os_path.isfile(os_path.join(dirpath, "_metadata")):
+            prev_metadata = dict(ParquetFile(dirpath).key_value_metadata)
+            # Description of columns is specific to data.
+            prev_metadata.pop("pandas", None)
         iter_data = iter_dataframe(data, max_row_group_size)
         chunk = next(iter_data)
         if cmidx_expand:
@@ -651,6 +657,8 @@ def write(
         )
         # Re-open to write remaining chunks.
         pf = ParquetFile(dirpath)
+        if prev_metadata:
+            update_custom_metadata(pf, prev_metadata)
         # Appending remaining chunks.
         pf.write_row_groups(
             data=iter_data,
-- 
2.43.0


From 56805d10b17777ecb14e87e6d04e8ac80daf4ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 21/37] fix: restart of periods of which a day is not a
 multiple

---
 oups/aggstream/segmentby.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/oups/aggstream/segmentby.py b/oups/aggstream/segmentby.py
index a36fd42..64088b6 100644
--- a/oups/aggstream/segmentby.py
+++ b/oups/aggstream/segmentby.py
@@ -30,6 +30,7 @@ from pandas import concat as pconcat
 from pandas import date_range
 from pandas.core.resample import TimeGrouper
 from pandas.core.resample import _get_timestamp_range_edges as gtre
+from pandas.tseries.offsets import Tick
 
 
 # Some constants.
@@ -52,6 +53,7 @@ KEY_BIN_BY = "bin_by"
 KEY_ORDERED_ON = "ordered_on"
 KEY_SNAP_BY = "snap_by"
 KEY_BIN_ON = "bin_on"
+KEY_ORIGIN = "origin"
 
 
 @njit(
@@ -207,13 +209,23 @@ def by_scale(
         # to use 'closed' provided.
         if closed is None:
             closed = by.closed
+        origin = by.origin
+        if (
+            buffer is not None
+            and origin == "start_day"
+            and isinstance(by.freq, Tick)
+            and Timedelta("1D") % by.freq
+        ):
+            # A day is not a whole number of periods: at restart, periods need
+            # to be positioned with respect to the same day.
+            origin = buffer.setdefault(KEY_ORIGIN, first.normalize())
         start, end = gtre(
             first=first,
             last=on.iloc[-1],
             freq=by.freq,
             closed=closed,
             unit=first.unit,
-            origin=by.origin,
+            origin=origin,
             offset=by.offset,
         )
         edges = date_range(start, end, freq=by.freq)
-- 
2.43.0


From 38c599676dd3fab58de9350dd503ae99afb4d716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 22/37] fix: restart with chunk ends provided as a pandas
 Series

---
 oups/aggstream/segmentby.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oups/aggstream/segmentby.py b/oups/aggstream/segmentby.py
index 64088b6..bb3a16a 100644
--- a/oups/aggstream/segmentby.py
+++ b/oups/aggstream/segmentby.py
@@ -23,6 +23,7 @@ from numpy import ndenumerate
 from numpy import nonzero
 from numpy import zeros
 from pandas import DataFrame as pDataFrame
+from pandas import Index
 from pandas import IntervalIndex
 from pandas import Series as pSeries
 from pandas import Timedelta
@@ -243,6 +244,8 @@ def by_scale(
                 )
         else:
             chunk_labels = chunk_ends = by
+        # Chunk labels and ends are accessed by position in below steps.
+        chunk_labels, chunk_ends = Index(chunk_labels), Index(chunk_ends)
         if buffer:
             # In case at previous iteration, there has been no snapshot,
             # 'buffer' will not contain 'KEY_RESTART_KEY', but will contain
@@ -307,7 +310,7 @@ def by_scale(
         if chunk_ends.empty:
             if isinstance(buffer, dict):
                 buffer[KEY_LAST_ON_VALUE] = on.iloc[-1]
-            return (NULL_INT64_1D_ARRAY, chunk_labels, 0, closed, chunk_ends, False)
+            return (NULL_INT64_1D_ARRAY, pSeries(chunk_labels), 0, closed, chunk_ends, False)
     if chunk_ends.dtype == DTYPE_DATETIME64:
         next_chunk_starts, n_null_chunks, data_traversed = _next_chunk_starts(
             on.to_numpy(copy=False).view(DTYPE_INT64),
-- 
2.43.0


From 0a41452a22aaeb080466b24fef968590eae32397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 23/37] fix: refuse field values which type is not that of the
 schema

---
 oups/store/indexer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oups/store/indexer.py b/oups/store/indexer.py
index ee92fcc..b5d8c25 100644
--- a/oups/store/indexer.py
+++ b/oups/store/indexer.py
@@ -77,7 +77,10 @@ def _validate_toplevel_instance(toplevel: dataclass):
 
     """
     forbidden_chars = (toplevel.fields_sep, *FORBIDDEN_CHARS)
+    level = toplevel
     for fields_ in _dataclass_instance_to_lists(toplevel):
+        types_ = [field.type for field in fields(level)]
+        level = fields_[-1]
         number_of_fields = len(fields_)
         for counter, field in enumerate(fields_):
             if _is_dataclass_instance(field):
@@ -107,6 +110,9 @@ last position.",
                     )
             if not ((type(field) in TYPE_ACCEPTED) or _is_dataclass_instance(field)):
                 raise TypeError(f"field type {type(field)} not possible.")
+            if types_[counter] in TYPE_ACCEPTED and type(field) is not types_[counter]:
+                # Key would not be the same once restored from its path.
+                raise TypeError(f"field type {type(field)} not possible for a {types_[counter]}.")
         if fields_[0] == "" and (number_of_fields == 1 or _is_dataclass_instance(fields_[1])):
             # An empty string as only value of a level cannot be turned into a
             # directory name.
-- 
2.43.0


From b65b8c23000f2a8dba2249b2edcac16f4ce87950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:57 +0000
Subject: [PATCH 24/37] fix: restoring of a key with standard 'pickle'

---
 oups/store/indexer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oups/store/indexer.py b/oups/store/indexer.py
index b5d8c25..fe8ddb6 100644
--- a/oups/store/indexer.py
+++ b/oups/store/indexer.py
@@ -264,7 +264,9 @@ def _reduce(obj: Type[dataclass]) -> Tuple[Callable, Tuple[str]]:
         https://docs.python.org/3/library/pickle.html#object.__reduce__
 
     """
-    return obj.from_str, (str(obj),)
+    # A function found by its name in this module, not 'obj.from_str', which name
+    # as a class method is not that of the function it wraps.
+    return _dataclass_instance_from_str, (type(obj), str(obj))
 
 
 class TopLevel(type):
-- 
2.43.0


From 794987468b17c135db39a54f5c50921670afa562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:19 +0000
Subject: [PATCH 25/37] fix: seed chunks without any row

---
 oups/aggstream/aggstream.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 771a4ae..98ff619 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -554,6 +554,9 @@ def _iter_data(
         # DataFrame its 'final' length.
         if not (seed_remainder is None or seed_remainder.empty):
             seed_chunk = pconcat([seed_remainder, seed_chunk], ignore_index=True)
+        if seed_chunk.empty:
+            # No row in this chunk. Go to the next.
+            continue
         # Step 3 / Prepare filter to trim seed head and tail if requested.
         if trim_start:
             if seed_chunk.loc[:, ordered_on].iloc[-1] < restart_index:
-- 
2.43.0


From 03a95a372d91886728ee718f966d13f18de9fa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:58 +0000
Subject: [PATCH 26/37] fix: refuse a key for bins or snapshots used several
 times

Keys within a tuple of keys were not part of the check, and two aggregations
could write in the same dataset.
---
 oups/aggstream/aggstream.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 98ff619..5f6ce27 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -1328,7 +1328,9 @@ class AggStream:
             if n_jobs not in _p_jobs:
                 # Configure parallel jobs.
                 _p_jobs[n_jobs] = Parallel(n_jobs=n_jobs, prefer="threads")
-            _all_keys.extend(keys[filt_id])
+            # A tuple of keys is made of the keys for bins and for snapshots.
+            for key in keys[filt_id]:
+                _all_keys.extend(key if isinstance(key, tuple) else [key])
         # Check for duplicates keys between different filter ids.
         seen = set()
         dupes = [key for key in _all_keys if key in seen or seen.add(key)]
-- 
2.43.0


From 233eeb56f335b4a8842595ca0f87531ccfb1983e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:58 +0000
Subject: [PATCH 27/37] fix: refuse filters which are not applied to any key

They were silently ignored when 'keys' does not use the filter syntax.
---
 oups/aggstream/aggstream.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 5f6ce27..d5ee964 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -1315,6 +1315,11 @@ class AggStream:
                     )
         else:
             # Case no filter is used.
+            if filters is not None and set(filters) - {NO_FILTER_ID}:
+                raise ValueError(
+                    "not possible to use `filters` parameter without using "
+                    "filter syntax for `keys` parameter as well.",
+                )
             keys = {NO_FILTER_ID: keys}
             filters = {NO_FILTER_ID: None}
         _filter_apps = {}
-- 
2.43.0


From ed7f5cb4ea824cc6811a335a397ea789b7595250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:21 +0000
Subject: [PATCH 28/37] fix: identify a single result from 'post' when it has 2
 columns

Its column names were taken for the results, which were lost.
---
 oups/aggstream/aggstream.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index d5ee964..34f969c 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -770,6 +770,9 @@ def _post_n_write_agg_chunks(
                 # First result, recorded with 'bin_key', is considered main
                 # result.
                 try:
+                    if isinstance(main_res, DataFrame):
+                        # A single result, made of 2 columns, can be unpacked.
+                        raise ValueError
                     main_res, snap_res = main_res
                 except ValueError:
                     raise ValueError(
-- 
2.43.0


From 72b0a13d763bf21868e9a3e1dec9e4c06c9ad62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:49 +0000
Subject: [PATCH 29/37] fix: check of column multi-index with null or unused
 values in levels

---
 oups/store/writer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 18427f4..b0d0ce5 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -244,8 +244,10 @@ def check_cmidx(cmidx: MultiIndex):
             "not possible to have level name set to None.",
         )  # If an item of the column name is not a string, turn it into a string.
     # Check column names.
-    for level in cmidx.levels:
-        for name in level:
+    # Not relying on 'cmidx.levels', which do not contain null values, and may
+    # contain values that are not used.
+    for col in cmidx:
+        for name in col:
             if not isinstance(name, str):
                 raise TypeError(f"name {name} has to be of type 'string', not '{type(name)}'.")
 
-- 
2.43.0


From cd1644487006b11a352a4f30ee326dc6ce1afaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:49 +0000
Subject: [PATCH 30/37] fix: conform_cmidx with items having the same string
 representation

Index shared with other objects is also not modified in-place.
---
 oups/store/utils.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/oups/store/utils.py b/oups/store/utils.py
index 5e2b339..6cd4b3a 100644
--- a/oups/store/utils.py
+++ b/oups/store/utils.py
@@ -8,7 +8,7 @@ Created on Wed Dec  4 21:30:00 2021.
 from os import scandir
 from typing import Iterator, List, Tuple
 
-from pandas import DataFrame
+from pandas import DataFrame, MultiIndex
 
 from oups.store.defines import DIR_SEP
 
@@ -105,16 +105,14 @@ def conform_cmidx(df: DataFrame):
     cmidx = df.columns
     if None in cmidx.names:
         level_updated_idx = [i for i, name in enumerate(cmidx.names) if name is None]
-        cmidx.set_names([""] * len(level_updated_idx), level=level_updated_idx, inplace=True)
+        # Not modifying in-place the index, possibly shared with other objects.
+        cmidx = cmidx.set_names([""] * len(level_updated_idx), level=level_updated_idx)
+        df.columns = cmidx
     # If an item of the column name is not a string, turn it into a string.
-    # Using 'set_levels()' instead of rconstructing a MultiIndex to preserve
-    # index names directly.
-    level_updated_idx = []
-    level_updated = []
-    for i, level in enumerate(cmidx.levels):
-        str_level = [name if isinstance(name, str) else str(name) for name in level]
-        if level.to_list() != str_level:
-            level_updated_idx.append(i)
-            level_updated.append(str_level)
-    if level_updated:
-        df.columns = df.columns.set_levels(level_updated, level=level_updated_idx)
+    # Not using 'set_levels()', which does not accept 2 items of a level having
+    # the same string representation.
+    str_cols = [
+        tuple(name if isinstance(name, str) else str(name) for name in col) for col in cmidx
+    ]
+    if cmidx.to_list() != str_cols:
+        df.columns = MultiIndex.from_tuples(str_cols, names=cmidx.names)
-- 
2.43.0


From 344136f1867685c3f36872e67a7a8fb9860c05ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:49 +0000
Subject: [PATCH 31/37] fix: expand column names of all row groups when
 creating a dataset

---
 oups/store/writer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index b0d0ce5..1684e95 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -643,7 +643,10 @@ def write(
         iter_data = iter_dataframe(data, max_row_group_size)
         chunk = next(iter_data)
         if cmidx_expand:
-            chunk.columns = to_midx(chunk.columns, cmidx_levels)
+            cmidx = to_midx(chunk.columns, cmidx_levels)
+            chunk.columns = cmidx
+            # Same column names in next chunks.
+            iter_data = (next_chunk.set_axis(cmidx, axis=1) for next_chunk in iter_data)
         # In case multi-index is used, check that it complies with fastparquet
         # limitations.
         if isinstance(chunk.columns, MultiIndex):
-- 
2.43.0


From 37ad2d944ad3ae4a9a18d3296d27bf8fb0cfca2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:49 +0000
Subject: [PATCH 32/37] fix: expansion of column names which are not hashable
 once evaluated

---
 oups/store/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 1684e95..48c33b3 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -201,7 +201,7 @@ def to_midx(idx: Index, levels: List[str] = None) -> MultiIndex:
     for val in idx:
         try:
             tup = literal_eval(val)
-        except (SyntaxError, ValueError):
+        except (SyntaxError, TypeError, ValueError):
             tup = None
         if not isinstance(tup, tuple):
             # Keep value as string, enclosed in a tuple.
-- 
2.43.0


From 1b2637070c3df9eb33bf80c1a5ce7a107f5a720c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 33/37] fix: restart of periods positioned with respect to
 first value

---
 oups/aggstream/segmentby.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/oups/aggstream/segmentby.py b/oups/aggstream/segmentby.py
index bb3a16a..887da15 100644
--- a/oups/aggstream/segmentby.py
+++ b/oups/aggstream/segmentby.py
@@ -357,8 +357,14 @@ def by_scale(
                     buffer[KEY_RESTART_KEY] = chunk_ends[n_chunks - 2]
                 else:
                     # If there is a single incomplete bin, take first element
-                    # in 'on'.
-                    buffer[KEY_RESTART_KEY] = on.iloc[0]
+                    # in 'on'. If position of bins depends on this element, then
+                    # take the one from which bin has been generated: it is in
+                    # 'buffer' if bin is in-progress since previous iteration.
+                    buffer[KEY_RESTART_KEY] = (
+                        on.iloc[0]
+                        if isinstance(by.freq, Tick) and by.origin != "start"
+                        else first
+                    )
             else:
                 # Take last end
                 # - either if 'by' is a TimeGrouper, as it is enough for
-- 
2.43.0


From ad1fdf080cfe8e16de60dab9c5a20893a3706f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:05 +0000
Subject: [PATCH 34/37] fix: min and max of a column with null values only in a
 row group, or without statistics

---
 oups/store/router.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/oups/store/router.py b/oups/store/router.py
index 2422a5b..eecd73a 100644
--- a/oups/store/router.py
+++ b/oups/store/router.py
@@ -95,11 +95,18 @@ class ParquetHandle:
         Returns
         -------
         tuple
-            Min and max values of column.
-
-        """
-        pf_stats = ParquetFile(self._dirpath).statistics
-        return (min(pf_stats["min"][col]), max(pf_stats["max"][col]))
+            Min and max values of column, null values being ignored.
+
+        """
+        pf = ParquetFile(self._dirpath)
+        pf_stats = pf.statistics
+        mins, maxs = pf_stats["min"][col], pf_stats["max"][col]
+        if any(val is None for val in [*mins, *maxs]):
+            # Statistics are not available for all row groups, either because of
+            # the type of data, or because a row group only has null values.
+            vals = pf.to_pandas(columns=[col], index=False).iloc[:, 0].dropna()
+            return (vals.min(), vals.max()) if len(vals) else (None, None)
+        return (min(mins), max(maxs))
 
     @property
     def metadata(self) -> dict:
-- 
2.43.0


From f1697919d83a887ab6e71070bcb5730be21ddf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:01 +0000
Subject: [PATCH 35/37] fix: integers with null values altered when row groups
 are merged

---
 oups/store/writer.py | 43 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 48c33b3..a27ddb2 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -16,11 +16,14 @@ from fastparquet import ParquetFile
 from fastparquet import write as fp_write
 from fastparquet.api import filter_row_groups
 from fastparquet.util import update_custom_metadata
+from numpy import asarray as np_asarray
 from numpy import searchsorted as np_searchsorted
 from numpy import unique as np_unique
+from numpy.ma import getmaskarray as np_getmaskarray
 from pandas import DataFrame as pDataFrame
 from pandas import Index
 from pandas import MultiIndex
+from pandas.arrays import IntegerArray
 from vaex import from_pandas
 from vaex import open_many
 from vaex.dataframe import DataFrame as vDataFrame
@@ -45,6 +48,32 @@ OUPS_METADATA = {}
 OUPS_METADATA_KEY = "oups"
 
 
+def _to_pandas(data: vDataFrame, int_cols: List[str]) -> pDataFrame:
+    """
+    Convert vaex dataframe to pandas.
+
+    Parameters
+    ----------
+    data : vDataFrame
+        Data to convert.
+    int_cols : List[str]
+        Names of integer columns with null values, to be converted to pandas
+        nullable integers. Without this, they are converted to float, and large
+        values are altered.
+
+    Returns
+    -------
+    pDataFrame
+        Data as a pandas dataframe.
+
+    """
+    df = data.to_pandas_df()
+    for col in int_cols:
+        values = data.evaluate(col, array_type="numpy")
+        df[col] = IntegerArray(np_asarray(values), np_getmaskarray(values).copy())
+    return df
+
+
 def iter_dataframe(
     data: Union[pDataFrame, vDataFrame],
     max_row_group_size: int = None,
@@ -141,6 +170,13 @@ def iter_dataframe(
         starts = np_unique(np_searchsorted(data[sharp_on].to_numpy(), val_at_start)).tolist()
     ends = starts[1:] + [None]
     if isinstance(data, vDataFrame):
+        # Integer columns with null values, to be kept as integers by conversion
+        # to pandas.
+        int_cols = [
+            col
+            for col in data.get_column_names()
+            if data.is_masked(col) and data.data_type(col).is_integer
+        ]
         if duplicates_on is not None:
             if duplicates_on == []:
                 columns = data.get_column_names()
@@ -154,10 +190,13 @@ def iter_dataframe(
                 # This removes then the constraints to have 'sharp_on' set and
                 # and in 'duplicates_on'. Duplicates are then dropped over the
                 # full dataset to be written.
-                yield data[start:end].to_pandas_df().drop_duplicates(duplicates_on, keep="last")
+                yield _to_pandas(data[start:end], int_cols).drop_duplicates(
+                    duplicates_on,
+                    keep="last",
+                )
         else:
             for start, end in zip(starts, ends):
-                yield data[start:end].to_pandas_df()
+                yield _to_pandas(data[start:end], int_cols)
     else:
         for start, end in zip(starts, ends):
             yield data.iloc[start:end]
-- 
2.43.0


From 05364914026fe45716077a1c3892c62073845d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:40 +0000
Subject: [PATCH 36/37] fix: chained calls with an empty list of points,
 several times in a row

---
 oups/aggstream/segmentby.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oups/aggstream/segmentby.py b/oups/aggstream/segmentby.py
index 887da15..28cd531 100644
--- a/oups/aggstream/segmentby.py
+++ b/oups/aggstream/segmentby.py
@@ -294,8 +294,9 @@ def by_scale(
                         "2nd chunk end in 'by' has to be larger than value "
                         f"{buffer[KEY_LAST_ON_VALUE]} to restart correctly.",
                     )
-                if (closed == RIGHT and chunk_ends[0] < last_on_value) or (
-                    closed == LEFT and chunk_ends[0] <= last_on_value
+                if not chunk_ends.empty and (
+                    (closed == RIGHT and chunk_ends[0] < last_on_value)
+                    or (closed == LEFT and chunk_ends[0] <= last_on_value)
                 ):
                     # At previous iteration, if last value in 'on' is later
                     # than first chunk end, then this chunk should not be
-- 
2.43.0


From 7ab47a109e9ed66449ffdb2ceca966cbe2cb65cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:34 +0000
Subject: [PATCH 37/37] fix: chained calls can go on after a call refused
 because of its bins or points

---
 oups/aggstream/segmentby.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oups/aggstream/segmentby.py b/oups/aggstream/segmentby.py
index 28cd531..2d38e19 100644
--- a/oups/aggstream/segmentby.py
+++ b/oups/aggstream/segmentby.py
@@ -912,6 +912,11 @@ def segmentby(
         # 'bin_by[KEY_SNAP_BY]' is not none if 'snap_by' is a TimeGrouper.
         # Otherwise, it can be a DatetimeIndex or a Series.
         snap_by = bin_by[KEY_SNAP_BY]
+    given_buffer = buffer
+    if buffer is not None:
+        # Work on a copy, and update 'buffer' at the end only. In case an
+        # exception is raised, 'buffer' is then unchanged.
+        buffer = {k: dict(v) if isinstance(v, dict) else v for k, v in buffer.items()}
     buffer_bin, buffer_snap = setup_mainbuffer(buffer, snap_by is not None)
     ordered_on = bin_by[KEY_ORDERED_ON]
     if ordered_on:
@@ -1039,6 +1044,7 @@ def segmentby(
     # Check is managed at upper level in `cumsegagg`.
     if buffer is not None:
         buffer[KEY_LAST_BIN_LABEL] = bin_labels.iloc[-1]
+        given_buffer.update(buffer)
     return (
         next_chunk_starts,
         bin_indices,
-- 
2.43.0

