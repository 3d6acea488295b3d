"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe, hook_needed=hook)))
W, C, I, R, U = ("oups/store/writer.py", "oups/store/collection.py", "oups/store/indexer.py",
                 "oups/store/router.py", "oups/store/utils.py")
A, S, G, J, F = ("oups/aggstream/aggstream.py", "oups/aggstream/segmentby.py", "oups/aggstream/cumsegagg.py",
                 "oups/aggstream/jcumsegagg.py", "oups/aggstream/utils.py")
DISK = ("row groups on disk", "ordered list of part files and their rows", W + ":write")

p("C01", "No row is lost, invented or altered by any history of writes",
  "After any sequence of accepted writes to a dataset (appends, overlaps, insertions before or between existing row groups, coalescing, any row group size, pandas or vaex input) made without asking for duplicates to be dropped, the dataset contains exactly the multiset of all rows written, each with every column value unchanged, and the data given by the caller is left as it was. "
  "When a write asks for duplicates to be dropped, a row disappears only if a row with the same values in the duplicate columns (ordering column included) is still in the dataset.",
  ["histories", "inputs", "configurations"],
  "all sequences of writes to one dataset, over data positions relative to existing row groups, row group sizes, max number of incomplete row groups, ordering and duplicate settings, pandas/vaex inputs",
  "the tests run a dozen hand-made two- or three-write histories with fixed sizes; the number of combinations of overlap position, row-group layout and coalescing decision is unbounded",
  [W, C], [("overlap identification and rewrite of the overlapped row groups", W + ":write"),
           ("splitting in chunks", W + ":iter_dataframe"), ("position of new row groups", W + ":_move_last_row_groups")],
  ["ParquetSet[key].pdf after each write"], [DISK])
p("C02", "Ordered datasets stay ordered, ties kept in write order",
  "If every write to a dataset declares the same ordering column and provides rows ascending on it, then reading the dataset returns, after each write, rows in ascending order of that column. "
  "Rows with equal ordering values are returned in the order in which they were written (existing ones first, then new ones, each in their original order).",
  ["histories", "inputs", "configurations"],
  "all histories of ordered writes, whatever the relative position of new data (before, inside, between, after existing row groups, ties at the edges), row group sizes and coalescing settings",
  "tests only insert at a few chosen positions; ties across row-group edges combined with insertion position and coalescing are not sampled",
  [W], [("position of new data from row group statistics", W + ":write"), ("sort of merged data", W + ":write"),
        ("renaming of part files in row group order", W + ":write")],
  ["ParquetSet[key].pdf and .pf row groups after each write"], [DISK])
p("C03", "Duplicates: last one kept, over all rows the write merges",
  "When a write asking for duplicates to be dropped overlaps existing row groups, then over the new rows and the rows of all overlapped row groups exactly the last row (existing before new) of each combination of values in the duplicate columns plus the ordering column remains; an empty list of duplicate columns means all columns. "
  "Rows in row groups not rewritten by the write are left as they are, and the row order is otherwise preserved.",
  ["histories", "inputs", "configurations"],
  "all histories of writes with duplicate columns given as a string, a list (with or without the ordering column), an empty list, over all overlaps and row group sizes (duplicates possibly straddling computed row group limits)",
  "tests check one or two data sets; the keep-last result depends on how the split points fall with respect to runs of equal ordering values, and on which row groups are identified as overlapped",
  [W], [("row group limits moved to not separate equal ordering values", W + ":iter_dataframe"),
        ("drop of duplicates per row group", W + ":iter_dataframe"), ("ordering column added to duplicate columns", W + ":write")],
  ["ParquetSet[key].pdf after each write"], [DISK])
p("C04", "Row group sizes, sharp limits and coalescing rule are honoured",
  "After any write, a row group produced by it holds at most the requested maximum number of rows (beyond it only rows equal, on the ordering column, to its first one), and two consecutive row groups produced by a merge on an ordering column never share an ordering value. "
  "Row groups lying before the new data are kept untouched unless they are trailing incomplete row groups (under 90% of the maximum) while a maximum number of incomplete row groups is set, and either this number is reached or their rows and the new ones reach the maximum size: these are then merged with the new data (those overlapping the new data or lying before it, if others follow), in no more row groups than needed. "
  "Row groups lying after new data which overlaps several row groups, or none, are kept untouched and after it.",
  ["histories", "inputs", "configurations"],
  "all layouts of existing row groups, all sizes/positions of new data, all row group size and incomplete row group limits",
  "the tests fix a few layouts; the rule has many boundary cases (exactly 90%, exactly the limit, exactly the size) that only an enumeration reaches",
  [W], [("count of trailing incomplete row groups", W + ":write"), ("even split of rows", W + ":iter_dataframe")],
  ["ParquetSet[key].pf row groups before and after a write"], [DISK])
p("C05", "All ways of reading a dataset agree, now and after reopening",
  "At any point of a history of writes, reading a dataset as a pandas dataframe, as a vaex dataframe, through its parquet file handle, row group by row group, or from another store instance opened on the same directory gives the same rows in the same order; a handle obtained before a write gives the rows of after this write in its pandas and vaex views. "
  "The minimum and maximum reported for a column, of any type, are those of the values stored in it (null values being ignored), and the dataset directory contains one part file per row group and no left-over file.",
  ["histories", "inputs"],
  "all histories of writes, with any number of row groups (more than ten, so that lexicographic and numeric orders of part files differ), insertions and coalescing",
  "tests compare views on two or three row groups after one write; disagreement needs row groups reordered or renamed by particular histories",
  [R, W, C], [("ordering of part files for vaex", R + ":ParquetHandle.vdf"), ("statistics", R + ":ParquetHandle.min_max"),
              ("part renaming and metadata file", W + ":write")],
  ["pdf, vdf, pf, min_max, directory listing, second ParquetSet"], [DISK])
p("C06", "Metadata: exact merge, persistence and isolation between datasets",
  "The user metadata of a dataset is, after any history, the result of merging in order the metadata given at each write (value given: added or replaced, null value: removed, absent: kept), whatever happens to the rows in these writes, row group rewriting and empty writes included. "
  "A write to one dataset never changes the metadata of another one, nor the objects given by the caller. "
  "Library-internal metadata attached to a dataset is merged per item by the same rule and is never visible in, nor consumed by, another dataset.",
  ["histories", "inputs"],
  "all interleavings of writes, with metadata added, replaced, removed or absent, to several datasets of one store",
  "tests do one add, one update and one removal on a single dataset",
  [W, R], [("merge of metadata", W + ":write_metadata"), ("reading of metadata", R + ":ParquetHandle.metadata")],
  ["ParquetSet[key].metadata, ._oups_metadata"], [("pending library metadata", "dict of metadata waiting for next write of a key", W + ":OUPS_METADATA")])
p("C07", "Rejected and empty writes leave the store as it was",
  "A write rejected with an exception because of its arguments (unknown ordering column, column names differing from those recorded, duplicates asked without ordering column on an existing dataset, wrong key or data type, invalid parameters container) leaves every file of the store and the list of keys as they were before the call, and nothing of it, data or metadata, shows up along with later accepted writes. "
  "Writing an empty dataframe to an existing dataset, without asking for duplicates to be dropped, never changes its rows.",
  ["histories", "inputs"],
  "all interleavings of accepted and rejected writes, on existing and missing keys, with and without metadata",
  "tests check that an exception is raised, not the state left behind, and not what the next accepted writes then do",
  [W, C], [("argument checks ahead of any modification on disk", W + ":write"), ("key added after a successful write only", C + ":ParquetSet.set"),
           ("pending metadata discarded if write fails", C + ":ParquetSet.set")],
  ["bytes of all files under the base directory, keys, next write's metadata"], [DISK])
p("C08", "Keys of a store mirror the datasets on disk",
  "At any point, the keys listed by a store instance (sorted, without repetition, with consistent length, membership and iteration) are exactly those of the datasets written through it, or present when it was opened, and not deleted since; a store opened afresh on the directory lists exactly the same keys. "
  "Files and directories which do not comply with the key schema are never listed and never prevent opening the store.",
  ["histories", "inputs", "configurations"],
  "all histories of set/delete/reopen on several keys for schemas of depth 1 to 3, with foreign files and directories lying around at any level",
  "tests build one fixed directory tree",
  [C, U, I], [("directory scan", U + ":files_at_depth"), ("key from path", C + ":get_keys"), ("key registration", C + ":ParquetSet.set")],
  ["ParquetSet.keys, len, in, iteration, reopened ParquetSet"], [("keys", "sorted set of keys in memory", C + ":ParquetSet._keys")])
p("C09", "Deleting a dataset removes it all, and nothing else",
  "Deleting a key removes its dataset directory and those parent directories, below the base directory, that become empty, and changes no other file or directory: other datasets, foreign files and the base directory itself stay. "
  "Deleting a key that is not in the store changes nothing, and a deleted key can be written again as a new dataset not inheriting rows or metadata.",
  ["histories", "configurations"],
  "all histories of set/delete over keys sharing directory levels, for schemas of depth 1 to 3, base directories given with or without trailing separator, foreign files at any level",
  "one test deletes one key out of two",
  [C, U], [("removal of directory and of empty parents", C + ":ParquetSet.__delitem__"), ("parent path", U + ":strip_path_tail")],
  ["full directory tree below and around the base directory"], [("keys", "sorted set of keys in memory", C + ":ParquetSet._keys")])
p("C10", "Keys, paths and strings convert both ways without collision",
  "For every key schema (nested levels, integer and string fields, any single-character separator other than the directory one) and every key it accepts, converting the key to its path or to its string and back, or pickling and unpickling it (its class being importable), gives an equal key; two different keys never share a path or a string, and the path has exactly as many levels as the schema. "
  "Field values that would break this (containing the separator, a directory separator or a dot, of another type, or an empty string being alone in its level) are rejected at creation, as is a string or path which does not have the fields of the schema, or a nested level elsewhere than in last position after other fields. Keys are ordered by their field values, level after level, equal keys have the same hash, and a key cannot be modified.",
  ["inputs", "configurations"],
  "all schemas of up to three levels and four fields, all field values over an alphabet including separators, digits, signs, spaces and empty strings",
  "tests use a handful of values",
  [I], [("validation", I + ":_validate_toplevel_instance"), ("to string", I + ":_dataclass_instance_to_str"), ("from string", I + ":_dataclass_instance_from_str"),
        ("pickling", I + ":_reduce")],
  ["key.to_path, str(key), from_path, from_str, pickle"])
p("C11", "Bins: every row in exactly one bin, bin values exact, empty bins null",
  "For any ordered data and any time-period binning (period, origin, offset, left/right closed side, left/right label; calendar periods closed on the left), explicit bin ends or row-count binning, the returned bins are, in order and without gap, all the periods from the one of the first row to the one of the last row (respectively all the bins given by the explicit ends up to the one of the last row, all groups of the given number of consecutive rows, and all the bins returned by a user function), each row counting in exactly one of them. "
  "For each requested aggregation (first, last, min, max, sum) on integer, float or timestamp columns, the value of a bin is that of the rows it contains, and a bin without row has a null value (a null value of a column is the first or last one as any other, and makes a sum null; minimum and maximum of null values are left aside). The data and settings given by the caller are left as they were.",
  ["inputs", "configurations"],
  "all row positions (ties, rows on bin edges, gaps of several bins), periods, closed side, label side, aggregation functions and column types",
  "tests compare a few fixed dataframes; errors depend on coincidence of rows with bin edges, on gaps and on ties",
  [S, G, J], [("bin edges and next chunk starts", S + ":by_scale"), ("row count bins", S + ":by_x_rows"), ("cumulative aggregation", J + ":jcsagg"), ("null rows", G + ":cumsegagg")],
  ["result of cumsegagg"])
p("C12", "Snapshots: running value of the on-going bin at each observation point",
  "For any ordered data, binning and observation points (regular period or explicit list), the snapshot at a point has, for each aggregation, the value over the rows lying in the bin on-going at this point and before the point (point included or not according to the closed side of the bins), and is null if there is no such row. "
  "A point coinciding with the end of a bin observes this ending bin, not the next one, and taking snapshots does not change the bins.",
  ["inputs", "configurations"],
  "all positions of rows, bin ends and observation points, coincidences and gaps included; closed sides; period bins and row-count bins",
  "tests fix a few dataframes; the merge of snapshot and bin limits has many coincidence cases",
  [S, G, J], [("merge of bins and snapshots", S + ":mergesort"), ("points of observation", S + ":by_scale"), ("running values", J + ":jcsagg")],
  ["second result of cumsegagg with snap_by"])
p("C13", "Chained aggregation equals one-shot aggregation, for any chunking",
  "Aggregating an ordered dataset in successive chunks, handing the buffer over from one call to the next, and keeping for each bin (and snapshot) label the value returned last, gives exactly the bins and snapshots of one call on the whole data, wherever chunk limits fall (in a bin, on a bin edge, among equal values, before or after empty bins). "
  "This holds for period bins (whatever their origin), explicit bin ends and row-count bins, with or without snapshots, and when the buffer is serialized and restored between calls. "
  "Explicit bin ends and points of observation may be given progressively, from any of those already used on, as long as the ones passed by the data of a call are given to it; the snapshots of a point given are then those of one call on the whole data provided so far.",
  ["inputs", "histories", "configurations"],
  "all ordered data and all their partitions in non-empty chunks, all bin and snapshot settings",
  "tests use one or two hand-picked chunk limits per setting",
  [S, G, J], [("restart key and last values in buffer", S + ":by_scale"), ("restart of row count bins", S + ":by_x_rows"), ("restored partial results", G + ":cumsegagg")],
  ["successive results of cumsegagg with buffer"], [("buffer", "restart data", G + ":cumsegagg")])
p("C14", "Streamed aggregation gives what one aggregation of all data gives",
  "Whatever the way a stream of ordered data is cut in chunks, the chunks grouped in successive calls, and new aggregation objects created on the same store between calls, the results recorded for a key after a final write equal those of aggregating the same rows at once: one row per bin, ascending, the last value for each. "
  "The same is true for snapshots, recorded alone or next to bins. A key added to the declared ones when continuing gets the results of the rows provided from then on, and the other keys are not affected.",
  ["histories", "inputs", "configurations"],
  "all cuts of a stream in chunks, calls (with or without final write) and object lifetimes; results types bins, snapshots, both; row group sizes",
  "tests follow a few scripted streams",
  [A, G, W], [("buffers and restart data", A + ":_init_buffers"), ("results of last iteration overwritten", A + ":agg_iter"), ("writing", A + ":_post_n_write_agg_chunks")],
  ["store[key].pdf after each call"], [("restart index and buffers", "restart data recorded in metadata", A + ":_post_n_write_agg_chunks")])
p("C15", "Trimming and discarding: every seed row counts exactly once",
  "When each call discards the last group of rows (sharing the last ordering value) and trims the head of the seed up to the recorded restart index, then feeding, call after call, seed data which overlaps or repeats what was already provided, the recorded results equal those of aggregating each seed row once up to the last ordering value provided, excluded. "
  "The discarded rows are counted later, once newer rows arrive, including rows with the same ordering value coming in a later chunk or call.",
  ["histories", "inputs"],
  "all sequences of calls whose seed restarts anywhere at or before the restart index, with ties on the ordering column at chunk limits, restart on new objects, integer/float/timestamp ordering",
  "tests use a couple of streams",
  [A], [("trim and discard", A + ":_iter_data"), ("restart index kept in metadata", A + ":_post_n_write_agg_chunks")],
  ["store[key].pdf and restart index after each call"], [("restart index", "last ordering value, not yet counted", A + ":AggStream.seed_config")])
p("C16", "Filters: each key aggregates exactly its own rows",
  "With several filters, the results of a key are those of aggregating only the seed rows satisfying the filter under which it is declared (comparisons, membership, negation, combined by and/or), unfiltered keys getting all rows, whatever the chunking and even if some chunks or whole streams have no row for a filter. "
  "Results of a key do not depend on which other filters or keys are declared along.",
  ["inputs", "configurations", "histories"],
  "all filter expressions over seed columns, all chunkings, several filters and keys per filter, restarts",
  "tests use two filters on one stream",
  [A, F], [("filter evaluation", F + ":dataframe_filter"), ("dispatch of filtered chunks to keys", A + ":AggStream.agg")],
  ["store[key].pdf for each key"])
p("C17", "A failing seed check records results up to the last valid chunk",
  "If the user check on seed data fails, or a chunk is not in ascending order, aggregation stops there, the call raises the seed check exception carrying the original message, and the results and restart index recorded with the final write are exactly those of the chunks ahead of the failing one. "
  "Restarting with corrected data from this point gives the same results as a stream without failure. "
  "The check is given each chunk once, in order, and changes it makes in place to the chunk are taken into account by the aggregation.",
  ["fault_sequences", "histories", "inputs"],
  "failures at any chunk of any call, repeated failures, then restart by the same or by a new object, with or without trim and discard",
  "one test makes one chunk fail",
  [A], [("seed check", A + ":_iter_data"), ("final write ahead of raising", A + ":AggStream.agg")],
  ["store[key].pdf, exception, restart index"])
p("C18", "Results do not depend on memory limits; post-processing contract",
  "The recorded results do not depend on the memory limit that triggers intermediate writes. "
  "User post-processing is given all result rows exactly once each as completed, in order, plus at each final write the row in progress, and its own buffer kept from one call to the next and across restarts; what it returns is what is recorded.",
  ["configurations", "histories", "inputs"],
  "all memory limits (from a write at each chunk to none), chunkings, calls and restarts; post-processing with and without warm-up",
  "tests use one memory limit per test case",
  [A], [("intermediate write decision", A + ":agg_iter"), ("post-processing and buffer", A + ":_post_n_write_agg_chunks")],
  ["store[key].pdf, arguments received by post"], [("post buffer", "user data kept between calls", A + ":_post_n_write_agg_chunks")])
p("C19", "Abandoned runs: restarting gives the same results",
  "If an aggregation run on top of recorded results stops at any point before the end of its final write (intermediate results possibly written already, or only part of the final ones when bins and snapshots are recorded together), then a new run restarted on the seed from the recorded restart index ends with the same results as a run that never stopped. "
  "If nothing had been recorded by a final write yet, restarting either gives the same results or is refused with an exception, never silently different results.",
  ["crash_points", "histories"],
  "all stopping points between two writes to disk, single key or pair of keys for bins and snapshots, with all chunkings and memory limits, repeated stops",
  "no test interrupts a run",
  [A, W], [("restart index written along with results", A + ":_post_n_write_agg_chunks"), ("overwriting of already recorded bins", W + ":write")],
  ["store[key].pdf after interrupted then restarted runs"], [("restart index", "recorded with results", A + ":_post_n_write_agg_chunks")])
p("C20", "Several keys at once: same results as each alone, any thread schedule",
  "Aggregating on several keys in one object, in parallel threads or not, records for each key the results, restart index and buffers it would have if aggregated alone, whatever the interleaving of the threads processing chunks and writing final results. "
  "In particular, restart metadata of a key is never lost, mixed up or recorded under another key.",
  ["schedules", "configurations"],
  "all interleavings of the per-key tasks at their writes, for 2 to 3 keys, with different bins, filters and result types",
  "tests run one uncontrolled schedule",
  [A, W], [("parallel tasks per key", A + ":AggStream.agg"), ("pending metadata per key", W + ":write_metadata")],
  ["store[key].pdf and ._oups_metadata for each key under forced schedules"], [("pending library metadata", "shared dict", W + ":OUPS_METADATA")])
p("C21", "Inconsistent aggregation settings and restarts are refused",
  "Creating an aggregation object is refused when the keys to continue were not aggregated up to the same seed index, when a key refers to a dataset not produced by an aggregation, when one dataset is declared several times (under several filters, or for both bins and snapshots), when filters and keys do not match, or when parameters are unknown or incomplete. "
  "A refused creation, and an ascending-order violation in bins segmentation (memory limit for intermediate writes not reached yet), leave all recorded datasets unchanged.",
  ["histories", "configurations"],
  "all combinations of keys having been aggregated together or apart up to equal or different indexes, with plain datasets, filters declared or missing",
  "tests try one case of each refusal and do not look at the datasets",
  [A, S], [("restart consistency check", A + ":_init_buffers"), ("settings checks", A + ":AggStream.__init__"), ("order check", S + ":segmentby")],
  ["exception and store content"])
p("C22", "Column names and multi-index columns survive recording",
  "Column names, simple or multi-level with named levels, are read back unchanged after recording and after any later append; a multi-index whose names are not all strings or levels not all named is refused before anything is recorded, and the provided conversion makes it acceptable changing only these names. "
  "When expansion is requested at creation, names that represent tuples become multi-level names padded with empty strings to the same depth, other names become first-level names, and missing level names are generated without modifying the caller's list.",
  ["inputs"],
  "all mixtures of tuple-like and plain column names, depths 2 to 4, level names missing in part or in full, non-string names",
  "tests try one dataframe for each function",
  [W, U], [("expansion", W + ":to_midx"), ("check", W + ":check_cmidx"), ("conversion", U + ":conform_cmidx")],
  ["ParquetSet[key].pdf.columns"])
p("C23", "Segmented aggregation refuses inconsistent inputs, and chains go on",
  "An aggregation by bins is refused with an exception when its ordering column is not in ascending order (a missing value among several rows included), when a column or a function to aggregate is unknown, or a column of text, when settings of bins and of points of observation are missing or contradict each other, or when what a user binning function returns is inconsistent: labels not in a Series, unknown closed side, differing numbers of bins, labels and ends, and, if calls are chained, bins not covering all the data, ending with an empty bin, or not starting with the label of the last bin of previous call. "
  "In chained calls with explicit points of observation or bin ends, a list that lacks the last one reached, of which the next one was passed at a previous call while not known, or, for bins, which ends before the data, is refused. Results being 0 are refused if and only if the corresponding check is on. "
  "Consistent inputs are accepted and give the expected values, and after a call with empty data, or refused for any of these reasons, chained calls continue as if this call had not been made.",
  ["inputs", "configurations", "histories"],
  "all combinations of settings, all results of a user function, all lists given in successive calls, with refused calls at any position of a chain",
  "tests try one case of some refusals and never go on after one",
  [S, G], [("checks of settings", S + ":setup_segmentby"), ("checks of data and bins", S + ":segmentby"), ("restart on explicit ends", S + ":by_scale"), ("columns and functions", G + ":setup_cumsegagg")],
  ["exception and results of cumsegagg in a chain of calls"], [("buffer", "between chained calls", S + ":setup_mainbuffer")])
p("C24", "Streamed aggregation works out of core: chunk by chunk, held results bounded",
  "A streamed aggregation takes the seed chunk by chunk: when it asks for a chunk, the previous ones have been received by the user check and aggregated (but possibly the last one), and no more than a few of the chunks received so far are still in memory, however many there are. "
  "When it asks for a chunk, the results that were over (bins, and snapshots) by the one-but-last chunk received are found in the store, but for a part whose size is within the allowed size in memory of this key (values of 8 bytes). "
  "This holds for each key whatever the sizes of chunks and of results, the number of keys and of calls (without final write included), post-processing, and after each final write, all results are in the store.",
  ["histories", "configurations"],
  "all sequences of chunk sizes, limits in memory (from 0) common or not to several keys, kinds of bins, with or without snapshots and post-processing, one or several calls",
  "tests compare the results at the end of runs of few chunks, not what is kept in memory while they proceed",
  [A], [("results set aside, and written when too large", A + ":agg_iter"), ("write of results", A + ":_post_n_write_agg_chunks"), ("iteration on the seed", A + ":_iter_data")],
  ["store content and data alive each time a chunk is asked by AggStream.agg"], [("results kept in memory", "lists of results of each key and their size", A + ":agg_iter")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
