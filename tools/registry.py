"""The single source of properties.jsonl and MANIFEST.json: run me after editing."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W, R = "mabel/data/writers/", "mabel/data/readers/"
I = "mabel/data/internals/"
PROPS, CHECKS, NOT_APPLICABLE = [], [], []


def prop(pid, title, statement, over, text, why, files, mechanism, technique, note, level="exploration", state=(), observe=()):
    assert len(title) <= 80, (pid, len(title))
    anchors = {
        "files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
        "hook_needed": None,
    }
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        anchors["observe_at"] = list(observe)
    PROPS.append(
        {
            "id": pid,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": anchors,
        }
    )
    CHECKS.append(
        {
            "property": pid,
            "quick_cmd": f"./check {pid}",
            "thorough_cmd": f"./check {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": technique,
            "level": level,
            "level_note": note,
        }
    )


SEARCH = "Generated-input search, no proof: assurance is that no failing case was found among those counted in the evidence. "

prop(
    "C01",
    "What a batch wrote is read back exactly once, unchanged, in bounded blobs",
    "Every record a batch (or plain) writer accepted before it was finalized is returned exactly once and with an "
    "equal value when that dataset and date are read, whatever the record contents, storage format, partition scheme "
    "or blob size. Blobs are cut so that none exceeds the blob size by more than the record that overflowed it, and "
    "the reader's persistence choice does not change the result.",
    ["inputs", "configurations"],
    "over all record sets a format can carry, all formats, blob sizes, partition schemes, dates, numbers of writers sharing a frame and reader persistence classes",
    "the tests write a handful of fixed records per format and mostly compare counts",
    [W + "writer.py", W + "batch_writer.py", W + "internals/blob_writer.py", "mabel/adapters/disk/disk_writer.py",
     "mabel/adapters/disk/disk_reader.py", R + "reader.py", R + "internals/parallel_reader.py", R + "internals/decompressors.py", R + "internals/parsers.py"],
    [("blobs are buffered and committed when the size is reached", W + "internals/blob_writer.py:append/commit"),
     ("blob name carries a time and a random suffix, so commits do not collide", W + "internals/blob_writer.py:commit"),
     ("decompress, parse, filter by file extension", R + "internals/parallel_reader.py")],
    "property-based testing (hypothesis): write/read round trip on disk against the list of accepted records",
    SEARCH + "Storage is the local file system; values outside what a format can represent are not generated.",
    observe=["files on disk", "records returned by Reader"],
)
prop(
    "C02",
    "A reader sees, per date, exactly the newest complete frame",
    "At every moment, reading a date returns exactly the records of the newest batch frame which was completed and is "
    "not flagged to be ignored, and nothing of any other frame. A batch which failed, was abandoned or is still being "
    "written is never visible, and neither completing a later batch nor an older one finishing late mixes frames.",
    ["histories", "crash_points"],
    "over all histories of opening, appending to, completing, failing, abandoning and ignoring batches of the same and different dates, with reads between the steps",
    "the tests check one fixed directory of frames and one failing context manager; they never interleave batches",
    [W + "batch_writer.py", R + "internals/base_inner_reader.py", "mabel/adapters/disk/disk_reader.py"],
    [("frame.complete is written last, and only when there was no failure", W + "batch_writer.py:finalize"),
     ("invalid frames are dropped and the newest one is kept", R + "internals/base_inner_reader.py:get_list_of_blobs")],
    "model-based property testing: generated histories run against the real writers/readers and a frame model",
    SEARCH + "One known finding (frames of one second share a name) is excluded by construction: the clock moves on between batches.",
    state=[("frame.complete / frame.ignore", "whether a frame may be read", "the dataset's folders")],
)
prop(
    "C03",
    "A storage fault while committing loses, duplicates and publishes nothing",
    "When storing a blob fails, the failure reaches the caller, no record already accepted is lost if the caller "
    "retries or finalizes again, no record is stored more often than it was offered, and a batch with data that was "
    "never stored is not marked complete.",
    ["fault_sequences", "histories"],
    "over all sets of failing storage commits and all caller retry patterns, for the plain, batch and stream writers",
    "no test injects a storage failure into a writer",
    [W + "internals/blob_writer.py", W + "writer.py", W + "batch_writer.py", W + "stream_writer.py", W + "internals/writer_pool.py"],
    [("the buffer is only replaced after the commit returned", W + "internals/blob_writer.py"),
     ("a writer leaves the pool only after it committed", W + "internals/writer_pool.py:remove_writer")],
    "fault injection driven by property-based testing: generated commit-failure plans against a multiset oracle",
    "Generated fault plans (sets and runs of failing commits), not a complete enumeration. A failing commit is taken to store nothing.",
    level="fault_enumeration",
)
prop(
    "C04",
    "A stream writer puts every record into every folder it belongs to, once",
    "Each record given to a stream writer ends up exactly once in each folder that its field values (including each "
    "value of a list) and the current time select, and nowhere else, whatever the order of records, time moving on, "
    "writers being evicted for idleness or capacity, or several threads appending. Records that fail the schema are "
    "diverted whole to the back-out folder, which normal reads never return.",
    ["inputs", "histories", "schedules"],
    "over all record values, dataset templates, partition schemes, histories of appends, clock moves and evictions, and concurrent appends",
    "the tests stream a few fixed records in one partition, one date and one thread",
    [W + "stream_writer.py", W + "internals/writer_pool.py", "mabel/utils/paths.py"],
    [("folder name built from the record's fields and the date", W + "stream_writer.py:append"),
     ("pool of writers, evicted when idle or over capacity, committed on eviction", W + "internals/writer_pool.py")],
    "model-based property testing of routing/eviction histories plus a thread stress, against a folder model",
    SEARCH + "Thread schedules are the OS's (a stress, not an enumeration).",
)
prop(
    "C05",
    "Data that does not conform to the schema or expectations is never stored",
    "A writer given a schema or a set of expectations raises on every record that does not conform and stores nothing "
    "of it, and accepts and stores every record that does conform. A writer refuses to start without a schema "
    "(only False says there is none, and parquet needs one), and pydantic models are accepted wherever records are.",
    ["inputs", "configurations"],
    "over all schemas, expectation sets and mixes of conforming and damaged records",
    "the tests try a few fixed records per validator",
    [W + "writer.py", W + "batch_writer.py", W + "stream_writer.py", "mabel/data/validator/__init__.py"],
    [("schema.validate before append", W + "writer.py:append"),
     ("expectations evaluated record by record", W + "writer.py:append"),
     ("schema required", W + "writer.py:__init__")],
    "property-based testing: generated schemas with damaged records against an independent conformance oracle",
    SEARCH + "Ambiguous conformance (bool as INTEGER, datetime as DATE) is not generated.",
)
prop(
    "C06",
    "A read covers exactly the requested time range (and the freshness step-back)",
    "Reading a range returns the data of every day or hour inside it, inclusive of both ends, and of none outside it, "
    "under any partition scheme and any spelling of the dates; data of other datasets with similar names is never "
    "returned. With a freshness limit the newest day within the limit that has data is read, and an error is raised "
    "when there is none.",
    ["inputs", "configurations"],
    "over all ranges, date spellings, partition schemes and placements of data in time",
    "the tests read a few fixed ranges of committed test data with one scheme each",
    [R + "reader.py", R + "internals/base_inner_reader.py", "mabel/utils/dates.py", "mabel/utils/paths.py"],
    [("hours of the range enumerated and rendered through the partition scheme", R + "internals/base_inner_reader.py"),
     ("stepping back a day at a time up to the limit", R + "reader.py")],
    "property-based testing: generated data placements and ranges under a frozen clock against a range model",
    SEARCH + "Naive UTC times between 2019 and 2023.",
)
prop(
    "C07",
    "One by_ partitioning is read, each of its folders from its newest frame",
    "When a date is stored in by_ partitionings, a read returns exactly one of the copies, each sub-folder contributing "
    "its own newest complete frame and nothing else, however the folder names resemble each other. A partition filter "
    "for a partitioned field returns exactly the records of the selected sub-folder.",
    ["inputs", "configurations"],
    "over all layouts of by_ partitionings, sub-folder names, frames in every state, and partition filters",
    "the tests read one fixed by_ layout",
    [R + "internals/base_inner_reader.py", R + "reader.py"],
    [("by_ segment chosen, sub-folders resolved to frames independently", R + "internals/base_inner_reader.py:get_list_of_blobs")],
    "property-based testing: generated layouts on disk against a frame/partition model",
    SEARCH,
)
prop(
    "C08",
    "A read interrupted anywhere resumes from its cursor without loss or repeats",
    "Reading part of a dataset, keeping the reader's cursor (as object or text) and later reading again from that "
    "cursor - any number of times, also when new blobs have arrived in the meantime - returns, all parts together, "
    "exactly the records an uninterrupted read returns, once each and in order. A cursor which lacks a part is refused.",
    ["histories", "inputs"],
    "over all datasets, filters, interruption points, cursor representations and arrivals of new blobs",
    "the tests interrupt one fixed dataset at a few points",
    [R + "reader.py", R + "internals/cursor.py", R + "internals/parallel_reader.py"],
    [("cursor keeps the position in the blob and a bitmap of blobs read", R + "internals/cursor.py"),
     ("records before the position are skipped", R + "internals/parallel_reader.py")],
    "model-based property testing: generated interruption histories against one uninterrupted read",
    SEARCH + "Datasets on disk which only grow between the parts of a read.",
)
prop(
    "C09",
    "The same records are read from every storage format",
    "A set of records encoded in any format the reader supports (JSON lines, JSON, zstd, lzma, zip, csv, xml, parquet "
    "...) is read back as the same records in the same order, mixed with other formats or not, unaffected by line "
    "breaks, encodings or unterminated last lines; files which are not data are skipped, and a damaged blob raises or "
    "is reported rather than silently giving wrong records.",
    ["inputs"],
    "over all record sets, encodings of them, mixes of formats in one dataset, and damaged blobs",
    "the tests read one committed sample file per format and count the records",
    [R + "internals/decompressors.py", R + "internals/parsers.py", R + "internals/parallel_reader.py", I + "xmler.py"],
    [("decompressor and parser chosen by file extension", R + "internals/parallel_reader.py"),
     ("one decoder per format", R + "internals/decompressors.py")],
    "property-based testing: independent encoders per format, decoded by the reader and compared (round trip)",
    SEARCH + "The encoders are the Python libraries'; hand-written oddities of other encoders are not generated.",
)
prop(
    "C13",
    "What a DictSet answers depends neither on its storage nor on earlier questions",
    "A DictSet behaves as the list of records it was given: iterating it (again), take, first, keys, filter, select, "
    "statistics, get_items, types and chains of them give the same answers for every storage class and whatever was "
    "asked before.",
    ["histories", "inputs", "configurations"],
    "over all record lists, storage classes and histories of questions",
    "the tests ask a few questions of one fixed data set each, from a new DictSet",
    [I + "dictset.py", I + "storage_classes/disk.py", I + "storage_classes/memory.py", I + "storage_classes/compressed_memory.py"],
    [("records persisted by storage class", I + "dictset.py:__init__"), ("iteration restarts", I + "dictset.py:__iter__")],
    "model-based property testing: histories of questions compared with answers computed on the plain list",
    SEARCH + "One known finding (nested iteration over a persisted set) is excluded.",
)
prop(
    "C14",
    "sort_and_take returns the first records of the sorted set",
    "sort_and_take(column, n, descending) returns what sorting all the records by the column and taking the first n "
    "returns, whatever the values, ties, nulls, gaps and storage class.",
    ["inputs"],
    "over all record lists with a comparable sort column, all n, directions and storage classes",
    "the tests sort one fixed data set by one column",
    [I + "dictset.py"],
    [("chunked sort keeping the best n", I + "dictset.py:sort_and_take")],
    "property-based testing against Python's stable sort as the reference",
    SEARCH,
)
prop(
    "C15",
    "distinct keeps exactly the first of every set of equal records",
    "DictSet.distinct returns, in order, the records not equal to an earlier one in the chosen columns (all of them by "
    "default), and drops nothing else: records differing in any value, type or field are not duplicates.",
    ["inputs"],
    "over all record lists with near-duplicates, column choices and storage classes",
    "the tests count the distinct records of one fixed data set",
    [I + "dictset.py"],
    [("seen keys per record", I + "dictset.py:distinct")],
    "property-based testing against a quadratic reference",
    SEARCH,
)
prop(
    "C16",
    "Grouping puts each record in exactly one group and aggregates its members",
    "group_by puts every record in exactly one group - that of its values in the grouping columns - and MIN, MAX, SUM, "
    "COUNT and AVG of a group are those of exactly its members' values, whatever aggregations are asked for together.",
    ["inputs"],
    "over all record lists, grouping columns and lists of aggregations",
    "the tests aggregate one fixed data set and compare a few totals",
    [I + "group_by.py"],
    [("group key from the values of the columns", I + "group_by.py"), ("running aggregations", I + "group_by.py:aggregate")],
    "property-based testing against an exact (fractions) reference implementation",
    SEARCH + "Sums are compared to within 1e-12 relative.",
)
prop(
    "C19",
    "A DictSet's hash identifies its contents, not their order or storage",
    "Two DictSets with the same records hash the same whatever the order of the records, the order of their fields "
    "(also in nested records), the storage class or kind of source; changing a value, a field's name or adding or removing "
    "records, also copies of one, changes the hash.",
    ["inputs"],
    "over all lists of records and copies of them, permutations, storage classes and single changes",
    "the tests hash one fixed data set",
    [I + "dictset.py"],
    [("xor of the records' hashes", I + "dictset.py:__hash__")],
    "property-based testing: metamorphic relations (permutation, storage change, single edit)",
    SEARCH,
)
prop(
    "C20",
    "Collecting puts every record in the collection of its value and nowhere else",
    "collect_set gives one collection per value of a column, holding exactly the records with that value in order; "
    "counts, aggregates, items and selections of collections agree with their members.",
    ["inputs"],
    "over all record lists, columns, duplicate removal and storage classes",
    "the tests collect one small fixed list",
    [I + "collected_set.py", I + "dictset.py"],
    [("records grouped by value", I + "collected_set.py")],
    "property-based testing against a plain dictionary of lists",
    SEARCH,
)
prop(
    "C21",
    "Flattened records keep every value under the path that leads to it",
    "Flattening a nested record gives one field per value it holds, named by the path of field names and positions "
    "joined by the separator, with the value unchanged; the `flat` storage format stores exactly that.",
    ["inputs"],
    "over all nested records and separators",
    "the tests flatten one fixed record",
    [I + "records.py", W + "internals/blob_writer.py"],
    [("recursive flattening", I + "records.py:flatten")],
    "property-based testing against an independent walk of the record",
    SEARCH,
)
prop(
    "C27",
    "Drawn tables show the set's values under their headers and leak no markup",
    "The HTML and text tables drawn from a set (also those it is shown as, in a notebook or not) have one column per field and one row per record shown, every value in "
    "the cell under its field's header; markup characters in the data appear as text and never as markup.",
    ["inputs"],
    "over all record lists with differing fields, values full of markup, limits and storage classes",
    "the tests draw one fixed data set and check it gives a string",
    [I + "display.py", I + "dictset.py"],
    [("escaping of values", I + "display.py:html_table"), ("column widths", I + "display.py:ascii_table")],
    "property-based testing: the table is parsed back (html.parser / cell cutter) and compared with the records",
    SEARCH,
)
prop(
    "C10",
    "A reader's select and filters give what selecting each stored record gives",
    "Reading with a select and filters returns, in the order stored, exactly the stored records for which the filter is "
    "true of the selected record, each reduced to the selected columns: `*` keeps everything, functions and renames give "
    "their value, columns a record lacks are null. No record of a blob is lost because another one cannot be compared.",
    ["inputs", "configurations"],
    "over all record sets spread over several blobs and formats, selects, filter expressions and conditions in lists, and persistence classes",
    "the tests combine one select and one filter on fixed data and compare counts",
    [R + "reader.py", R + "internals/parallel_reader.py", R + "internals/inline_evaluator.py", I + "expression.py", I + "dnf_filters.py"],
    [("select, then filter, per blob", R + "internals/parallel_reader.py"), ("columns and functions", R + "internals/inline_evaluator.py:Evaluator")],
    "property-based testing: metamorphic comparison with selecting and filtering the stored records one by one",
    SEARCH + "Functions in the select are a few text functions; the functions themselves are C22.",
)
prop(
    "C11",
    "A filter expression keeps exactly the records for which it is true",
    "For every well-formed expression over comparisons joined by AND, OR, NOT and brackets, filtering keeps exactly the "
    "records the expression is true of, whatever the spelling, spacing and redundant brackets, and whatever quoted text "
    "holds; a malformed expression is refused and never silently cut short.",
    ["inputs"],
    "over all expressions of the grammar, ways to write them, and records with nulls, gaps, dates and look-alike text",
    "the tests try about thirty fixed expressions on a fixed data set",
    [I + "expression.py", "mabel/utils/token_labeler.py", "mabel/utils/text.py"],
    [("recursive descent parser and evaluator", I + "expression.py:Expression"), ("tokenizer", "mabel/utils/token_labeler.py:Tokenizer")],
    "grammar-based property testing: generated expression trees are written down, parsed by mabel and compared with a direct evaluation",
    SEARCH + "Ambiguous comparisons (text which looks like a number against a number) are only generated in unambiguous spellings.",
)
prop(
    "C12",
    "Filters given as conditions in lists keep exactly the records they describe",
    "A filter in disjunctive normal form (a condition, a list of conditions which must all hold, or a list of such lists "
    "of which one must hold) keeps exactly the records it describes, in order and unchanged, for every operator and "
    "spelling; values which are null or cannot be compared do not match; a mix of the forms or an unknown operator is an error.",
    ["inputs"],
    "over all filters in the three forms, every operator, and records with nulls, gaps and mixed types",
    "the tests try a dozen fixed filters",
    [I + "dnf_filters.py", "mabel/utils/token_labeler.py", I + "dictset.py"],
    [("evaluation of the lists", I + "dnf_filters.py:evaluate"), ("operators", "mabel/utils/token_labeler.py:OPERATORS")],
    "property-based testing against a direct evaluation of the filter",
    SEARCH,
)
prop(
    "C17",
    "A SQL statement returns what its clauses say, applied one after the other",
    "SELECT columns (fields, functions, aliases, *, aggregations, DISTINCT) FROM a dataset or a subquery, WHERE, GROUP BY, "
    "HAVING, ORDER BY and LIMIT give exactly the records the clauses describe, applied in the order of SQL, however the "
    "statement is spaced, cased or commented, and whatever quoted text holds; groups are formed by the values of their keys, "
    "aggregations ignore nulls, and a malformed statement is refused and never answered wrongly or parsed forever.",
    ["inputs"],
    "over all statements of the grammar, ways to write them, and data sets of several blobs with nulls, gaps and text which looks like SQL",
    "the tests run a few dozen fixed statements on one data set and mostly compare counts",
    [R + "sql_reader.py", R + "reader.py", I + "expression.py", I + "group_by.py", R + "internals/inline_evaluator.py"],
    [("parser", R + "sql_reader.py:SqlParser"), ("clauses after the read", R + "sql_reader.py:SqlReader"), ("groups and aggregations", I + "group_by.py")],
    "grammar-based property testing: generated statements are written down, run by mabel and compared with a direct evaluation of the clauses",
    SEARCH + "Dates and the inline functions are C11 and C22; one column is sorted by.",
)
prop(
    "C18",
    "A query reads only the dataset it names, and only when that name is allowed",
    "A reader or SQL query touches no path of storage outside the dataset which is named; names which could traverse or "
    "hide a part (.., //, --, odd characters) are refused in SQL before storage is touched; when valid prefixes are given, "
    "a dataset whose name starts with none of them is refused, in the statement and in every subquery, and one which does is read.",
    ["inputs", "configurations"],
    "over all names (well-formed, odd and hostile), ways to write them in a statement, subqueries and lists of prefixes",
    "the tests try a dozen fixed names and two prefixes",
    [R + "sql_reader.py", R + "reader.py"],
    [("names in a statement", R + "sql_reader.py:SqlParser"), ("prefixes", R + "reader.py:Reader")],
    "property-based testing: a stand-in for the storage records every path asked for, compared with the rule for names",
    SEARCH + "Names in SQL are judged after comments are removed.",
)
prop(
    "C22",
    "The functions of a select give, for every record, what their names say",
    "Every inline function (dates, text, numbers, hashes, conditions) gives for each record the value its name describes, "
    "also nested, aliased, written in any case and spacing and with quoted text holding commas, brackets or AS. Functions "
    "of text work on the text of any value; for the others nulls, missing fields and values a function can't be applied to "
    "give null for that record. No record affects another; columns are named as written or by their alias.",
    ["inputs"],
    "over all calls of every function, nested up to three deep, and records with nulls, gaps, dates, large integers and mixed types",
    "the tests call each function once or twice on fixed values",
    [R + "internals/inline_functions.py", R + "internals/inline_evaluator.py"],
    [("functions", R + "internals/inline_functions.py:FUNCTIONS"), ("parsing and evaluating columns", R + "internals/inline_evaluator.py:Evaluator")],
    "property-based testing against a reference written from the functions' names, over generated expressions and records",
    SEARCH + "RANDOM and NOW are only checked for kind and range.",
)
prop(
    "C23",
    "Dates, durations and hour ranges are understood exactly, however they are given",
    "parse_iso gives the moment an ISO text (any separator, with or without time, fraction and offset), date, datetime, "
    "timestamp or numpy/pandas value stands for, to the second, and None (never an exception) for everything which is no "
    "moment; parse_delta gives the duration its parts add up to, also negative ones; date_range gives every hour of the "
    "range once, in order, both ends included.",
    ["inputs"],
    "over all moments, ways to write or hold them, texts which differ from them in a few characters, durations and ranges",
    "the tests try a few dozen fixed texts; a parser hand-written by character positions fails on the ones nobody thought of",
    ["mabel/utils/dates.py"],
    [("text by position", "mabel/utils/dates.py:parse_iso"), ("durations", "mabel/utils/dates.py:parse_delta"), ("ranges", "mabel/utils/dates.py:date_range")],
    "property-based testing against datetime's own arithmetic, with round trips and mutated text",
    SEARCH + "Offsets are documented as ignored and taken so.",
)
prop(
    "C24",
    "Records are kept in, and read from, the folder of their dataset and date only",
    "For every dataset name (nested, dotted, sharing a prefix with others, absolute), partition template and date, writers "
    "put records below the folder the templates give for that dataset and date and nowhere else, and a reader of a dataset "
    "and date returns exactly the records written for it, never those of a dataset whose name starts alike or of another date.",
    ["inputs", "configurations"],
    "over names, sets of datasets which start alike, templates, dates, times and kinds of writer",
    "the tests use one or two fixed names without dots, each in a storage of its own",
    ["mabel/utils/paths.py", W + "internals/base_inner_writer.py", W + "writer.py", W + "batch_writer.py", W + "stream_writer.py",
     R + "internals/base_inner_reader.py", "mabel/adapters/disk/disk_reader.py"],
    [("templates", "mabel/utils/paths.py:build_path"), ("where writers put blobs", W + "internals/base_inner_writer.py"), ("where readers look", R + "internals/base_inner_reader.py")],
    "property-based testing: files found on disk and records read back are compared with a model of which dataset and date holds what",
    SEARCH,
)
prop(
    "C25",
    "A database writer hands over every record once, in order, then finalizes once",
    "Every record a database writer accepted is handed to the database exactly once, in the order of the appends and with "
    "the values the schema gives them, in commits of no more than 100 records (BATCH_SIZE) while none fails; a commit which fails is tried again with the "
    "same records before later ones and nothing is lost; finalize commits what is left and calls the finalizer once, after "
    "all records, and not when there is nothing to finalize.",
    ["inputs", "histories", "fault_sequences"],
    "over histories of appends, commits and finalizes, batch sizes, records and models, and failures of commits and finalizers",
    "the tests append to one writer without faults",
    [W + "database_writer.py", "mabel/adapters/database/base_database_writer.py", W + "internals/base_inner_writer.py"],
    [("buffer and commit", W + "database_writer.py"), ("what an adapter is called with", "mabel/adapters/database/base_database_writer.py")],
    "stateful property-based testing with fault injection: a stand-in for the database is compared with a model of the history",
    SEARCH,
)
prop(
    "C28",
    "What is written to object storage is read back exactly once, despite faults",
    "Records written to a Google Cloud Storage or MinIO bucket are read back exactly once from the dataset and date they "
    "were written for, with the credentials which were given; uploads to Google which fail for a while are tried again and lose or "
    "double nothing, an upload which fails for good raises and is not reported as written; blobs of other datasets, dates "
    "or buckets are never read, and empty or incomplete frames are treated as on disk.",
    ["inputs", "configurations", "fault_sequences"],
    "over datasets, dates, records, formats, kinds of writer and sequences of upload faults",
    "the tests need real credentials or an emulator and are skipped without them",
    ["mabel/adapters/google/google_cloud_storage_writer.py", "mabel/adapters/google/google_cloud_storage_reader.py",
     "mabel/adapters/minio/minio_writer.py", "mabel/adapters/minio/minio_reader.py", R + "internals/base_inner_reader.py"],
    [("uploads", "mabel/adapters/google/google_cloud_storage_writer.py:commit"), ("listing", "mabel/adapters/google/google_cloud_storage_reader.py:get_blobs_at_path")],
    "property-based testing with fault injection: in-memory stand-ins for both clients, compared with a model of what was written",
    SEARCH + "Real object storage is not reachable; the stand-ins keep the documented behaviour of the clients' calls mabel makes.",
)
prop(
    "C29",
    "A reader refuses parameters it does not know, lacks or can't combine",
    "A reader given a parameter neither it nor its inner reader knows (also a misspelt one), missing one they require, or "
    "two which can't be combined raises InvalidReaderConfigError before storage is touched; every other set of "
    "parameters is accepted, and every value arrives unchanged at what it was given to.",
    ["inputs", "configurations"],
    "over sets of parameters, known, unknown, misspelt, missing and conflicting, and tables of rules",
    "the tests try a few fixed mistakes",
    ["mabel/utils/parameter_validator.py", R + "reader.py"],
    [("rules", "mabel/utils/parameter_validator.py:validate"), ("the reader's rules", R + "reader.py:RULES")],
    "property-based testing against a direct reading of the rules",
    SEARCH,
)
prop(
    "C30",
    "Reading with several processes gives the same records as with one, and ends",
    "With multiprocess=True a reader gives the same records, values and types of JSON, select and filter as reading "
    "without it, each once, however fast or slowly they are taken; it always ends, also when the consumer stops early, "
    "and leaves no processes behind.",
    ["inputs", "schedules"],
    "over sets of blobs, records, selects and filters and consumers which pause or stop",
    "the tests count the records of one fixed data set read at full speed",
    [R + "internals/multiprocess_wrapper.py", R + "reader.py", R + "internals/parallel_reader.py"],
    [("queues between the processes", R + "internals/multiprocess_wrapper.py:processed_reader")],
    "property-based testing: generated blobs and consumers, compared with what was written, with a deadline",
    SEARCH + "Interleavings are those the system gives; they are not enumerated.",
)
prop(
    "C26",
    "Text is matched, cleaned, split into words and wrapped exactly by the rules",
    "LIKE and NOT LIKE match a whole text, without regard to case, where % is any text and _ any one character and every "
    "other character stands for itself; MATCHES finds its expression anywhere; sanitize keeps exactly the safe characters "
    "in order, tokenize gives the words in order, and wrap_text keeps all visible text and no line longer than asked for.",
    ["inputs"],
    "over all texts, patterns made from them or nearly, sets of safe characters and widths, and series of patterns",
    "the tests match a handful of fixed patterns; special characters of regular expressions and line breaks are where such code fails",
    ["mabel/utils/text.py"],
    [("LIKE", "mabel/utils/text.py:like"), ("cleaning", "mabel/utils/text.py:sanitize"), ("wrapping", "mabel/utils/text.py:wrap_text")],
    "property-based testing against a character by character reference, with texts derived from the patterns",
    SEARCH,
)
prop(
    "C31",
    "Histograms, random picks and job contexts hold exactly what they should",
    "A histogram puts every number in exactly one of its equally wide bins, in order, and draws one bar for each; "
    "random_range and random_choice give every number or option of the range, both ends included, and no other; "
    "random_string has exactly the length asked for; a sample of a set takes each record with the chance asked for, in order; build_context gives the configuration file's values overridden by the "
    "parameters, and refuses files which are missing or malformed.",
    ["inputs", "configurations"],
    "over lists of numbers and bins, random bytes, ranges, lengths, and folders with configuration files",
    "the tests try one range and one length, and no histogram or configuration at all",
    [I + "histogram.py", "mabel/utils/entropy.py", "mabel/utils/common.py", I + "dictset.py"],
    [("bins", I + "histogram.py:Histogram"), ("random values", "mabel/utils/entropy.py"), ("samples", I + "dictset.py:sample"), ("merging", "mabel/utils/common.py:build_context")],
    "property-based testing: invariants of the bins, the source of randomness replaced by generated bytes, generated configurations",
    SEARCH,
)
prop(
    "C32",
    "Rendering an error shows every frame, local and cause of it, and never fails",
    "render_error_stack lists, for the error being handled and each error it came from (causes and contexts, as Python "
    "shows them, each once), every frame in order with its file, line, function, locals and marked source line; it always "
    "ends and never raises, whatever the locals and errors are, and shows nothing when no error is handled.",
    ["programs", "inputs"],
    "over generated programs which call, raise, re-raise and chain errors, with locals of all kinds",
    "the tests render one error of two frames and look for three words",
    ["mabel/errors/render_error_stack.py"],
    [("collecting the frames", "mabel/errors/render_error_stack.py:_build_error_stack"), ("rendering", "mabel/errors/render_error_stack.py:_render_error_stack")],
    "property-based testing: generated programs are run and the rendering of their error is compared with their traceback",
    SEARCH,
)
prop(
    "C33",
    "Readers, writers, sets and filters used side by side do not mix",
    "Whatever is done with several readers, SQL statements, sets, filters, selects and writers at the same time, step by step "
    "in turn or in threads, also when they share their schema, partitions or filters or read the same dataset, each gives "
    "(or stores) exactly what it gives when it is used alone; stream writers of one dataset together store each record of "
    "each of them once.",
    ["schedules", "inputs"],
    "over all combinations of two to five uses and all orders of their steps, and over threads with frequent switches",
    "every test makes one reader or writer at a time",
    [R + "reader.py", R + "internals/sql_reader.py", R + "internals/inline_evaluator.py", I + "expression.py", I + "dictset.py", W + "batch_writer.py",
     W + "stream_writer.py", W + "database_writer.py", W + "internals/writer_pool.py"],
    [("filters and selects are evaluated without state of their own", I + "expression.py:evaluate_recursive"), ("each identity has a writer of its own", W + "internals/writer_pool.py:get_writer"),
     ("parameters are kept per instance", W + "internals/blob_writer.py:__init__")],
    "model-based property testing: generated uses run alone (the reference), then under a generated schedule and in threads",
    SEARCH + "The interleavings inside one step are those the threads happen to take.",
)
prop(
    "C34",
    "What a caller hands over is not changed, and what was taken stays as it was",
    "No use of a writer, reader, set, filter or record function changes what the caller handed over: records with all they "
    "hold, schemas in every form, expectations, partitions, filters, cursors, column lists. The same arguments used again "
    "give the same result. What a writer took is stored as it was when it was appended, also when the caller changes the "
    "record, or the lists in it, afterwards.",
    ["inputs", "histories"],
    "over all uses and generated arguments, nested values included, used once and again",
    "the tests build fresh literals for each call and never look at them again",
    ["mabel/data/validator/__init__.py", W + "writer.py", W + "stream_writer.py", W + "database_writer.py", W + "internals/blob_writer.py", R + "reader.py",
     I + "records.py", I + "dictset.py", I + "collected_set.py", I + "dnf_filters.py"],
    [("a schema is loaded from a copy of its definition", "mabel/data/validator/__init__.py:schema_loader"), ("records are serialized when they are appended", W + "internals/blob_writer.py:text_append"),
     ("records are copied before a column is taken out", I + "collected_set.py:__init__")],
    "property-based testing: arguments compared, down to the order of keys, with a copy taken before; second use compared with the first",
    SEARCH,
)
prop(
    "C35",
    "A read fetches what is asked for, once, and leaves nothing behind",
    "Making a reader fetches nothing. Taking the first records (of a filter, a select, a statement with a LIMIT) fetches no "
    "blob beyond the one the last of them is in; a full read fetches every blob of the frames and partitions read once, and "
    "nothing else; a persisted set is fetched once however often it is used; going on from a cursor does not fetch finished "
    "blobs. Reading changes nothing in the dataset, and no file stays open or in the temporary folder.",
    ["inputs", "histories"],
    "over all layouts of blobs, frames, partitionings and files which are not data, all numbers of records taken in each way",
    "the tests look at the records returned, not at what was fetched for them",
    [R + "reader.py", R + "internals/parallel_reader.py", R + "internals/cursor.py", R + "internals/base_inner_reader.py", I + "dictset.py",
     I + "storage_classes/storage_class_disk.py"],
    [("blobs are fetched when their first record is asked for", R + "internals/parallel_reader.py:__call__"), ("the reader goes on to the next blob", R + "reader.py:_create_line_reader"),
     ("taking stops at the last record", I + "dictset.py:itake"), ("the temporary file is removed", I + "storage_classes/storage_class_disk.py:__del__")],
    "property-based testing: an inner reader which notes every fetch, compared with the blobs a model says are needed",
    SEARCH + "Reading with multiple processes is left to C30.",
)


prop(
    "C36",
    "What was done before leaves no trace in what is done next",
    "Filters, selects, statements, reads (of datasets which change on disk between reads), resumed reads, writers with and "
    "without a schema or expectations, storage faults, sets and the questions asked of them, text and date functions and "
    "parameter checks all give what they give when they are the first thing done in their process: a result does not depend on "
    "earlier operations, on how alike their arguments were, nor on whether they failed.",
    ["inputs", "histories"],
    "over sequences of operations, mostly look-alikes (values, texts, names, files and rules which differ in case, spacing, type, quotes, length or contents only)",
    "each test does one thing, in a process where the rest of the suite did others; a memo with too short a key shows only for the right pair",
    [I + "expression.py", R + "internals/inline_evaluator.py", R + "internals/sql_reader.py", R + "reader.py", R + "internals/base_inner_reader.py", I + "dictset.py", I + "group_by.py",
     W + "writer.py", W + "internals/blob_writer.py", "mabel/utils/parameter_validator.py", "mabel/utils/dates.py", "mabel/utils/text.py", "mabel/utils/paths.py"],
    [("an expression is parsed for each filter", I + "expression.py:Expression"), ("an evaluator is built for each select", R + "internals/inline_evaluator.py:Evaluator"),
     ("blobs are listed and read for each reader", "mabel/adapters/disk/disk_reader.py"), ("dates and text functions hold no state", "mabel/utils/dates.py:parse_iso")],
    "property-based testing: differential, each operation of a generated sequence against the same operation alone in a process forked before anything was done",
    SEARCH + "Operations are done in one thread.",
)


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf8") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "./setup",
        "hooks": {"guard": "MABEL_VERIF_NONE", "enable": "no hooks: the checks use only mabel's public API", "source_commits": []},
        "checks": CHECKS,
        "not_applicable": NOT_APPLICABLE,
        "notes": "properties.jsonl and this file are generated by tools/registry.py",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf8") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
