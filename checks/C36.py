"""C36 - what was done before leaves no trace: every operation gives what it gives when it is the first of its process.

The oracle is the operation itself, done in a process which has done nothing else (forked from one which has not)."""
import datetime
import decimal
import gc
import io
import lzma
import os
import pickle
import select
import shutil
import signal
import time
import zipfile

import data_expectations  # noqa: F401 - or every forked process would import it
import orjson
import pyarrow
import pyarrow.parquet
import zstandard

from domain import weighted
from harness import Property, Violation, canon, check, short
from store import files_under, put
from vhyp import st

from mabel import SqlReader
from mabel.adapters.database.base_database_writer import BaseDatabaseWriter
from mabel.adapters.disk import DiskReader, DiskWriter
from mabel.adapters.null import NullReader
from mabel.data import STORAGE_CLASS, BatchWriter, DatabaseWriter, DictSet, Reader, StreamWriter, Writer
from mabel.data.internals.expression import Expression
from mabel.data.internals.histogram import Histogram
from mabel.data.internals.records import flatten
from mabel.data.readers.internals.inline_evaluator import Evaluator
from mabel.data.validator import schema_loader
from mabel.errors.render_error_stack import render_error_stack
from mabel.utils import dates, paths, text
from mabel.utils.common import build_context

PROP = Property(
    "C36",
    rule="a case is a sequence of operations (filters, selects, statements, reads of a dataset which changes, resumed reads, "
    "writes with and without schema, with faults, sets, text, dates, parameters refused or not ...), mostly look-alikes of one "
    "kind; each is done once after the earlier ones and once in a process which has done nothing (but has the files as they are "
    "by then); non-trivial = two operations of a kind which are not the same, with different results",
    assumptions=[
        "what an operation gives is its result or the type of what it raises; what a writer gives is what it puts in the (empty) storage",
        "files are changed from outside without their size, their time or their name telling",
    ],
)

BASE = datetime.date(2021, 1, 2)
# values which are easily taken for one another
ALIKE = [1, True, 1.0, "1", decimal.Decimal("1"), 0, False, 0.0, "0", None, "None", "", "a", "A", "a ", "a b", "a  b", "true", "2021-01-02", "2021-01-02 00:00",
         datetime.date(2021, 1, 2), datetime.datetime(2021, 1, 2), "a" * 40, "a" * 39 + "b", [1], ["1"], [True], {"k": 1}, {"k": "1"}]
JSON_ALIKE = [v for v in ALIKE if isinstance(v, (int, float, str, list, dict, type(None)))]
ROWS = [{"n": i, "t": v, "T": ALIKE[-1 - i]} for i, v in enumerate(ALIKE)]
WORDS = ["a", "A", "a b", "a  b", " a", "a ", "1", "1.0", "true", "True", "None", "2021-01-02", "2021-01-02 00:00", "a%", "A%", "%a", "_", "%", "a" * 40, "a" * 39 + "_", "a" * 39 + "%", "x AND y", "x and y"]
QUOTED = st.tuples(st.sampled_from(WORDS), st.sampled_from("''\"")).map(lambda w: w[1] + w[0] + w[1])
NUMBER = st.sampled_from(["1", "1.0", "0", "0.0", "true", "TRUE", "false", "null"])
KEYWORD = {"AND": ["AND", "and", " AND ", "\nAND"], "OR": ["OR", "or", "  or"]}
CONDITION = weighted(
    3, st.builds("{} {} {}".format, st.sampled_from(["t", "T", "`t`", "n"]), st.sampled_from(["=", "!=", "<", ">", "=="]), st.one_of(QUOTED, NUMBER)),
    2, st.builds("{} {} {}".format, st.sampled_from(["t", "T"]), st.sampled_from(["LIKE", "like", "NOT LIKE", "MATCHES", "CONTAINS"]), QUOTED),
    1, st.builds("{} IN ({}, {})".format, st.sampled_from(["t", "T"]), QUOTED, st.one_of(QUOTED, NUMBER)),
    1, st.builds("{} {} {}".format, st.sampled_from(["t", "T"]), st.sampled_from(["IS", "IS NOT"]), st.sampled_from(["NULL", "true", "none"])),
)
EXPRESSION = weighted(
    3, CONDITION,
    2, st.builds("{} {} {}".format, CONDITION, st.sampled_from(["AND", "and", "OR", "or", " AND", "OR\n"]), CONDITION),
    1, st.builds("NOT {}".format, CONDITION),
    1, st.sampled_from(["t =", "= 1", "(t = 1", "t = 1 t"]),
)
CONDITIONS = st.tuples(st.sampled_from(["t", "T", "n"]), st.sampled_from(["=", "==", "!=", "<", "in", "like", "LIKE", "contains", "~", "not in"]), st.sampled_from(ALIKE))
DNF = weighted(2, CONDITIONS, 2, st.lists(CONDITIONS, min_size=1, max_size=3), 1, st.lists(st.lists(CONDITIONS, min_size=1, max_size=2), min_size=1, max_size=3))
COLUMN = st.one_of(
    st.builds("{}({})".format, st.sampled_from(["UPPER", "upper", "LOWER", "STRING", "INTEGER", "DOUBLE", "TRUNC", "ROUND", "LEN", "YEAR", "DATE", "ISNONE", "HASH", "MD5", "BOOLEAN", "TRIM"]), st.sampled_from(["t", "T", "n", "`t`"])),
    st.builds("CONCAT(t,{})".format, QUOTED),
    st.builds("LEFT({},{})".format, st.sampled_from(["t", "T", "'abc'", "'ABC'"]), st.sampled_from("0123")),
    st.sampled_from(["t", "T", "n", "t AS x", "t AS X", "T as t", "t AS T", "*", "missing", "`t`", "1", "1.0", "true", "null"]),
    QUOTED,
)
SELECT = st.lists(COLUMN, min_size=1, max_size=3).map(", ".join)
CLAUSES = weighted(
    2, st.just(""),
    3, EXPRESSION.map(" WHERE {}".format),
    1, st.sampled_from([" LIMIT 1", " LIMIT 2", " ORDER BY n", " ORDER BY n DESC", " ORDER BY t LIMIT 2", " limit 3", " GROUP BY t", " GROUP BY T", " -- a\n LIMIT 2", " LIMIT"]),
)
STATEMENT = weighted(
    4, st.builds("{} {} FROM {}{}".format, st.sampled_from(["SELECT", "select", "SELECT  ", "SELECT DISTINCT"]), SELECT, st.sampled_from(["data", "data", "DATA", "data.more"]), CLAUSES),
    1, st.builds("SELECT {} FROM data{}{}".format, st.sampled_from(["COUNT(*)", "MAX(n)", "MIN(n)", "SUM(n)", "t, COUNT(*)", "T, COUNT(*)", "t, MAX(n), MIN(n)"]), st.sampled_from(["", " GROUP BY t", " GROUP BY T", " group by t"]), st.sampled_from(["", " HAVING COUNT(*) > 1", " ORDER BY COUNT(*)"])),
)
FOLDERS = ["year_2021/month_01/day_02", "year_2021/month_01/day_03"]
NAMES = ["a.jsonl", "b.jsonl", "as_at_1/a.jsonl", "as_at_1/frame.complete", "as_at_2/a.jsonl", "as_at_2/frame.complete", "as_at_1/frame.ignore", "by_k/k=1/a.jsonl", "by_k/k=2/a.jsonl", "c.zstd", "c.lzma", "c.txt", "c.csv", "c.zip", "c.xml", "c.lxml", "c.parquet", "c.json"]
PUT = st.tuples(st.just("put"), st.sampled_from(["ds"] * 3 + ["DS"]), weighted(3, st.just(0), 1, st.just(1)), st.sampled_from(NAMES[:2] * 3 + NAMES), st.integers(1, 3), st.integers(0, 4))
REMOVE = st.tuples(st.just("remove"), st.just("ds"), weighted(3, st.just(0), 1, st.just(1)), st.sampled_from(NAMES), st.just(0), st.just(0))
OPTIONS = {
    "filters": st.sampled_from(["n > 1", "n = 1", "t = 'a'", "t = 'A'", [("n", "=", 1)]]), "select": st.sampled_from(["n", "t", "n AS t", "UPPER(t)"]),
    "partition_filter": st.sampled_from([("k", "=", "1"), ("k", "=", "2")]), "persistence": st.sampled_from(list(STORAGE_CLASS)),
    "override_format": st.sampled_from(["jsonl", "txt", "json", "csv", "zstd"]), "freshness_limit": st.sampled_from(["1d", "2d"]),
    "valid_dataset_prefixes": st.sampled_from([["ds"], ["d"], ["ds", "x"], ["DS"], ["x"], []]), "dataste": st.just(1), "multiprocess": st.just(False), "raw_path": st.just(True),
}
REFUSED = ("dataste", "raw_path")
OPTION = weighted(6, st.sampled_from(sorted(OPTIONS.keys() - set(REFUSED))), 1, st.sampled_from(REFUSED)).flatmap(lambda name: st.tuples(st.just(name), OPTIONS[name]))
HOW = st.builds(
    lambda dataset, days, options: {"dataset": dataset, "days": days, **dict(options)},
    st.sampled_from(["ds"] * 8 + ["DS", "ds/"]), st.sampled_from([(0, 0)] * 5 + [(0, 1), (0, 1), (1, 1)]), weighted(3, st.just([]), 4, st.lists(OPTION, min_size=1, max_size=1), 1, st.lists(OPTION, min_size=2, max_size=3)),
)
READ = st.tuples(st.just("read"), HOW)
# the first records of a read which is not gone on with
BEGIN = st.tuples(st.just("begin"), HOW, st.integers(1, 3), st.booleans())
RESUME = st.tuples(st.just("resume"), st.sampled_from(["ds", "DS"]), st.integers(1, 4))
SCHEMAS = [False, ["n", "t"], [{"name": "n", "type": "INTEGER"}, {"name": "t", "type": "VARCHAR"}], [{"name": "n", "type": "VARCHAR"}, {"name": "t", "type": "VARCHAR"}],
           {"fields": [{"name": "n", "type": "INTEGER"}]}, {"columns": [{"name": "n", "type": "INTEGER"}, {"name": "t", "type": "INTEGER"}]}]
SCHEMAS[1] = [{"name": n, "type": "DOUBLE"} for n in "nt"]
# the last is a file, which may have been changed
SCHEMA_FILE = st.tuples(st.just("configure"), st.just("schema.json"), st.sampled_from(SCHEMAS[2:]))
SCHEMAS.append("schema.json")
EXPECTATIONS = [None, None, [{"expectation": "expect_column_to_exist", "column": "t"}], [{"expectation": "expect_column_values_to_not_be_null", "column": "t"}]]
RECORD = st.fixed_dictionaries({"n": st.sampled_from([1, 1, 2, "1", 1.5])}, optional={"t": st.sampled_from(["a", "A", 1, None, "a b"])})
WRITE = st.tuples(
    st.just("write"), st.sampled_from(["simple", "batch", "stream"]), st.sampled_from(["out", "out", "OUT", "out/{t}", "out/x.y"]), st.sampled_from(["jsonl", "jsonl", "zstd", "text", "flat"]),
    st.integers(0, len(SCHEMAS) - 1), st.integers(0, len(EXPECTATIONS) - 1), st.lists(RECORD, min_size=1, max_size=4), weighted(4, st.none(), 1, st.integers(1, 3)), st.sampled_from([1, 10**7]), st.sampled_from([True, True, True, False]),
)
DATABASE = st.tuples(st.just("database"), st.sampled_from([2, 2, 3, 5]), st.lists(RECORD, min_size=1, max_size=4), weighted(4, st.none(), 1, st.just(1)))
PLACES = st.lists(st.integers(0, len(JSON_ALIKE) - 1), min_size=1, max_size=6)
ASK = weighted(
    2, st.tuples(st.just("distinct"), st.sampled_from([(), ("t",), ("u",), ("t", "u"), ("T",)])),
    2, st.tuples(st.just("group"), st.sampled_from([["t"], ["T"], ["t", "u"], "t"]), st.sampled_from(["COUNT", "MAX", "MIN", "SUM", "AVG"])),
    1, st.tuples(st.just("collect"), st.sampled_from(["u", "n"]), st.booleans()),
    1, st.tuples(st.just("hash")),
    1, st.tuples(st.just("sort"), st.sampled_from(["n", "u"]), st.integers(0, 3), st.booleans()),
    1, st.tuples(st.just("types")),
    1, st.tuples(st.just("keys"), st.integers(0, 2)),
    1, st.tuples(st.just("list")),
    1, st.tuples(st.just("some"), st.integers(0, 3)),
    1, st.tuples(st.just("statistics")),
    1, st.tuples(st.just("items"), st.lists(st.integers(0, 5), max_size=3, unique=True)),
    1, st.tuples(st.just("filter"), EXPRESSION),
    1, st.tuples(st.just("dnf"), DNF),
    1, st.tuples(st.just("tables"), st.integers(0, 3)),
    1, st.tuples(st.just("histogram"), st.integers(2, 4)),
)
STORAGE = st.sampled_from([STORAGE_CLASS.MEMORY, STORAGE_CLASS.MEMORY, STORAGE_CLASS.DISK, STORAGE_CLASS.COMPRESSED_MEMORY])
SET = st.tuples(st.just("set"), STORAGE, PLACES, ASK)
# of a set which is kept, the results must not depend on the earlier questions
KEPT = st.tuples(st.just("kept"), STORAGE, ASK.filter(lambda a: a[0] != "some"))
MOMENT = st.sampled_from([v for v in ALIKE if not isinstance(v, (dict, list))] + [1609545600, 1609545600.0, "1609545600", "2021-01-02T00:00:00", "2021-01-02 00:00:01", datetime.datetime(2021, 1, 2, 5), datetime.datetime(2021, 1, 2, 5, 6, 7)])
PATH = st.sampled_from(["ds/{yyyy}", "ds/{yyyy}/{mm}/{dd}", "ds/{dd}/{HH}", "ds/{dd}/{HH}/{MM}", "DS/{dd}", "ds/{dd}.x", "ds/{dd}.x/"])
FAMILIES = {
    "expression": st.tuples(st.just("expression"), EXPRESSION),
    "kept expression": st.tuples(st.just("kept expression"), st.sampled_from(["t = 'a'", "t = 1", "n > 3 OR t = T"]), st.integers(0, len(ROWS) - 1)),
    "dnf": st.tuples(st.just("dnf"), DNF),
    "select": st.tuples(st.just("select"), SELECT, st.integers(0, len(ROWS) - 1)),
    "kept select": st.tuples(st.just("kept select"), st.sampled_from(["UPPER(t), STRING(n)", "*, INTEGER(t)", "t AS x, HASH(t), CONCAT(t,n)", "ROUND(t), YEAR(t), MD5(t)"]), st.integers(0, len(ROWS) - 1)),
    "statement": st.tuples(st.just("statement"), STATEMENT),
    "dataset": weighted(4, PUT, 1, REMOVE, 4, READ, 2, BEGIN, 2, RESUME, 1, st.tuples(st.just("sql"), st.sampled_from(["SELECT * FROM ds", "SELECT n FROM ds WHERE n > 1", "SELECT COUNT(*) FROM ds"]))),
    "null": st.tuples(st.just("null"), st.lists(RECORD, max_size=3), st.sampled_from([{}, {}, {"data": None}, {"dataste": 1}, {"select": "n"}, {"filters": "n = 1"}, {"raw_path": True, "freshness_limit": "1d"}])),
    "write": weighted(6, WRITE, 1, DATABASE, 2, SCHEMA_FILE),
    "schema": weighted(2, st.tuples(st.just("check"), st.sampled_from(SCHEMAS), RECORD), 1, SCHEMA_FILE),
    "set": weighted(3, SET, 2, KEPT),
    "text": st.tuples(st.just("text"), st.sampled_from(["like", "not_like", "matches", "tokenize", "sanitize", "wrap_text"]), st.sampled_from([w for w in WORDS] + [1, None]), st.sampled_from(WORDS)),
    "dates": st.one_of(
        st.tuples(st.just("parse"), MOMENT), st.tuples(st.just("path"), PATH, st.sampled_from([datetime.date(2021, 1, 2), datetime.datetime(2021, 1, 2, 5), datetime.datetime(2021, 1, 2, 5, 6), datetime.date(2021, 2, 2)])),
        st.tuples(st.just("delta"), st.sampled_from(["1d", "1D", "1h", "1d1h", "", "x", "1m", "1M"])), st.tuples(st.just("hours"), MOMENT, MOMENT),
    ),
    "flatten": st.tuples(st.just("flatten"), st.sampled_from([{"a": 1}, {"a": True}, {"a": {"b": 1}}, {"a": {"b": 1.0}}, {"a.b": 1}, {"a": [1, 2]}, {"a": [True, 2]}, {"a": {"0": 1}}, {"a": {}}]), st.sampled_from([".", "_", "."])),
    "error": st.one_of(
        st.tuples(st.just("error"), st.integers(0, 2), st.sampled_from([v for v in ALIKE if not isinstance(v, dict)]), st.sampled_from(["while", "from", "none"])),
        st.tuples(st.just("program"), st.lists(st.sampled_from(["a = 1", "a = 2", "b = 1", "", "raise ValueError(1)"]), max_size=3), st.sampled_from(["raise ValueError(1)", "raise ValueError(2)", "open(1, 2, 3)"])),
    ),
    "context": st.one_of(
        st.tuples(st.just("configure"), st.sampled_from(["config.json", "sub/other.json"]), st.sampled_from([{"a": 1}, {"a": 2}, {"a": True}, {"config": {"x": 1}}, {}])),
        st.tuples(st.just("context"), st.sampled_from([{}, {"a": 5}, {"b": 1}, {"config_file": "other.json"}, {"config_file": "none.json"}])),
    ),
}
ANY = st.one_of(*FAMILIES.values())


# ------------------------------------------------------------ the operations


class Fault(Exception):
    pass


class Faulty(DiskWriter):
    countdown = None

    def commit(self, *args, **kwargs):
        if Faulty.countdown is not None:
            Faulty.countdown -= 1
            if Faulty.countdown <= 0:
                Faulty.countdown = None
                raise Fault()
        return super().commit(*args, **kwargs)


class Engine(BaseDatabaseWriter):
    fail = False

    def commit(self, frame):
        if Engine.fail:
            Engine.fail = False
            raise Fault()
        self.engine.extend(dict(zip(frame.column_names, tuple(row))) for row in frame)


MUTATIONS = ("put", "remove", "configure")


def in_parquet(value, count):
    buffer = io.BytesIO()
    pyarrow.parquet.write_table(pyarrow.table({"n": [(value + i) % 5 for i in range(count)], "t": ["aAbB "[(value + i) % 5] for i in range(count)]}), buffer)
    return buffer.getvalue()


# made before there are other processes, arrow has threads
PARQUET = {(value, count): in_parquet(value, count) for value in range(5) for count in range(1, 4)}


def mutate(op):
    if op[0] == "configure":
        return store(op[1], orjson.dumps(op[2]))
    _, dataset, day, name, count, value = op
    path = f"{dataset}/{FOLDERS[day]}/{name}"
    if op[0] == "remove":
        if os.path.exists(path):
            os.remove(path)
        return
    rows = [{"n": (value + i) % 5, "t": "aAbB "[(value + i) % 5]} for i in range(count)]
    data = b"" if "frame." in name else b"".join(orjson.dumps(row) + b"\n" for row in rows)
    if name.endswith("zstd"):
        data = zstandard.compress(data)
    elif name.endswith("lzma"):
        data = lzma.compress(data)
    elif name.endswith("csv"):
        data = "".join(["n,t\n", *(f"{row['n']},{row['t']}\n" for row in rows)]).encode()
    elif name.endswith("xml"):
        items = [f"<r><n>{row['n']}</n><t k='{row['n']}'>{row['t']}</t></r>" for row in rows]
        data = ("\n".join(items) if name.endswith("lxml") else f"<d>{''.join(items)}</d>").encode()
    elif name.endswith("parquet"):
        data = PARQUET[value, count]
    elif name.endswith("json"):
        data = orjson.dumps(rows[0])
    elif name.endswith("zip"):
        buffer = io.BytesIO()
        with zipfile.ZipFile(buffer, "w") as archive:
            archive.writestr(zipfile.ZipInfo("c.jsonl"), data)
        data = buffer.getvalue()
    store(path, data)


def store(path, data):
    put("./" + path, data)
    os.utime(path, ns=(10**18, 10**18))


def plain(row):
    return row.as_dict() if hasattr(row, "as_dict") else row


def make_set(storage, rows):
    return DictSet(rows, storage_class=storage)


def ask(ds, question):
    what, *args = question
    if what == "distinct":
        return list(ds.distinct(*args[0]))
    if what == "group":
        return list(ds.group_by(args[0]).aggregate([(args[1], "n")]))
    if what == "collect":
        sets = ds.collect_set(args[0], dedupe=args[1])
        return [len(sets), list(sets.items()), sets.count()]
    if what == "hash":
        return hash(ds)
    if what == "sort":
        return list(ds.sort_and_take(args[0], take=args[1], descending=args[2]))
    if what == "types":
        return ds.types()
    if what == "keys":
        return list(ds.keys(args[0]))
    if what == "list":
        return [list(ds), ds.count(), ds.first()]
    if what == "some":
        return list(ds.take(args[0]))
    if what == "statistics":
        return [ds.sum("n"), ds.min("n"), ds.max("n"), ds.min_max("n"), ds.mean("n")]
    if what == "items":
        return sorted(map(repr, ds.get_items(*[p for p in args[0] if p < ds.count()])))
    if what in ("filter", "dnf"):
        return list(ds.filter(args[0]))
    if what == "tables":
        return [ds.to_ascii_table(args[0]), ds.to_html_table(args[0])]
    bins = Histogram(ds, key="n", number_of_bins=args[0])
    return [bins.bins, repr(bins)]


def reader(how, **more):
    how = {**how, **more}
    first, last = how.pop("days")
    return Reader(
        inner_reader=DiskReader, start_date=(BASE + datetime.timedelta(days=first)).isoformat(), end_date=(BASE + datetime.timedelta(days=last)).isoformat(), **how
    )


def resume(dataset, count):
    how = {"dataset": dataset, "days": (0, 1)}
    first = reader(how)
    got = [plain(r) for _, r in zip(range(count), iter(first))]
    position = orjson.dumps(first.cursor.get()).decode()
    return [got, [plain(r) for r in reader(how, cursor=position)]]


def write(kind, dataset, fmt, schema, expectations, records, fault, blob_size, finalize):
    # the storage holds nothing but what this writer puts there
    for folder in ("out", "OUT"):
        shutil.rmtree(folder, ignore_errors=True)
    kwargs = {"dataset": dataset, "format": fmt, "schema": SCHEMAS[schema], "blob_size": blob_size, "inner_writer": Faulty}
    if EXPECTATIONS[expectations]:
        kwargs["set_of_expectations"] = EXPECTATIONS[expectations]
    said = []
    Faulty.countdown = None
    writer = None
    try:
        if kind == "batch":
            writer = BatchWriter(frame_id=dataset + "/as_at_1/", **kwargs)
        else:
            writer = (StreamWriter if kind == "stream" else Writer)(**kwargs)
        Faulty.countdown = fault
        for record in records:
            try:
                writer.append(dict(record))
                said.append("taken")
            except Exception as exc:
                said.append(type(exc).__name__)
        if finalize:
            try:
                writer.finalize()
            except Exception as exc:
                said.append(type(exc).__name__)
    finally:
        Faulty.countdown = None
        if writer is not None:
            writer.run_pool_attendant = False
    stored = []
    for path in files_under("out") + files_under("OUT"):
        with open(path, "rb") as f:
            name = os.path.basename(path)
            stored.append((os.path.dirname(path), name if name == "frame.complete" else name.split(".", 1)[1:], f.read()))
    return [said, sorted(stored, key=repr)]


def database(schema, records, fault):
    stored, said = [], []
    Engine.fail = False
    writer = DatabaseWriter(dataset="t", inner_writer=Engine, engine=stored, schema=SCHEMAS[schema])
    for record in records:
        try:
            said.append(writer.append(dict(record)))
        except Exception as exc:
            said.append(type(exc).__name__)
    Engine.fail = bool(fault)
    try:
        said.append(writer.finalize())
    except Exception as exc:
        said.append(type(exc).__name__)
    Engine.fail = False
    return [said, stored]


def raising(depth, value, chained):
    local = [value, depth]
    if depth:
        return raising(depth - 1, value, chained)
    try:
        local[9]
    except IndexError as exc:
        if chained == "while":
            raise ValueError(value)
        raise ValueError(value) from (exc if chained == "from" else None)


def rendered(depth, value, chained):
    try:
        raising(depth, value, chained)
    except ValueError:
        return render_error_stack()


def failing_program(lines, last):
    """a program, which is changed between one failure and the next"""
    program = "\n".join([*lines, last])
    put("./program.py", program.encode())
    try:
        exec(compile(program, "program.py", "exec"), {})
    except Exception:
        return render_error_stack().replace(os.getcwd(), "")


def validated(schema, record):
    loaded = schema_loader(schema)
    return loaded and [loaded.validate(record), sorted((c.name, str(c.type)) for c in loaded.columns)]


def perform(op, kept):
    kind, *args = op
    if kind in MUTATIONS:
        return mutate(op)
    if kind == "expression":
        return [r["n"] for r in DictSet(list(ROWS)).filter(args[0])]
    if kind == "kept expression":
        if args[0] not in kept:
            kept[args[0]] = Expression(args[0])
        return bool(kept[args[0]].evaluate(ROWS[args[1]]))
    if kind == "dnf":
        return [r["n"] for r in DictSet(list(ROWS)).filter(args[0])]
    if kind == "select":
        return list(Evaluator(args[0])(dict(ROWS[args[1]])).items())
    if kind == "kept select":
        if args[0] not in kept:
            kept[args[0]] = Evaluator(args[0])
        return list(kept[args[0]](dict(ROWS[args[1]])).items())
    if kind == "statement":
        return [plain(r) for r in SqlReader(args[0], inner_reader=DiskReader, partitions=None)]
    if kind == "sql":
        return [plain(r) for r in SqlReader(args[0], inner_reader=DiskReader, start_date="2021-01-02", end_date="2021-01-03")]
    if kind == "read":
        return [plain(r) for r in reader(args[0])]
    if kind == "begin":
        begun = iter(reader(args[0]))
        got = [plain(r) for _, r in zip(range(args[1]), begun)]
        if args[2]:
            kept.setdefault("begun", []).append(begun)
        return got
    if kind == "resume":
        return resume(*args)
    if kind == "error":
        return rendered(*args)
    if kind == "program":
        return failing_program(*args)
    if kind == "check":
        return validated(*args)
    if kind == "null":
        extra = {"data": args[0], **args[1]}
        if extra["data"] is None:
            return [plain(r) for r in Reader(inner_reader=NullReader, dataset="x", partitions=None)]
        return [plain(r) for r in Reader(inner_reader=NullReader, dataset="x", partitions=None, **extra)]
    if kind == "write":
        return write(*args)
    if kind == "database":
        return database(*args)
    if kind == "set":
        return ask(make_set(args[0], [{"n": i, "t": JSON_ALIKE[p], "u": p % 3} for i, p in enumerate(args[1])]), args[2])
    if kind == "kept":
        if args[0] not in kept:
            kept[args[0]] = make_set(args[0], [{"n": i, "t": v, "u": i % 3} for i, v in enumerate(JSON_ALIKE)])
        return ask(kept[args[0]], args[1])
    if kind == "text":
        what, one, two = args
        if what in ("tokenize", "sanitize"):
            return getattr(text, what)(two)
        if what == "wrap_text":
            return text.wrap_text(two, 5)
        return bool(getattr(text, what)(one, two))
    if kind == "parse":
        return dates.parse_iso(args[0])
    if kind == "path":
        return [paths.build_path(*args), paths.date_format(*args), paths.get_parts(args[0])]
    if kind == "delta":
        return dates.parse_delta(args[0])
    if kind == "hours":
        return [h for _, h in zip(range(30), dates.date_range(*args))]
    if kind == "flatten":
        return list(flatten(dict(args[0]), args[1]).items())
    if kind == "context":
        return build_context(**args[0])
    raise AssertionError(kind)


def attempt(op, kept):
    try:
        return canon(perform(op, kept))
    except (Exception, BaseException) as exc:
        return ("raised", type(exc).__name__)


# ------------------------------------------------- in processes of their own


def forked(folder, prepare, ops):
    """what the operations give in a new process, one after the other"""
    read_end, write_end = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            # a writer which was given up writes when it is collected, in the middle of something else
            gc.disable()
            os.close(read_end)
            os.makedirs(folder)
            os.chdir(folder)
            lay_out()
            for op in prepare:
                mutate(op)
            kept = {}
            answer = pickle.dumps([attempt(op, kept) for op in ops])
            with os.fdopen(write_end, "wb") as f:
                f.write(answer)
        finally:
            os._exit(0)
    os.close(write_end)
    data, deadline = b"", time.monotonic() + 90
    try:
        while True:
            ready, _, _ = select.select([read_end], [], [], max(0, deadline - time.monotonic()))
            check(ready, f"{ops} did not end")
            part = os.read(read_end, 1 << 20)
            if not part:
                break
            data += part
    finally:
        os.close(read_end)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    if not data:
        raise Violation(f"the process which did {ops} died")
    return pickle.loads(data)


LAID_OUT = [(f"data/{name}.jsonl", b"".join(orjson.dumps({"n": 10 * b + i, "t": v, "T": JSON_ALIKE[-1 - i]}) + b"\n" for i, v in enumerate(JSON_ALIKE)))
            for b, name in enumerate(["a", "b", "more/c"])]
LAID_OUT += [("DATA/a.jsonl", b'{"n": 1, "t": "A"}\n')]


def lay_out():
    for path, data in LAID_OUT:
        store(path, data)


@st.composite
def alike(draw):
    ops = FAMILIES[draw(st.sampled_from(sorted(FAMILIES)))]
    return draw(st.lists(ops, min_size=2, max_size=5))


TWISTS = [str.lower, str.upper, str.swapcase, lambda s: s.replace(" ", "  "), lambda s: s.replace("  ", " "), lambda s: s.replace("'", '"'), lambda s: s.replace("1", "1.0"), lambda s: s.replace("1.0", "1"),
          lambda s: s.replace("a", "A"), lambda s: s[:-1] + "b" + s[-1:], lambda s: s.replace("t", "T"), lambda s: s.replace("T", "t")]


@st.composite
def twisted(draw):
    """an operation given by a text, and the same with the text changed a little"""
    kind = draw(st.sampled_from(["expression", "select", "statement", "text"]))
    op = draw(FAMILIES[kind])
    at = {"expression": 1, "select": 1, "statement": 1, "text": 3}[kind]
    ops = [op]
    for twist in draw(st.lists(st.integers(0, len(TWISTS) - 1), min_size=1, max_size=3)):
        changed = list(draw(st.sampled_from(ops)))
        changed[at] = TWISTS[twist](changed[at])
        if kind == "statement":
            # a statement stays one
            changed[at] = changed[at].replace("DATA.MORE", "data.more").replace(" from data", " FROM data")
        ops.append(tuple(changed))
    return ops


def run(ops, ctx):
    gc.freeze()
    root = os.path.abspath(ctx.fresh())
    together = forked(f"{root}/together", [], ops)
    for i, op in enumerate(ops):
        if op[0] in MUTATIONS:
            continue
        alone = together[0] if i == 0 else forked(f"{root}/alone{i}", [o for o in ops[:i] if o[0] in MUTATIONS], [op])[0]
        check(together[i] == alone, f"{short(op)} gives {short(together[i])} after {short(ops[:i])}, alone it gives {short(alone)}")
        if alone[0] != "raised":
            ctx.label(op[0])
    seen = {}
    for op, result in zip(ops, together):
        if op[0] not in MUTATIONS and result[0] != "raised":
            seen.setdefault(op[0], set()).add(repr(result))
    if any(len(results) > 1 for results in seen.values()):
        ctx.nt()


@st.composite
def datasets(draw):
    """a dataset which has records when it is first read, and others later"""
    ops = [("put", "ds", 0, draw(st.sampled_from(NAMES[:2] + ["as_at_1/a.jsonl", "c.zstd", "c.csv", "by_k/k=1/a.jsonl"])), draw(st.integers(1, 3)), draw(st.integers(0, 4)))]
    if ops[0][3].startswith("as_at"):
        ops.append(("put", "ds", 0, "as_at_1/frame.complete", 0, 0))
    asked = []
    for _ in range(draw(st.integers(2, 5))):
        # mostly what was asked before, but for one thing
        if asked and draw(st.integers(0, 2)):
            again = draw(st.sampled_from(asked))
            how = dict(again[1])
            if draw(st.booleans()):
                extra = [k for k in how if k not in ("dataset", "days")]
                if extra and draw(st.booleans()):
                    del how[draw(st.sampled_from(extra))]
                else:
                    name, value = draw(OPTION)
                    how[name] = value
            elif draw(st.booleans()):
                change = st.one_of(PUT, st.tuples(st.just("put"), st.just("ds"), st.just(0), st.just(ops[0][3]), st.integers(1, 3), st.integers(0, 4)), REMOVE)
                ops.append(draw(change))
            op = ("read", how)
        else:
            op = draw(weighted(5, READ, 2, BEGIN, 2, RESUME, 1, st.tuples(st.just("sql"), st.sampled_from(["SELECT * FROM ds", "SELECT n FROM ds WHERE n > 1", "SELECT COUNT(*) FROM ds"]))))
        ops.append(op)
        if op[0] == "read":
            asked.append(op)
    return ops


@PROP.test(datasets(), quick=500, thorough=30000)
def reads(case, ctx):
    run(case, ctx)


@PROP.test(alike(), quick=1200, thorough=60000)
def lookalikes(case, ctx):
    run(case, ctx)


@PROP.test(twisted(), quick=800, thorough=30000)
def twists(case, ctx):
    run(case, ctx)


@PROP.test(st.lists(ANY, min_size=2, max_size=7), quick=400, thorough=20000)
def mixed(case, ctx):
    run(case, ctx)


PROP.regress(
    "lookalikes",
    [("put", "ds", 0, "a.jsonl", 1, 1), ("read", {"dataset": "ds", "days": (0, 0)}), ("put", "ds", 0, "a.jsonl", 1, 2), ("read", {"dataset": "ds", "days": (0, 0)})],
    [("put", "ds", 0, "a.jsonl", 1, 1), ("read", {"dataset": "ds", "days": (0, 0)}), ("put", "ds", 0, "b.jsonl", 1, 2), ("read", {"dataset": "ds", "days": (0, 0)})],
    [("expression", "t = 'a'"), ("expression", "t = 'A'"), ("expression", "t = 'a b'"), ("expression", "t = 'a  b'")],
    [("statement", "SELECT n FROM data WHERE t = 'a'"), ("statement", "SELECT n FROM data WHERE t = 'A'"), ("statement", "SELECT n FROM data WHERE t = 'a  b'"), ("statement", "SELECT n FROM data WHERE t = 'a b'")],
    [("select", "STRING(t)", i) for i in range(6)],
    [("text", "like", "a" * 40, "a" * 39 + "_"), ("text", "like", "a" * 40, "a" * 40), ("text", "like", "a" * 39 + "b", "a" * 40)],
    [("null", [{"n": 1}], {}), ("null", [{"n": 1}], {"data": None}), ("read", {"dataset": "ds", "days": (0, 0), "data": []})],
    [("configure", "schema.json", [{"name": "n", "type": "INTEGER"}]), ("check", "schema.json", {"n": 1}), ("configure", "schema.json", [{"name": "n", "type": "VARCHAR"}]), ("check", "schema.json", {"n": 1})],
    [("program", ["a = 1"], "raise ValueError(1)"), ("program", ["a = 2"], "raise ValueError(1)"), ("program", [""], "raise ValueError(1)")],
    [("write", "simple", "out", "jsonl", 2, 0, [{"n": 1, "t": "a"}], None, 1, True), ("write", "simple", "out", "jsonl", 3, 0, [{"n": 1, "t": "a"}], None, 1, True)],
)
