"""C34 - what a caller hands over is read, not changed, and what was taken does not change with it afterwards."""
import copy
import datetime
import json
import os

import orjson
import pydantic
from orso.schema import RelationSchema

from domain import FIELD, JSON, JSON_RECORD, TEXT, WORD, schema_for, sized_list, typed_table, weighted
from harness import Property, check, expect_rows, short
from store import put, read
from vhyp import st

from mabel.adapters.disk import DiskReader, DiskWriter
from mabel.data import STORAGE_CLASS, BatchWriter, Reader, SqlReader, StreamWriter
from mabel.data.internals import records
from mabel.data.internals.dictset import DictSet
from mabel.data.internals.dnf_filters import DnfFilters
from mabel.data.internals.expression import Expression
from mabel.data.readers.internals.inline_evaluator import Evaluator
from mabel.data.writers.database_writer import DatabaseWriter
from mabel.data.writers.writer import Writer
from mabel.errors import DataNotFoundError

PROP = Property(
    "C34",
    rule="a case is one use of a writer, a reader, a set, a filter or a record function with arguments of which some are "
    "mutable (records with nested values, schemas in every form, expectations, partitions, filters, cursors, lists of "
    "columns); the arguments are compared, down to the order of keys, with a copy taken before; for writers the records "
    "are changed after they were taken and the same arguments are used again; non-trivial = a nested or list argument",
    assumptions=[
        "pydantic models and RelationSchema objects are compared by their contents",
        "sets over the caller's own list hand out the caller's own records, changing those is the caller's choice",
    ],
)

DAY = "2021-05-30"


def snapshot(value):
    """what can be seen of a value: types, contents and the order of both"""
    if isinstance(value, dict):
        return (type(value).__name__, [(k, snapshot(v)) for k, v in value.items()])
    if isinstance(value, (list, tuple)):
        return (type(value).__name__, [snapshot(v) for v in value])
    if isinstance(value, (set, frozenset)):
        return (type(value).__name__, sorted(map(repr, value)))
    if isinstance(value, RelationSchema):
        return ("schema", repr([(c.name, str(c.type), c.nullable) for c in value.columns]), value.name)
    if isinstance(value, pydantic.BaseModel):
        return (type(value).__name__, snapshot(value.model_dump()))
    if type(value).__module__.startswith("data_expectations"):
        return ("expectation", snapshot({k: v for k, v in vars(value).items()}))
    return (type(value).__name__, repr(value))


class Watch:
    """arguments which must not change"""

    def __init__(self, **arguments):
        self.arguments = arguments
        self.before = {k: snapshot(v) for k, v in arguments.items()}

    def verify(self, after):
        for name, value in self.arguments.items():
            now = snapshot(value)
            check(now == self.before[name], f"{after} changed the caller's {name}", short(self.before[name], 500), short(now, 500))


# ------------------------------------------------------------------- writers

JSON_TYPES = ("VARCHAR", "INTEGER", "DOUBLE", "BOOLEAN", "ARRAY")
FORMS = ["columns", "fields", "named fields", "list", "json", "file", "object"]
EXPECTATIONS = [
    {"expectation": "expect_column_to_exist", "column": "alpha"},
    {"expectation": "expect_column_values_to_be_in_set", "column": "none", "symbols": [1, 2, 3]},
]


def schema_in(form, columns, root, implicit=False):
    columns = schema_for(columns)["columns"]
    if implicit:  # columns may be null unless it is said that they may not
        columns = [{k: v for k, v in c.items() if k != "nullable" or not v} for c in columns]
    if form in ("columns", "fields"):
        return {form: columns}
    if form == "named fields":
        return {"name": "mine", "fields": columns, "aliases": ["other"]}
    if form == "list":
        return columns
    text = json.dumps({"fields": columns})
    if form == "json":
        return text
    if form == "file":
        put(f"{root}/schema.json", text.encode())
        return f"{root}/schema.json"
    return RelationSchema.from_dict({"name": "t", "columns": columns})


def spoil(value):
    """change everything which can be changed"""
    if isinstance(value, dict):
        for inner in list(value.values()):
            spoil(inner)
        value.clear()
        value["spoilt"] = True
    elif isinstance(value, list):
        for inner in value:
            spoil(inner)
        value.append("spoilt")
        value.reverse()


class Kept:
    """an inner writer for databases, which keeps the rows"""

    def __init__(self, engine=None, **kwargs):
        self.engine = engine

    def commit(self, batch):
        self.engine.extend(r.as_dict if not callable(r.as_dict) else r.as_dict() for r in batch)

    def finalize(self, **kwargs):
        pass


@st.composite
def writing(draw):
    kind = draw(st.sampled_from(["batch", "batch", "simple", "stream", "database"]))
    fmt = draw(st.sampled_from(["parquet", "jsonl", "zstd", "flat"])) if kind != "database" else "database"
    if fmt in ("parquet", "database"):
        columns, rows = draw(typed_table(max_rows=6, min_rows=1))
        form = draw(st.sampled_from(FORMS))
    elif draw(st.booleans()):
        columns, rows = draw(typed_table(max_rows=6, min_rows=1, types=JSON_TYPES))
        form = draw(st.sampled_from(FORMS))
    else:
        columns, form = [], None
        rows = draw(sized_list(JSON_RECORD, (1, 2, 4)))
    return {
        "kind": kind, "format": fmt, "columns": columns, "rows": rows, "form": form,
        "expect": draw(st.booleans()) and any(c[0] == "alpha" for c in columns),
        "partitions": draw(st.sampled_from([None, ["year_{yyyy}/month_{mm}/day_{dd}"], ["{yyyy}", "{mm}-{dd}"]])),
        "blob_size": draw(st.sampled_from([1, 100, 10_000_000])),
        "spoil": draw(st.booleans()),
        "implicit": draw(st.booleans()),
        "folder": draw(st.sampled_from([None, "zz", "column"])) if kind == "stream" else None,
        "refused": draw(st.sampled_from([None, "a column less", "another type"])) if columns else None,
    }


@PROP.test(writing(), quick=1600, thorough=40000)
def writers(case, ctx):
    root = ctx.fresh()
    schema = schema_in(case["form"], case["columns"], root, case["implicit"]) if case["form"] else False
    expectations = copy.deepcopy(EXPECTATIONS) if case["expect"] else None
    partitions = copy.deepcopy(case["partitions"]) if case["partitions"] else None
    folder = case["folder"]
    if folder == "column":
        folder = next((name for name, kind, _ in case["columns"] if kind in ("INTEGER", "BOOLEAN")), None)
    if folder:
        partitions = None
    watch = Watch(schema=schema, expectations=expectations, partitions=partitions)
    results = []
    for turn in range(2):
        rows = copy.deepcopy(case["rows"])
        stored = []
        dataset = f"{root}/ds{turn}"
        kwargs = {"schema": schema, "set_of_expectations": expectations, "dataset": f"{dataset}/{{{folder}}}" if folder else dataset}
        if case["kind"] == "database":
            writer = DatabaseWriter(inner_writer=Kept, engine=stored, **kwargs)
        else:
            kwargs.update(inner_writer=DiskWriter, format=case["format"], date=DAY, partitions=partitions, blob_size=case["blob_size"])
            writer = {"batch": BatchWriter, "simple": Writer, "stream": StreamWriter}[case["kind"]](**kwargs)
        try:
            watch.verify(f"creating a {case['kind']} writer")
            for row in rows:
                handed = Watch(record=row)
                writer.append(row)
                handed.verify(f"appending to a {case['kind']} writer ({case['format']})")
                if case["spoil"]:
                    spoil(row)
            if case["refused"]:
                row = copy.deepcopy(case["rows"][0])
                if case["refused"] == "a column less":
                    row.pop(case["columns"][-1][0])
                else:
                    row[case["columns"][-1][0]] = {"not": ["this", {"deep": 1}]}
                handed = Watch(record=row)
                try:
                    writer.append(row)
                except Exception:
                    ctx.label("refused")
                handed.verify(f"appending what does not conform to a {case['kind']} writer ({case['format']})")
            handed = Watch(records=rows)
            writer.finalize()
            handed.verify("finalizing")
        finally:
            if case["kind"] == "stream":
                writer.run_pool_attendant = False
        watch.verify(f"using a {case['kind']} writer")
        if case["kind"] != "database":
            stored = read(dataset, on=DAY, partitions=partitions)
        expected = [records.flatten(copy.deepcopy(r)) for r in case["rows"]] if case["format"] == "flat" else case["rows"]
        expect_rows(stored, expected, f"what a {case['kind']} writer took, the records {'changed since' if case['spoil'] else 'kept'} (use {turn + 1})", ordered=False)
    nested = any(isinstance(v, (list, dict)) and v for r in case["rows"] for v in r.values())
    if nested or isinstance(schema, (dict, list)):
        ctx.nt(case["kind"], case["format"], f"schema {case['form']}")
    if folder:
        ctx.label("a folder for each value" if folder != "zz" else "a folder for a missing value")
    if nested and case["spoil"]:
        ctx.label("nested values changed after they were taken")


# ------------------------------------------------------------------- readers

VALUE = st.sampled_from([0, 1, 2, "x", "y", None])
ROW = st.fixed_dictionaries({"a": VALUE, "n": st.integers(0, 9)}, optional={"tags": st.lists(WORD, max_size=3), "deep": st.fixed_dictionaries({"x": VALUE})})
LEAF = weighted(
    4, st.tuples(st.sampled_from(["a", "n"]), st.sampled_from(["=", "!=", "<", ">="]), VALUE),
    2, st.tuples(st.just("a"), st.sampled_from(["in", "not in"]), st.lists(VALUE, max_size=3)),
    1, st.tuples(st.just("a"), st.just("in"), st.sets(VALUE, max_size=3)),
    1, st.tuples(st.just("tags"), st.just("contains"), WORD),
)
DNF = weighted(1, LEAF, 2, st.lists(LEAF, min_size=1, max_size=3), 3, st.lists(st.lists(LEAF, min_size=1, max_size=2), min_size=1, max_size=3))
PERSISTENCE = st.sampled_from(list(STORAGE_CLASS))


@PROP.test(
    st.fixed_dictionaries(
        {
            "blobs": st.lists(sized_list(ROW, (0, 1, 3)), min_size=1, max_size=4),
            "filters": st.one_of(st.none(), DNF),
            "select": st.sampled_from(["*", "a, n", "n", "tags"]),
            "persistence": PERSISTENCE,
            "cursor": st.sampled_from([None, None, "dict"]),
            "after": st.integers(1, 8),
            "prefixes": st.booleans(),
            "partition_filter": st.booleans(),
        }
    ),
    quick=1200,
    thorough=40000,
)
def readers(case, ctx):
    root = ctx.fresh()
    partitions = ["year_{yyyy}", "month_{mm}", "day_{dd}"]
    where = f"{root}/ds/year_2021/month_05/day_30"
    if case["partition_filter"]:
        where += "/by_a/a=1"
    for i, rows in enumerate(case["blobs"]):
        put(f"{where}/b{i}.jsonl", b"".join(orjson.dumps(r) + b"\n" for r in rows))
    common = {
        "filters": copy.deepcopy(case["filters"]),
        "partitions": partitions,
        "valid_dataset_prefixes": ["nowhere", root] if case["prefixes"] else None,
        "partition_filter": ["a", "=", "1"] if case["partition_filter"] else None,
    }
    watch = Watch(**common)

    def reader(**more):
        return Reader(dataset=f"{root}/ds", inner_reader=DiskReader, start_date=DAY, end_date=DAY, select=case["select"], persistence=case["persistence"], **common, **more)

    try:
        first = list(reader())
        watch.verify("reading")
        again = list(reader())
    except TypeError:
        # text compared with numbers
        return
    expect_rows(again, first, "reading with the same arguments again")
    watch.verify("reading again")
    if case["cursor"] and case["persistence"] == STORAGE_CLASS.NO_PERSISTANCE and first:
        started = reader()
        got = [next(started) for _ in range(min(case["after"], len(first)))]
        cursor = started.cursor.get()
        held = Watch(cursor=cursor)
        rest = list(reader(cursor=cursor))
        held.verify("resuming")
        expect_rows(got + rest, first, "a read which was resumed")
        more = list(reader(cursor=cursor))
        held.verify("resuming again")
        expect_rows(more, rest, "resuming from the same cursor again")
        # the cursor taken is a record of then, reading on does not change it
        list(started)
        held.verify("reading on")
        ctx.label("cursor")
    if isinstance(case["filters"], list):
        ctx.nt(case["persistence"].name)


# ---------------------------------------------------------------------- sets

COLUMNS = st.lists(st.sampled_from(["a", "n", "tags", "zz"]), min_size=1, max_size=3, unique=True)
USE = weighted(
    2, st.tuples(st.just("filter"), DNF),
    1, st.tuples(st.just("filter text"), st.sampled_from(["a = 'x'", "n > 3 AND NOT a = 1", "tags CONTAINS 'a'"])),
    2, st.tuples(st.just("select"), COLUMNS),
    1, st.tuples(st.just("getitem"), COLUMNS),
    1, st.tuples(st.just("distinct"), COLUMNS),
    1, st.tuples(st.just("distinct all"), st.none()),
    2, st.tuples(st.just("group"), st.lists(st.sampled_from(["a", "n"]), min_size=1, max_size=2, unique=True)),
    2, st.tuples(st.just("aggregate"), st.lists(st.tuples(st.sampled_from(["COUNT", "SUM", "MIN", "MAX", "AVG", "AVG"]), st.sampled_from(["n", "a"])), min_size=1, max_size=3)),
    1, st.tuples(st.just("collect_set"), st.sampled_from(["a", "n"])),
    1, st.tuples(st.just("collect_list"), st.sampled_from([None, "a", "tags"])),
    1, st.tuples(st.just("sort"), st.booleans()),
    1, st.tuples(st.just("take"), st.integers(0, 4)),
    1, st.tuples(st.just("keys"), st.none()),
    1, st.tuples(st.just("hash"), st.none()),
    1, st.tuples(st.just("types"), st.none()),
    1, st.tuples(st.just("tables"), st.none()),
    1, st.tuples(st.just("pandas"), st.none()),
    1, st.tuples(st.just("get_items"), st.none()),
    1, st.tuples(st.just("sample"), st.none()),
)


def use(ds, what, argument):
    if what == "filter":
        return list(ds.filter(argument))
    if what == "filter text":
        return list(ds.filter(argument))
    if what == "select":
        return list(ds.select(argument))
    if what == "getitem":
        return list(ds[argument])
    if what == "distinct":
        return list(ds.distinct(*argument))
    if what == "distinct all":
        return list(ds.distinct())
    if what == "group":
        groups = ds.group_by(argument)
        return list(groups.aggregate([("COUNT", "*"), ("MAX", "n"), ("SUM", "n")]))
    if what == "aggregate":
        return list(ds.group_by(["a"]).aggregate(argument))
    if what == "collect_set":
        sets = ds.collect_set(argument)
        return [sets.count(), sets.aggregate("n", list), list(sets.items())]
    if what == "collect_list":
        return ds.collect_list(argument)
    if what == "sort":
        return list(ds.sort_and_take("n", take=3, descending=argument))
    if what == "take":
        return list(ds.take(argument))
    if what == "get_items":
        return list(ds.get_items(0))
    if what == "keys":
        return ds.keys()
    if what == "hash":
        return hash(ds)
    if what == "types":
        return ds.types()
    if what == "tables":
        return [ds.to_ascii_table(), ds.to_html_table()]
    if what == "pandas":
        return len(ds.to_pandas())
    return list(ds.sample(0.5)) and None


@PROP.test(st.tuples(sized_list(ROW, (1, 2, 5)), st.sampled_from(list(STORAGE_CLASS)), st.lists(USE, min_size=1, max_size=4)), quick=2400, thorough=100000)
def sets(case, ctx):
    given, storage, uses = copy.deepcopy(case)
    watch = Watch(records=given, arguments=uses)
    same = [id(r) for r in given]
    ds = DictSet(given, storage_class=storage)
    for what, argument in uses:
        try:
            use(ds, what, argument)
        except (TypeError, IndexError, ValueError, ArithmeticError):
            pass  # values which cannot be compared
        watch.verify(f"{what} (on a set in {storage.name})")
    check([id(r) for r in given] == same, "the caller's list holds other records")
    if len(uses) > 1:
        ctx.nt(storage.name)
        ctx.label(*(w for w, _ in uses))


# ----------------------------------------------------------------- functions

SELECTS = ["*, UPPER(a)", "n AS a, *", "LEN(tags) AS tags, *", "a, n", "UPPER(a)", "LEFT(a, 1) AS b, n", "CONCAT(a, n)", "*", "COALESCE(zz, a)", "LEN(tags)", "STRING(deep)", "ROUND(n, 1)", "VALUES(deep)"]
WHERES = ["a = 'x'", "a IN ('x', 'y', 1)", "n > 3 OR a LIKE '%x%'", "tags CONTAINS 'a'", "NOT (a IS NULL)", "deep = 1"]


@PROP.test(
    st.tuples(
        st.one_of(ROW, JSON_RECORD), DNF, st.sampled_from(SELECTS), st.sampled_from(WHERES), st.lists(FIELD, max_size=3), FIELD, JSON, TEXT
    ),
    quick=1500,
    thorough=60000,
)
def functions(case, ctx):
    record, dnf, select, where, fields, field, value, separator = copy.deepcopy(case)
    watch = Watch(record=record, filters=dnf, fields=fields, value=value)

    def run(label, call):
        try:
            result = call()
        except Exception:
            result = None  # whether it may fail is for other checks
        watch.verify(label)
        return result

    results = [
        run("flatten", lambda: records.flatten(record)),
        run("flatten", lambda: records.flatten(record, separator)),
        run("order", lambda: records.order(record)),
        run("select_record_fields", lambda: records.select_record_fields(record, fields)),
        run("set_value", lambda: records.set_value(record, field, value)),
        run("set_value by a function", lambda: records.set_value(record, field, lambda r: len(r))),
    ]
    for result in results:
        check(result is not record, "a record function returned the record itself", short(record))
    for call in (DnfFilters(dnf), Expression(where), Evaluator(select)):
        run(type(call).__name__, lambda: call(record))
        if isinstance(call, Expression):
            run("evaluate", lambda: call.evaluate(record))
    run("filter_dictset", lambda: list(DnfFilters(dnf).filter_dictset([record])))
    # what was returned is the caller's own: adding to it does not reach the record
    for result in results:
        if isinstance(result, dict):
            result["added"] = 1
    watch.verify("adding to what was returned")
    if any(isinstance(v, (dict, list)) and v for v in record.values()):
        ctx.nt("nested")
