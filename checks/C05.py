"""C05 - the schema and the expectations gate: what does not conform is refused and never stored."""

import orjson
import pydantic
import pydantic.v1

from domain import FIELD, SCALAR, TYPED, schema_for, sized_list, typed_table, weighted
from harness import Property, Violation, check, expect_rows, short
from store import files_under, read
from vhyp import st

from mabel.adapters.database.base_database_writer import BaseDatabaseWriter
from mabel.adapters.disk import DiskWriter
from mabel.adapters.null import NullWriter
from mabel.data import BatchWriter, DatabaseWriter, StreamWriter
from mabel.data.writers.writer import Writer

PROP = Property(
    "C05",
    rule="a case is a schema (or a set of expectations) and records of which some are damaged in one way (wrong type, "
    "null in a required column, missing column, extra column), appended through Writer or BatchWriter, with the "
    "dataset read back; non-trivial = the case has both conforming and damaged records",
    assumptions=[
        "conformance of a value to a column type is Python isinstance of the type orso maps the column type to; "
        "values where that is ambiguous (a bool for INTEGER, a datetime for DATE) are not generated as damage",
        "pydantic models are represented by a fixed model class with the fields of the generated schema",
    ],
)

DATE = "2021-05-30"
JSON_TYPES = ("VARCHAR", "INTEGER", "DOUBLE", "BOOLEAN", "ARRAY")
WRONG = {
    "VARCHAR": [1, 2.5, True, ["a"], {}, [], 0, False],
    "INTEGER": ["1", 1.5, [1], {}, [], "", 0.0],
    "DOUBLE": ["1.5", [1.0], True, 3, {}, "", 0],
    "BOOLEAN": ["true", 1, 0, {}, ""],
    "ARRAY": ["abc", 3, {}, "", 0, {"a": 1}],
    "TIMESTAMP": ["2021-01-01", 5],
    "DATE": ["2021-01-01", 5],
    "BLOB": ["text", 5],
}


# conforming records which come before
AHEAD = st.sampled_from([0] * 20 + [1, 7, 49, 64, 99, 127, 255])


@st.composite
def gated(draw, types):
    columns, rows = draw(typed_table(max_rows=10, types=types, min_rows=1))
    marked = []
    for row in rows:
        damage = draw(st.sampled_from([None, None, "type", "null", "missing", "extra"]))
        row = dict(row)
        name, kind, nullable = draw(st.sampled_from(columns))
        if damage == "type":
            row[name] = draw(st.sampled_from(WRONG[kind]))
        elif damage == "null":
            if nullable:
                damage = None
            else:
                row[name] = None
        elif damage == "missing":
            del row[name]
        elif damage == "extra":
            row["other"] = draw(st.sampled_from([None, 1, "x", {}, [], "", 0, False]))
        marked.append((damage, row))
    return columns, marked


def spelling(columns, form):
    """the ways a schema can be given"""
    import orjson
    from orso.schema import RelationSchema

    as_dict = schema_for(columns)
    if form == "dict":
        return as_dict
    if form == "fields":
        return {"fields": as_dict["columns"]}
    if form == "list":
        return as_dict["columns"]
    if form == "json":
        return orjson.dumps(as_dict).decode()
    if form == "object":
        return RelationSchema.from_dict({"name": "t", **as_dict})
    raise AssertionError(form)


@PROP.test(
    st.one_of(
        st.tuples(
            st.just("parquet"), gated(tuple(TYPED)), st.sampled_from(["dict", "fields", "list", "json", "object"]),
            st.sampled_from(["batch", "simple"]), st.sampled_from([1, 10_000_000]), AHEAD, st.booleans(),
        ),
        st.tuples(
            st.sampled_from(["jsonl", "zstd"]), gated(JSON_TYPES),
            st.sampled_from(["dict", "fields", "list", "json", "object"]),
            st.sampled_from(["batch", "simple"]), st.sampled_from([1, 10_000_000]), AHEAD, st.booleans(),
        ),
    ),
    quick=1600,
    thorough=40000,
)
def schema_gate(case, ctx):
    fmt, (columns, marked), form, kind, blob_size, ahead, reuse = case
    used = {}  # the one record some callers fill again and again
    first = next((row for damage, row in marked if damage is None), None)
    if first is not None:
        marked = [(None, first)] * ahead + marked
    dataset = ctx.fresh() + "/ds"
    writer = (BatchWriter if kind == "batch" else Writer)(
        inner_writer=DiskWriter, dataset=dataset, date=DATE, format=fmt, schema=spelling(columns, form),
        blob_size=blob_size,
    )
    good = []
    for damage, row in marked:
        record = dict(row)
        if reuse:
            used.clear()
            used.update(row)
            record = used
        try:
            writer.append(record)
            refused = None
        except Exception as exc:
            refused = exc
        if damage is None:
            if refused is not None:
                raise Violation(f"a conforming record was refused: {refused!r} | {short(row)}")
            good.append(row)
        else:
            check(refused is not None, f"a record with damage '{damage}' was accepted", short(row), columns)
    writer.finalize()
    expect_rows(read(dataset, on=DATE), good, "the dataset holds the conforming records", ordered=False)
    if len({d is None for d, _ in marked}) == 2:
        ctx.nt(fmt, form)
        ctx.label(*{d for d, _ in marked if d})


# ------------------------------------------------------------- expectations

EXPECT = {
    "exists": ({"expectation": "expect_column_to_exist", "column": "v"}, lambda r: "v" in r),
    "not null": ({"expectation": "expect_column_values_to_not_be_null", "column": "v"}, lambda r: r.get("v") is not None),
    "in set": (
        {"expectation": "expect_column_values_to_be_in_set", "column": "v", "symbols": [1, 2, 3]},
        lambda r: r.get("v") is None or r["v"] in (1, 2, 3),
    ),
    "between": (
        {"expectation": "expect_column_values_to_be_between", "column": "v", "minimum": 0, "maximum": 4},
        lambda r: r.get("v") is None or 0 <= r["v"] <= 4,
    ),
    "type": (
        {"expectation": "expect_column_values_to_be_of_type", "column": "w", "expected_type": "str"},
        lambda r: r.get("w") is None or type(r["w"]).__name__ == "str",
    ),
}


@PROP.test(
    st.fixed_dictionaries(
        {
            "expect": st.lists(st.sampled_from(sorted(EXPECT)), min_size=1, max_size=3, unique=True),
            "rows": sized_list(
                st.fixed_dictionaries(
                    {"n": st.integers(0, 9)},
                    optional={"v": st.one_of(st.none(), st.integers(-2, 7)), "w": st.sampled_from([None, "x", 5])},
                ),
                (1, 2, 5, 10, 110),
            ),
            "writer": st.sampled_from(["batch", "simple", "stream"]),
            "blob_size": st.sampled_from([1, 10_000_000]),
            "schema": st.sampled_from(["none", "none", "w is text", "only n and w"]),
            "reuse": st.booleans(),
        }
    ),
    quick=1200,
    thorough=20000,
)
def expectations_gate(case, ctx):
    """Alone, or together with a schema (then both have to be met)."""
    dataset = ctx.fresh() + "/ds"
    columns = [{"name": "n", "type": "INTEGER"}, {"name": "v", "type": "INTEGER"}, {"name": "w", "type": "VARCHAR"}]
    if case["schema"] == "only n and w":
        del columns[1]
    given_schema = case["schema"] != "none"
    writer = {"batch": BatchWriter, "simple": Writer, "stream": StreamWriter}[case["writer"]](
        inner_writer=DiskWriter, dataset=dataset, date=DATE, format="jsonl", blob_size=case["blob_size"],
        schema={"columns": columns} if given_schema else False,
        set_of_expectations=[dict(EXPECT[e][0]) for e in case["expect"]],
    )
    good, bad = [], []
    used = {}  # the one record some callers fill again and again
    names = {c["name"] for c in columns}
    try:
        for row in case["rows"]:
            unmet = [e for e in case["expect"] if not EXPECT[e][1](row)]
            if given_schema:
                row = {**dict.fromkeys(names), **row} if case["schema"] == "w is text" else row
                unmet = [e for e in case["expect"] if not EXPECT[e][1](row)]
                if set(row) != names or not isinstance(row["w"], (str, type(None))):
                    unmet.append("schema")
            record = row
            if case["reuse"]:
                used.clear()
                used.update(row)
                record = used
            try:
                writer.append(record)
                refused = None
            except Exception as exc:
                refused = exc
            if case["writer"] == "stream":
                check(refused is None, f"the stream writer raised {refused!r}", row)
            else:
                check(bool(unmet) == (refused is not None), f"not met: {unmet}, append said {refused!r}", row)
            (bad if unmet else good).append(row)
        writer.finalize()
    finally:
        writer.run_pool_attendant = False
    expect_rows(read(dataset, on=DATE), good, "the dataset holds the records meeting the expectations", ordered=False)
    if case["writer"] == "stream":
        diverted = []
        for path in files_under(dataset):
            if "/BACKOUT/" in path:
                with open(path, "rb") as f:
                    diverted += [orjson.loads(line) for line in f]
        expect_rows(diverted, bad, "the records diverted to BACKOUT", ordered=False)
    if 0 < len(good) < len(case["rows"]):
        ctx.nt(case["writer"], *case["expect"])
        if given_schema:
            ctx.label("with a schema")



class Kept(BaseDatabaseWriter):
    def commit(self, dataframe):
        self.engine.extend(dict(zip(dataframe.column_names, tuple(row))) for row in dataframe)


@PROP.test(
    st.tuples(
        st.lists(st.sampled_from(sorted(EXPECT)), min_size=1, max_size=3, unique=True),
        sized_list(
            st.fixed_dictionaries({"n": st.integers(0, 9), "v": st.one_of(st.none(), st.integers(-2, 7)), "w": st.sampled_from([None, "x", "x", 5])}),
            (1, 2, 5, 10, 120),
        ),
    ),
    quick=300,
    thorough=10000,
)
def database_gate(case, ctx):
    """a database writer is given a schema and expectations, a record has to meet both"""
    expect, rows = case
    stored = []
    writer = DatabaseWriter(
        dataset="t", inner_writer=Kept, engine=stored, set_of_expectations=[dict(EXPECT[e][0]) for e in expect],
        schema=[{"name": "n", "type": "INTEGER"}, {"name": "v", "type": "INTEGER"}, {"name": "w", "type": "VARCHAR"}],
    )
    good = []
    for row in rows:
        unmet = [e for e in expect if not EXPECT[e][1](row)]
        if row["w"] == 5:
            unmet.append("schema")
        try:
            writer.append(dict(row))
            refused = None
        except Exception as exc:
            refused = exc
        check(bool(unmet) == (refused is not None), f"not met: {unmet}, append said {refused!r}", row)
        if not unmet:
            good.append(row)
    writer.finalize()
    expect_rows(stored, good, "the records given to the database")
    if 0 < len(good) < len(rows):
        ctx.nt(*expect)


# ------------------------------------------------------------- pydantic


class Model(pydantic.BaseModel):
    n: int
    name: str | None = None
    tags: list[str] = []


class Base(pydantic.BaseModel):
    n: int


class Heir(Base):
    name: str | None = None


class Grandchild(Heir):
    tags: list[str] = []


class Reversed(pydantic.BaseModel):
    """the fields are those of the schema, not their order"""

    tags: list[str] = []
    name: str | None = None
    n: int


class Old(pydantic.v1.BaseModel):
    """has only the older method"""

    n: int
    name: str | None = None
    tags: list[str] = []


MODELS = [None, None, Model, Model, Grandchild, Reversed, Old]


@PROP.test(
    st.tuples(
        sized_list(
            st.tuples(
                st.integers(-(2**63), 2**63 - 1), st.one_of(st.none(), TYPED["VARCHAR"]), TYPED["ARRAY"], st.sampled_from(MODELS)
            ),
            (1, 2, 5),
        ),
        st.sampled_from(["jsonl", "zstd", "parquet"]),
        st.sampled_from(["batch", "simple", "stream"]),
    ),
    quick=600,
    thorough=10000,
)
def pydantic_models(case, ctx):
    """A model instance is stored as the dictionary it stands for."""
    rows, fmt, kind = case
    dataset = ctx.fresh() + "/ds"
    writer = {"batch": BatchWriter, "simple": Writer, "stream": StreamWriter}[kind](
        inner_writer=DiskWriter, dataset=dataset, date=DATE, format=fmt,
        schema=[{"name": "n", "type": "INTEGER"}, {"name": "name", "type": "VARCHAR"}, {"name": "tags", "type": "ARRAY"}],
    )
    try:
        expected = []
        for n, name, tags, as_model in rows:
            plain = {"n": n, "name": name, "tags": tags}
            writer.append(as_model(**plain) if as_model else plain)
            expected.append(plain)
        writer.finalize()
    finally:
        writer.run_pool_attendant = False
    expect_rows(read(dataset, on=DATE), expected, f"models through {kind}", ordered=False)
    if any(m for *_, m in rows):
        ctx.nt(kind, fmt)


@PROP.test(
    st.tuples(
        st.sampled_from([None, False]), st.sampled_from(["jsonl", "zstd", "parquet", "text", "flat"]),
        st.sampled_from(["batch", "simple", "stream", "database"]),
    ),
    quick=60,
    thorough=60,
)
def schema_is_required(case, ctx):
    """A writer must be given a schema or be told there is none; parquet cannot do without."""
    schema, fmt, kind = case
    expected_error = schema is None or fmt == "parquet" or kind == "database"
    writer = None
    try:
        writer = {"batch": BatchWriter, "simple": Writer, "stream": StreamWriter, "database": DatabaseWriter}[kind](
            inner_writer=NullWriter, dataset="nowhere/ds", format=fmt, schema=schema
        )
        raised = None
    except ValueError as exc:
        raised = exc
    if writer is not None:
        writer.run_pool_attendant = False
    check((raised is not None) == expected_error, f"schema={schema} format={fmt}: {raised!r}")
    ctx.nt(kind)


@PROP.test(
    st.tuples(
        st.sampled_from(["{}", "[]", '""', "0", '"{}"', '"[]"', '{"columns": []}', '{"fields": []}', '"nope"', "null", '"{\\"columns\\": []}"', '"no/such/file.json"']).map(orjson.loads),
        st.sampled_from(["jsonl", "zstd", "text", "flat", "parquet"]), st.sampled_from(["batch", "simple"]),
        weighted(3, st.dictionaries(FIELD, SCALAR, min_size=1, max_size=3), 1, st.just({"a": 1})),
    ),
    quick=60,
    thorough=400,
)
def no_columns_is_not_no_schema(case, ctx):
    """Only False says there's no schema: with a definition naming no column the writer refuses to start, or refuses a record which has fields."""
    schema, fmt, kind, record = case
    root = ctx.fresh()
    options = {"inner_writer": DiskWriter, "dataset": f"{root}/ds", "format": fmt, "schema": schema}
    try:
        writer = BatchWriter(date=DATE, **options) if kind == "batch" else Writer(**options)
    except Exception:
        ctx.nt("refuses to start")
        return
    try:
        writer.append(dict(record))
    except Exception:
        ctx.nt("refuses the record")
        return
    raise Violation(f"a writer with the schema {schema!r} took {short(record)}")
