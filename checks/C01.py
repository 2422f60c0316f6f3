"""C01 - everything a batch writer accepted is read back, exactly once, unchanged."""
import datetime
import decimal
import math

from domain import DATES, JSON_RECORD, SCALAR, TEXT, bulk, schema_for, sized_list, typed_table, weighted
from harness import Property, Violation, check, expect_rows
import orso
import pyarrow.parquet
from store import files_under, read
from vhyp import st

from mabel.adapters.disk import DiskReader, DiskWriter
from mabel.data import STORAGE_CLASS, BatchWriter, Reader
from mabel.data.validator import schema_loader
from mabel.data.writers.writer import Writer

PROP = Property(
    "C01",
    rule="a case is (records, format, blob size, partition scheme, date, writer, persistence, number of writers "
    "sharing the frame) generated by hypothesis, written with the real writers to disk and read back with the "
    "real Reader; non-trivial = at least two records and (more than one blob committed, or a nested / null / "
    "non-ASCII value present)",
    assumptions=[
        "values are those the format can carry: JSON values with 64-bit integers and finite floats for the "
        "JSON-lines formats, values of the declared column type for parquet, lines without a line feed for text",
        "order is compared when one blob was committed, otherwise contents are compared as a multiset",
    ],
)

SCHEMES = [
    None,
    ["year_{yyyy}/month_{mm}/day_{dd}"],
    ["{yyyy}/{mm}/{dd}"],
    ["year_{yyyy}", "month_{mm}", "day_{dd}"],
    ["year_{yyyy}/month_{mm}/day_{dd}/by_hour/hour={HH}"],
    ["d{dd}m{mm}y{yyyy}"],
]
READ_SCHEMES = {4: ["year_{yyyy}/month_{mm}/day_{dd}"]}
PERSIST = [
    STORAGE_CLASS.NO_PERSISTANCE,
    STORAGE_CLASS.NO_PERSISTANCE,
    STORAGE_CLASS.MEMORY,
    STORAGE_CLASS.DISK,
    STORAGE_CLASS.COMPRESSED_MEMORY,
]
COMMON = {
    "scheme": st.integers(0, len(SCHEMES) - 1),
    "date": DATES,
    "date_as": st.sampled_from(["date", "string", "datetime"]),
    "blob_size": st.sampled_from([1, 40, 100, 300, 1000, 10_000_000]),
    "writer": st.sampled_from(["batch", "batch", "batch", "simple"]),
    "writers": st.sampled_from([1, 1, 1, 2, 3]),
    "dataset": st.sampled_from(["ds", "a/b", "data set", "deep/er/path/ds"]),
}


def as_given(case):
    date = case["date"]
    if case["date_as"] == "string":
        return date.isoformat()
    if case["date_as"] == "datetime":
        return datetime.datetime(date.year, date.month, date.day, 13, 45, 7)
    return date


def write(case, root, rows, **kwargs):
    """Write rows, dealt over `writers` writers of one frame; returns the dataset to read."""
    dataset = f"{root}/{case['dataset']}"
    scheme = SCHEMES[case["scheme"]]
    if case["writer"] == "simple":
        writer = Writer(
            inner_writer=DiskWriter, dataset=dataset, date=as_given(case), partitions=scheme,
            blob_size=case["blob_size"], **kwargs,
        )
        for row in rows:
            writer.append(row)
        writer.finalize()
        return dataset
    count = case["writers"]
    first = BatchWriter(
        inner_writer=DiskWriter, dataset=dataset, date=as_given(case), partitions=scheme,
        blob_size=case["blob_size"], **kwargs,
    )
    writers = [first]
    for _ in range(count - 1):
        # jobs can be split: the other parts are told which frame they belong to
        writers.append(
            BatchWriter(
                inner_writer=DiskWriter, dataset=dataset, date=as_given(case), partitions=scheme,
                blob_size=case["blob_size"], frame_id=first.dataset, **kwargs,
            )
        )
    for i, row in enumerate(rows):
        writers[i % count].append(row)
    for writer in writers:
        writer.finalize()
    return dataset


def retrieve(case, dataset, **kwargs):
    return read(
        dataset,
        on=case["date"].isoformat(),
        partitions=READ_SCHEMES.get(case["scheme"], SCHEMES[case["scheme"]]),
        **kwargs,
    )


def data_blobs(root):
    return [f for f in files_under(root) if not f.endswith("frame.complete")]


def interesting(value):
    if isinstance(value, dict):
        return any(isinstance(v, (dict, list)) or interesting(v) for v in value.values())
    if isinstance(value, str):
        return not value.isascii()
    return value is None


def bounded(case, root):
    """blob_size is a maximum: a blob passes it by its last record at most."""
    for blob in data_blobs(root):
        with open(blob, "rb") as f:
            body = f.read()
        before_last = body[:-1].rfind(b"\n") + 1
        check(
            before_last <= case["blob_size"],
            f"blob holds {before_last} bytes before its last record, blob_size is {case['blob_size']}",
        )


def bounded_tables(case, root, columns):
    """the same for parquet, whose writer holds the rows of a blob in a DataFrame until it is too big"""
    for blob in data_blobs(root):
        rows = pyarrow.parquet.read_table(blob).to_pylist()
        frame = orso.DataFrame(rows=[], schema=schema_loader(schema_for(columns)))
        for row in rows[:-1]:
            frame.append(row)
        size = frame.nbytes()
        check(
            len(rows) < 2 or size <= case["blob_size"],
            f"blob holds rows of {size} bytes before its last, blob_size is {case['blob_size']}",
        )


def compare(case, ctx, root, rows, got):
    blobs = data_blobs(root)
    expect_rows(
        got, rows, f"{case['format']} round trip over {len(blobs)} blob(s)", ordered=len(blobs) <= 1
    )
    check(not rows or blobs, "records were written but there is no blob")
    if len(rows) >= 2 and (len(blobs) > 1 or any(interesting(r) for r in rows)):
        ctx.nt("multi-blob" if len(blobs) > 1 else "one-blob")
    ctx.label(case["format"], f"writers={case['writers']}" if case["writer"] == "batch" else "simple")


@PROP.test(
    st.fixed_dictionaries(
        {
            "format": st.sampled_from(["jsonl", "zstd"]),
            "rows": sized_list(JSON_RECORD, (0, 1, 2, 3, 5, 8, 20)),
            "persist": st.sampled_from(PERSIST),
            **COMMON,
        }
    ),
    quick=2400,
    thorough=100000,
)
def json_lines(case, ctx):
    root = ctx.fresh()
    rows = case["rows"]
    dataset = write(case, root, rows, format=case["format"], schema=False)
    got = retrieve(case, dataset, persistence=case["persist"])
    compare(case, ctx, root, rows, got)
    if case["format"] == "jsonl":
        bounded(case, root)
    ctx.label(case["persist"].name)


def as_stored(value):
    """JSON has strings for keys, and one kind of list"""
    if isinstance(value, dict):
        return {k if isinstance(k, str) else str(k): as_stored(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [as_stored(v) for v in value]
    if isinstance(value, float) and not math.isfinite(value):
        return None  # JSON has no others
    return value


NUMBERED = st.dictionaries(st.one_of(st.integers(0, 10**6), st.sampled_from(["a", "b"])), SCALAR, max_size=4)


@PROP.test(
    st.fixed_dictionaries(
        {
            "format": st.sampled_from(["jsonl", "zstd"]),
            "rows": sized_list(
                weighted(1, JSON_RECORD, 1, NUMBERED, 1, st.fixed_dictionaries({"k": NUMBERED}),
                         1, st.fixed_dictionaries({"t": st.tuples(SCALAR, SCALAR)})),
                (1, 2, 3, 5, 8, 20),
            ),
            **COMMON,
        }
    ),
    quick=800,
    thorough=20000,
)
def json_lines_numbered_keys(case, ctx):
    """records JSON can hold, although not as they are: keys are numbers, values tuples"""
    root = ctx.fresh()
    dataset = write(case, root, case["rows"], format=case["format"], schema=False)
    compare(case, ctx, root, as_stored(case["rows"]), retrieve(case, dataset))


# what JSON can't hold, or can't hold in every place
ODD = [
    {1, 2}, frozenset(), b"bytes", bytearray(b"x"), decimal.Decimal("1.50"), 1j, datetime.timedelta(hours=1), range(3), "\ud800", "a\udfffb",
    float("nan"), float("inf"), {(1, 2): 3}, {"x": {"\udc00": 1}}, [[{"y": {7}}]], {b"k": 1}, object, len, ["ok", "\ud801"],
]
PLACE = [
    lambda v: {"v": v},
    lambda v: {"v": [1, v, "z"]},
    lambda v: {"v": {"in": v}, "w": None},
    lambda v: {1: 2, "v": v},
    lambda v: {"v": v, "w": {5: v}},
    lambda v: {"big": 2**64, "v": v},
]


@PROP.test(
    st.fixed_dictionaries(
        {
            "format": st.sampled_from(["jsonl", "jsonl", "zstd", "flat"]),
            "rows": sized_list(
                weighted(2, st.fixed_dictionaries({"n": st.integers(0, 99)}),
                         1, st.tuples(st.integers(0, len(ODD) - 1), st.integers(0, len(PLACE) - 1))),
                (2, 3, 5, 9),
            ),
            "blob_size": st.sampled_from([1, 40, 10_000_000]),
            "kind": st.sampled_from(["batch", "simple"]),
        }
    ),
    quick=600,
    thorough=20000,
)
def odd_records(case, ctx):
    """a record which can't be stored is refused, and costs no other record; if it is taken it is read back"""
    dataset = ctx.fresh() + "/ds"
    writer = (BatchWriter if case["kind"] == "batch" else Writer)(
        inner_writer=DiskWriter, dataset=dataset, date="2021-05-30", format=case["format"], schema=False, blob_size=case["blob_size"]
    )
    taken, odd = [], 0
    for row in case["rows"]:
        if isinstance(row, dict):
            writer.append(dict(row))
            taken.append(row)
            continue
        value = ODD[row[0]]
        record = PLACE[row[1]](value)
        try:
            writer.append(record)
        except Exception:
            odd += 1
            continue
        if isinstance(value, float) and case["format"] != "flat":
            taken.append(as_stored(record))
        elif case["format"] == "flat" and isinstance(value, float):
            taken.append(None)
        else:
            raise Violation(f"a record which {case['format']} can't hold was accepted: {record!r}")
    writer.finalize()
    got = read(dataset, on="2021-05-30")
    if None in taken:
        # names of flattened fields are not the subject here
        check(len(got) == len(taken), f"{len(taken)} records were taken, {len(got)} read", got)
        got, taken = [r for r in got if "n" in r], [r for r in taken if r and "n" in r]
    expect_rows(got, taken, "the records which were taken", ordered=len(data_blobs(dataset)) <= 1)
    if odd and taken:
        ctx.nt(case["format"])


@PROP.test(st.nothing(), quick=0)
def wide_integers(case, ctx):
    """integers of more than 64 bits"""
    dataset = ctx.fresh() + "/ds"
    writer = BatchWriter(inner_writer=DiskWriter, dataset=dataset, date="2021-05-30", format="jsonl", schema=False)
    for row in case:
        writer.append(dict(row))
    writer.finalize()
    expect_rows(read(dataset, on="2021-05-30"), case, "records with integers of more than 64 bits")


PROP.known("wide-integers", "wide_integers", [{"n": 2**70 + 1}])


@PROP.test(
    st.fixed_dictionaries(
        {"format": st.sampled_from(["parquet", "parquet", "default"]), "table": typed_table(max_rows=20), "persist": st.just(None), **COMMON}
    ),
    quick=800,
    thorough=20000,
)
def parquet(case, ctx):
    root = ctx.fresh()
    columns, rows = case["table"]
    # without a format, the writers choose: whatever it is, it can be read
    named = {} if case["format"] == "default" else {"format": "parquet"}
    dataset = write(case, root, rows, schema=schema_for(columns), **named)
    compare(case, ctx, root, rows, retrieve(case, dataset))
    if named or all(blob.endswith(".parquet") for blob in data_blobs(root)):
        bounded_tables(case, root, columns)


@PROP.test(
    st.fixed_dictionaries(
        {
            "format": st.sampled_from(["jsonl", "zstd"]),
            "table": typed_table(max_rows=20, types=("VARCHAR", "INTEGER", "DOUBLE", "BOOLEAN", "ARRAY")),
            **COMMON,
        }
    ),
    quick=800,
    thorough=20000,
)
def json_lines_with_schema(case, ctx):
    root = ctx.fresh()
    columns, rows = case["table"]
    dataset = write(case, root, rows, format=case["format"], schema=schema_for(columns))
    compare(case, ctx, root, rows, retrieve(case, dataset))


@PROP.test(
    st.fixed_dictionaries(
        {
            "format": st.just("text"),
            "rows": sized_list(
                st.one_of(TEXT.map(lambda t: t.replace("\n", "")), st.binary(max_size=12).map(lambda b: b.replace(b"\n", b"")),
                          st.integers()),
                (0, 1, 2, 3, 8, 20),
            ),
            **COMMON,
        }
    ),
    quick=800,
    thorough=20000,
)
def text_lines(case, ctx):
    """Text blobs are read as blocks; their lines are the lines written."""
    root = ctx.fresh()
    rows = case["rows"]
    dataset = write(case, root, rows, format="text", schema=False)
    lines = [r if isinstance(r, bytes) else str(r).encode() for r in rows]
    got = []
    for block in retrieve(case, dataset):
        check(isinstance(block, bytes) and block.endswith(b"\n"), "a text blob ends with a line feed", block)
        got += block[:-1].split(b"\n")
    compare(case, ctx, root, lines, got)
    bounded(case, root)


@PROP.test(
    st.fixed_dictionaries(
        {
            "format": st.sampled_from(["jsonl", "zstd", "flat", "parquet"]),
            # how many records, and how long the text is in them
            "size": st.sampled_from([(3, 65_500), (9, 65_530), (4, 70_000), (40, 70_000), (3, 1_100_000), (1200, 300), (5000, 8), (12_000, 0)]),
            **COMMON,
            "blob_size": st.sampled_from([10_000, 65_536, 1_000_000, 2**24, 2**30]),
        }
    ),
    quick=60,
    thorough=1500,
)
def sizes(case, ctx):
    """long records, and many of them"""
    root = ctx.fresh()
    count, width = case["size"]
    if case["blob_size"] < 20_000 and count * (width + 40) > 2_000_000 or case["format"] == "parquet" and count > 1200:
        return
    rows = bulk(count, width=width)
    columns = [("n", "INTEGER", False), ("k", "VARCHAR", False), ("v", "INTEGER", True), ("t", "VARCHAR", True)]
    dataset = write(case, root, rows, format=case["format"], schema=schema_for(columns))
    got = retrieve(case, dataset)
    if got != rows:
        check(len(got) == len(rows), f"{len(rows)} records were written, {len(got)} were read")
        got, expected = zip(*[(g, r) for g, r in zip(sorted(got, key=lambda r: r["n"]), rows) if g != r][:3] or [((), ())])
        expect_rows(list(got), list(expected), f"{case['format']}, records of {width} characters")
    ctx.nt(case["format"])


PROP.regress(
    "sizes",
    *[
        {
            "format": fmt, "size": (70, 1_000_000), "scheme": 0, "date": datetime.date(2021, 5, 30), "date_as": "date", "blob_size": 2**30, "writer": "batch", "writers": 1, "dataset": "ds",
        }
        for fmt in ("jsonl", "zstd")
    ],
)
