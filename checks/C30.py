"""C30 - reading with several processes gives the records reading with one gives, and always ends."""
import datetime
import gc
import json
import multiprocessing
import time

from domain import JSON_RECORD, sized_list, weighted
from harness import Property, check, diff_multiset, short
from store import put
from vhyp import st

from mabel import Reader
from mabel.adapters.disk import DiskReader
from mabel.utils.dates import parse_iso

PROP = Property(
    "C30",
    rule="a case is five blobs of nested JSON records or more (some empty), in several formats, in one folder, in the folders of "
    "two days, or in frames below the hours of them, a select and a filter, "
    "and a consumer which takes all of the records, pauses once, or stops early; what comes back is compared, as a "
    "multiset, with what was written; non-trivial = five blobs or more with records, so that processes are used",
    assumptions=[
        "records come in any order; dates and bytes arrive as text when there are several processes",
        "processes are scheduled by the system: interleavings are sampled, not enumerated",
    ],
)

FILTERS = [(None, lambda r: True), ("k > 2", lambda r: r["k"] > 2), ([("k", "<", 4)], lambda r: r["k"] < 4)]
CASE = st.tuples(
    st.lists(sized_list(JSON_RECORD, (0, 1, 1, 2, 3)), min_size=5, max_size=16),
    st.sampled_from(["jsonl", "zstd", "mixed", "bare", "parquet"]),
    st.integers(0, len(FILTERS) - 1),
    st.booleans(),
    weighted(4, st.just(None), 1, st.sampled_from([("pause", 1.6), ("pause", 2.5)]), 2, st.tuples(st.just("stop"), st.integers(1, 6))),
    st.sampled_from(["flat", "flat", "days", "frames"]),
)
DAYS = [datetime.date(2021, 2, 28), datetime.date(2021, 3, 1)]


def no_children(since):
    """the processes are gone"""
    for _ in range(100):
        if not [p for p in multiprocessing.active_children() if p not in since]:
            return True
        time.sleep(0.05)
    return False


def nested_text(record):
    return json.dumps(record, sort_keys=True, default=str)


def typed(serial, there):
    return {
        "k": serial % 7,
        "serial": serial,
        "a": "caf\u00e9\n" * there,
        "when": datetime.datetime(2020, 2, 28, 23, 59, 58) + datetime.timedelta(seconds=serial) if there else None,
        "day": datetime.date(2019, 12, 31) + datetime.timedelta(days=serial),
        "x": serial / 8,
        "ok": bool(serial % 2),
        "items": [serial, None] * there,
        "raw": b"caf" if there else None,
    }


def parquet(rows):
    import pyarrow
    import pyarrow.parquet

    sink = pyarrow.BufferOutputStream()
    pyarrow.parquet.write_table(pyarrow.Table.from_pylist(rows, schema=pyarrow.schema([
        ("k", pyarrow.int64()), ("serial", pyarrow.int64()), ("a", pyarrow.string()), ("when", pyarrow.timestamp("us")), ("day", pyarrow.date32()),
        ("x", pyarrow.float64()), ("ok", pyarrow.bool_()), ("items", pyarrow.list_(pyarrow.int64())), ("raw", pyarrow.binary()),
    ])), sink)
    return sink.getvalue().to_pybytes()


def understood(row):
    """dates and bytes arrive as text"""
    if row.get("when") is not None:
        row["when"] = parse_iso(row["when"])
    if row.get("day") is not None:
        row["day"] = parse_iso(row["day"]).date()
    if row.get("raw") is not None:
        row["raw"] = row["raw"].encode()
    return row


@PROP.test(CASE, quick=72, thorough=3000, cpu_limit=15)
def same_records(case, ctx):
    import zstandard

    blobs, fmt, which, select, consumer, layout = case
    root = ctx.fresh()
    stored = []
    serial = 0
    bare = fmt == "bare"
    for number, rows in enumerate(blobs):
        folder = f"{root}/d"
        if layout != "flat":
            day = DAYS[number % 2]
            folder += f"/year_{day:%Y}/month_{day:%m}/day_{day:%d}"
        if layout == "frames":
            folder += f"/by_hour/hour={number % 3:02d}/as_at_20220101-000000"
            put(f"{folder}/frame.complete", b"")
        lines = []
        for row in rows:
            row = dict(row) if bare else {**row, "k": serial % 7, "serial": serial}
            if fmt == "parquet":
                row = typed(serial, len(row) % 2)
            serial += 1
            stored.append(row)
            lines.append(json.dumps(row, default=str).encode() + b"\n")
        data = b"".join(lines)
        if fmt == "parquet":
            put(f"{folder}/b{number:03d}.parquet", parquet(stored[len(stored) - len(rows):]))
        elif fmt == "zstd" or (fmt == "mixed" and number % 2):
            put(f"{folder}/b{number:03d}.zstd", zstandard.compress(data))
        else:
            put(f"{folder}/b{number:03d}.jsonl", data)
    text, holds = FILTERS[0 if bare else which]
    select = select and not bare
    expected = [r for r in stored if holds(r)]
    options = {"select": "serial, k, a"} if select else {}
    if layout == "flat":
        options["partitions"] = None
    else:
        options["start_date"], options["end_date"] = DAYS
    if select:
        expected = [{"serial": r["serial"], "k": r["k"], "a": r.get("a")} for r in expected]
    before = multiprocessing.active_children()
    reader = iter(Reader(dataset=f"{root}/d", inner_reader=DiskReader, multiprocess=True, filters=text, **options))
    got = []
    for row in reader:
        got.append(understood(dict(row)) if fmt == "parquet" else dict(row))
        if len(got) == 1 and consumer and consumer[0] == "pause":
            time.sleep(consumer[1])
        if consumer and consumer[0] == "stop" and len(got) >= consumer[1]:
            break
    if consumer and consumer[0] == "stop" and bare:
        check(all(any(nested_text(r) == nested_text(row) for r in expected) for row in got), "a record which is not stored", short(got))
    elif consumer and consumer[0] == "stop":
        known = {r["serial"]: r for r in expected}
        for row in got:
            check(row.get("serial") in known and nested_text(known[row["serial"]]) == nested_text(row), "a record which is not stored", short(row))
    if consumer and consumer[0] == "stop":
        # taking the rest of the records is given up
        del reader
        gc.collect()
        check(no_children(before), "processes are left over")
    else:
        difference = diff_multiset(got, expected)
        check(not difference, f"{len(got)} records came back of {len(expected)}", short(difference))
        check(no_children(before), "processes are left over")
    if len(blobs) > 4 and got:
        ctx.nt(fmt, layout, "all" if not consumer else consumer[0])


PROP.regress("same_records", ([[{"a": None, "b": [1, None], "c": {"d": {}}}]] * 9, "jsonl", 0, False, ("pause", 2.5), "flat"), ([[{}], [{}], [], [], [{}], [{}]], "jsonl", 0, False, ("stop", 1), "frames"))
