"""C08 - a read interrupted anywhere and resumed from its cursor returns everything exactly once."""
import lzma

import orjson
import zstandard

from domain import bulk, sized_list, weighted
from harness import Property, Violation, expect_rows, short
from store import put
from vhyp import st

from mabel.adapters.disk import DiskReader
from mabel.data import Reader

PROP = Property(
    "C08",
    rule="a case is a dataset of several blobs (formats, sizes and empty blobs mixed, control files in between, in one folder or spread over days), a filter "
    "or select, and a list of interruptions: how many records are read before the reader is dropped, the form the "
    "cursor is carried in (object, dict, JSON text) and how many blobs have arrived in the meantime; non-trivial = an "
    "interruption inside a blob that is not the first, or blobs arrived between two reads",
    assumptions=[
        "apart from new blobs whose names sort after the existing ones, the dataset does not change between the reads",
        "all reads use the same filter and select",
    ],
)

FILTERS = [
    (None, lambda r: True),
    ("n != 3", lambda r: r["n"] != 3),
    ("even == true", lambda r: r["n"] % 2 == 0),
    ([("n", ">", 4)], lambda r: r["n"] > 4),
    ([[("n", "<", 2)], [("n", ">", 6)]], lambda r: r["n"] < 2 or r["n"] > 6),
]
SELECTS = [("*", None), ("n, even", ("n", "even")), ("n, even, pad", ("n", "even", "pad"))]


def encode(ext, rows):
    lines = b"".join(orjson.dumps(r) + b"\n" for r in rows)
    if ext == "jsonl":
        return lines
    if ext == "zstd":
        return zstandard.compress(lines)
    return lzma.compress(lines)


BLOB = st.tuples(st.sampled_from(["jsonl", "jsonl", "zstd", "lzma"]), st.sampled_from([0, 1, 1, 2, 3, 5, 9]))
STOP = st.tuples(
    st.one_of(st.integers(0, 12), st.integers(0, 12), st.integers(0, 60)),
    st.sampled_from(["object", "dict", "dict", "json", "json"]),
    st.sampled_from([0, 0, 0, 1, 2]),
)
CASES = st.fixed_dictionaries(
    {
        "blobs": sized_list(BLOB, (1, 2, 3, 5, 7, 8, 9, 15, 16, 17)),
        "stops": st.lists(STOP, min_size=1, max_size=6),
        "filter": st.integers(0, len(FILTERS) - 1),
        "select": st.integers(0, len(SELECTS) - 1),
        "noise": st.sampled_from([(), ("b0000a.idx",), ("frame.manifest", "zz.xyz")]),
        "framed": st.booleans(),
        # the blobs a day holds, all the same names day after day; none: without days
        "days": weighted(1, st.just(()), 1, st.lists(st.sampled_from([1, 1, 2, 3, 8]), min_size=1, max_size=5).map(tuple)),
    }
)


def resume_form(cursor, form):
    if cursor is None:
        return None
    if form == "object":
        return cursor
    if form == "dict":
        return dict(cursor.get())
    return str(cursor)


@PROP.test(CASES, quick=2400)
def resume(case, ctx):
    root = ctx.fresh()
    days = case.get("days", ())

    def place(index):
        """the folder and the number within it of the blob of this index"""
        day = 0
        while day < len(days) and index >= days[day]:
            index -= days[day]
            day += 1
        folder = f"{root}/2021-01/{day + 1:02d}" if days else root
        return f"{folder}/as_at_20220101-000000" if case["framed"] else folder, index

    folders = {place(i)[0] for i in range(sum(days) + 1)}
    for folder in folders:
        if case["framed"]:
            put(f"{folder}/frame.complete")
        for name in case["noise"]:
            put(f"{folder}/{name}", b"")
    serial = 0
    blobs = []

    def arrive(blob):
        nonlocal serial
        ext, count = blob
        rows = [{"n": serial + i, "even": (serial + i) % 2 == 0, "pad": "x" * i} for i in range(count)]
        serial += count
        folder, index = place(len(blobs))
        put(f"{folder}/b{index:04d}.{ext}", encode(ext, rows))
        blobs.append(rows)

    for blob in case["blobs"]:
        arrive(blob)
    filters, keep = FILTERS[case["filter"]]
    select, fields = SELECTS[case["select"]]

    def reader(cursor):
        args = {"cursor": cursor} if cursor is not None else {}
        if filters is not None:
            args["filters"] = filters
        if days:
            args.update(start_date="2021-01-01", end_date="2021-01-08", partitions=["{yyyy}-{mm}", "{dd}"])
        else:
            args["partitions"] = None
        return Reader(dataset=root, inner_reader=DiskReader, select=select, **args)

    got, cursor = [], None
    arrived_between = False
    inside = False
    for amount, form, arrivals in case["stops"]:
        if form == "object" and arrived_between:
            form = "dict"
        this = reader(resume_form(cursor, form))
        taken = 0
        while taken < amount:
            record = next(this, None)
            if record is None:
                break
            got.append(dict(record) if isinstance(record, dict) else record.as_dict())
            taken += 1
        if taken:
            cursor = this.cursor
            inside = inside or (cursor["location"] >= 0 and int(cursor["map"] or "0", 16) != 0)
        elif amount:
            cursor = this.cursor or cursor
        for _ in range(arrivals):
            arrive(case["blobs"][0])
            arrived_between = True
    last = reader(resume_form(cursor, "dict"))
    rest = 0
    for record in last:
        got.append(dict(record) if isinstance(record, dict) else record.as_dict())
        rest += 1
    expected = [r for blob in blobs for r in blob if keep(r)]
    if fields:
        expected = [{f: r[f] for f in fields} for r in expected]
    expect_rows(got, expected, "the interrupted reads together did not return every record exactly once, in order")
    # the cursor of a finished read has nothing left
    end = resume_form(last.cursor, "json")
    again = [r for r in reader(end)]
    expect_rows(again, [], "a finished read's cursor returned more records")
    if inside or arrived_between:
        ctx.nt()
    if inside:
        ctx.label("inside a later blob")
    if arrived_between:
        ctx.label("blobs arrived")
    if rest == 0:
        ctx.label("last read empty")


PROP.regress(
    "resume",
    {"blobs": [("jsonl", 1)] * 8, "stops": [(3, "dict", 1)], "filter": 0, "select": 0, "noise": (), "framed": False},
)


@PROP.test(
    st.fixed_dictionaries(
        {
            # the records in each blob
            "blobs": st.sampled_from([[2500], [1, 5000, 3], [70_000, 2], [3] * 70, [2] * 130, [1] * 300, [0, 1] * 90]),
            "ext": st.sampled_from(["jsonl", "zstd", "lzma"]),
            # where the reads stop, in hundredths of what there is
            "stops": st.lists(st.integers(0, 100), min_size=1, max_size=4),
            "form": st.sampled_from(["dict", "json"]),
            # names of blobs which are alike for a long way: what tells them apart is in their folder, or first
            "names": st.sampled_from(["b{:05d}", "{:05d}" + "b" * 150, "f{:05d}/" + "b" * 150, "b" * 150 + "{:05d}"]),
        }
    ),
    quick=60,
    thorough=1500,
)
def sizes(case, ctx):
    """big blobs, many blobs, and blobs with long names"""
    root = ctx.fresh()
    rows = bulk(sum(case["blobs"]))
    at, firsts = 0, set()
    for i, count in enumerate(case["blobs"]):
        put(f"{root}/{case['names'].format(i)}.{case['ext']}", encode(case["ext"], rows[at : at + count]))
        firsts.add(at)
        at += count
    read, cursor = 0, None
    for stop in [*sorted(case["stops"]), None]:
        until = len(rows) if stop is None else len(rows) * stop // 100
        this = Reader(
            dataset=root, inner_reader=DiskReader, partitions=None,
            **({"cursor": resume_form(cursor, case["form"])} if cursor else {}),
        )
        while read < until or stop is None:
            record = next(this, None)
            if record is None:
                break
            if read >= len(rows) or record["n"] != read:
                expect_rows([dict(record)], rows[read : read + 1], f"record {read} after resuming with {short(str(cursor))}")
            read += 1
            last = this
        if read not in firsts and 0 < read < len(rows):
            ctx.nt()
        if read:
            cursor = last.cursor
    expect_rows([read], [len(rows)], "not every record was read")


PROP.regress(
    "sizes",
    {"blobs": [70_000, 2], "ext": "zstd", "stops": [30, 99], "form": "json", "names": "b{:05d}"},
    {"blobs": [1] * 300, "ext": "jsonl", "stops": [50, 99], "form": "dict", "names": "b{:05d}"},
    {"blobs": [3] * 70, "ext": "jsonl", "stops": [50, 98, 99], "form": "dict", "names": "b{:05d}"},
    {"blobs": [3] * 70, "ext": "jsonl", "stops": [50], "form": "json", "names": "f{:05d}/" + "b" * 150},
    {"blobs": [3] * 70, "ext": "jsonl", "stops": [50], "form": "json", "names": "b" * 150 + "{:05d}"},
)


@PROP.test(
    st.fixed_dictionaries(
        {
            "blobs": st.lists(st.integers(0, 4), min_size=1, max_size=10),
            "taken": st.integers(1, 12),
            "damage": st.one_of(st.sampled_from(["location", "map", "partition"]).map(lambda k: ("without", k)), st.floats(0.01, 0.99).map(lambda f: ("cut", f)), st.just(("odd", 0)), st.just(("not hex", 0))),
            "form": st.sampled_from(["dict", "json"]),
        }
    ),
    quick=150,
    thorough=5000,
)
def damaged(case, ctx):
    """a cursor which is not whole is refused, not read from"""
    root = ctx.fresh()
    serial = 0
    for index, count in enumerate(case["blobs"]):
        put(f"{root}/b{index:04d}.jsonl", b"".join(orjson.dumps({"n": serial + i}) + b"\n" for i in range(count)))
        serial += count
    options = {"inner_reader": DiskReader, "dataset": root, "partitions": None}
    first = Reader(**options)
    taken = [r for _, r in zip(range(case["taken"]), iter(first))]
    if not taken:
        return
    cursor = dict(first.cursor.get())
    kind, detail = case["damage"]
    form = case["form"]
    if kind == "without":
        del cursor[detail]
    elif kind == "odd":
        cursor["map"] += "0"
    elif kind == "not hex":
        cursor["map"] = "xy"
    else:
        form = "cut"
    text = orjson.dumps(cursor).decode()
    if form == "cut":
        text = text[: max(1, int(len(text) * detail))]
    given = cursor if form == "dict" else text
    try:
        got = list(Reader(**options, cursor=given))
    except Exception:
        ctx.nt(kind)
        return
    raise Violation(f"reading went on from {given!r}, giving {short(got)}")
