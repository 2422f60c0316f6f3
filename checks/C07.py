"""C07 - by_ partitionings: one copy is read, every sub-folder from its own newest frame."""
import datetime

import orjson

from domain import sized_list, weighted
from harness import Property, check, diff_multiset, expect_rows, short
from store import put, read
from vhyp import st

from mabel.adapters.disk import DiskReader
from mabel.data import Reader

PROP = Property(
    "C07",
    rule="a case is a layout on disk: per date, either no partitioning or one or two by_ partitionings (copies of the "
    "data), each with sub-folders whose names are prefixes of each other, each sub-folder with up to three frames "
    "(complete, incomplete, ignored) or no frames, and optionally a partition_filter; the read is compared with a "
    "model; non-trivial = two or more sub-folders, at least one of which has a frame that must not be read",
    assumptions=[
        "which of several by_ partitionings is read is not specified, only that it is exactly one of them",
        "partition_filter is a hint: for a field which is not a partitioning the whole date is read",
    ],
)

BASE = datetime.date(2022, 2, 27)
AS_AT = ["as_at_20220301-000000", "as_at_20220301-000001", "as_at_20220302-120000", "as_at_20211231-235959"]
FRAME = st.tuples(
    st.sampled_from(AS_AT),
    st.sampled_from(["complete", "complete", "incomplete", "ignored", "ignored incomplete"]),
    st.integers(0, 3),  # blobs
)
FRAMES = st.lists(FRAME, max_size=3, unique_by=lambda f: f[0])
FOLDER_VALUES = ["1", "12", "123", "2", "21", "a", "ab", "b", "a b", " a", "1 "]
# folders are named with the letters, digits and blanks of a value: these are in one of those above
RAW_VALUES = FOLDER_VALUES + ["a-b", "1.2", "a!", "[b]", "a_ b"]
SUBFOLDERS = st.dictionaries(
    st.sampled_from(FOLDER_VALUES), weighted(4, FRAMES, 1, st.integers(1, 2)), min_size=1, max_size=4
)
FIELDS = ["userid", "user", "hour", "id", "userId", "Region"]
DAY = st.one_of(
    st.tuples(st.just("by"), st.dictionaries(st.sampled_from(FIELDS), SUBFOLDERS, min_size=1, max_size=2)),
    st.tuples(st.just("by"), st.dictionaries(st.sampled_from(FIELDS), SUBFOLDERS, min_size=1, max_size=1)),
    st.tuples(st.just("plain"), st.one_of(FRAMES, st.integers(1, 2))),
)


def materialise(folder, content, serial):
    """write one folder (frames, or a number of loose blobs); returns the rows a reader must see"""
    if isinstance(content, int):
        rows = []
        for b in range(content):
            serial[0] += 1
            put(f"{folder}/b{b}.jsonl", orjson.dumps({"n": serial[0]}) + b"\n")
            rows.append({"n": serial[0]})
        return rows, 0
    visible, hidden = {}, 0
    for as_at, state, blobs in content:
        rows = []
        for b in range(blobs):
            serial[0] += 1
            put(f"{folder}/{as_at}/b{b}.jsonl", orjson.dumps({"n": serial[0]}) + b"\n")
            rows.append({"n": serial[0]})
        if "incomplete" not in state:
            put(f"{folder}/{as_at}/frame.complete")
        if "ignored" in state:
            put(f"{folder}/{as_at}/frame.ignore")
        if state == "complete":
            visible[as_at] = rows
        elif rows:
            hidden += 1
    hidden += max(len(visible) - 1, 0)
    return (visible[max(visible)] if visible else []), hidden


@PROP.test(
    st.fixed_dictionaries(
        {
            "days": st.lists(DAY, min_size=1, max_size=2),
            "filter": st.one_of(
                st.none(), st.none(),
                st.tuples(st.sampled_from(FIELDS), st.sampled_from(["=", "=="]), st.sampled_from(RAW_VALUES)),
            ),
            "backout": st.booleans(),
        }
    ),
    quick=2400,
    thorough=80000,
)
def layout(case, ctx):
    root = ctx.fresh()
    serial = [0]
    alternatives = []  # per day: the acceptable results
    folders = hidden_frames = 0
    for i, (kind, content) in enumerate(case["days"]):
        day = BASE + datetime.timedelta(days=i)
        base = f"{root}/ds/year_{day:%Y}/month_{day:%m}/day_{day:%d}"
        if kind == "plain":
            rows, hidden = materialise(base, content, serial)
            alternatives.append([rows])
            hidden_frames += hidden
            continue
        copies = {}
        for field, subfolders in content.items():
            copies[field] = {}
            for value, frames in subfolders.items():
                folder = f"{base}/by_{field}/{field}={value}"
                copies[field][value], hidden = materialise(folder, frames, serial)
                hidden_frames += hidden
                folders += 1
                if case["backout"]:
                    put(f"{folder}/BACKOUT/as_at_20990101-000000/b.jsonl", b'{"n": -1}\n')
        wanted = case["filter"]
        # a partitioning exists for the reader when there is any blob in it
        existing = {f for f in copies if any(_has_files(content[f][v]) for v in content[f])}
        if wanted and wanted[0] in existing:
            alternatives.append([copies[wanted[0]].get("".join(c for c in wanted[2] if c.isalnum() or c == " "), [])])
        elif existing:
            alternatives.append([[r for rows in copies[f].values() for r in rows] for f in sorted(existing)])
        else:
            alternatives.append([[]])
    kwargs = {"partition_filter": case["filter"]} if case["filter"] else {}
    got = read(
        f"{root}/ds", start_date=BASE.isoformat(),
        end_date=(BASE + datetime.timedelta(days=len(case["days"]) - 1)).isoformat(), **kwargs,
    )
    options = [[]]
    for choices in alternatives:
        options = [o + c for o in options for c in choices]
    if not any(diff_multiset(got, option) is None for option in options):
        check(False, f"read with filter {case['filter']}", f"got={short(got)}", f"acceptable={short(options)}")
    if folders > 1 and hidden_frames:
        ctx.nt("filtered" if case["filter"] else "unfiltered")
    if any(len(a) > 1 for a in alternatives):
        ctx.label("two partitionings")


def _has_files(content):
    if isinstance(content, int):
        return content > 0
    return any(blobs or state != "incomplete" for _, state, blobs in content)


@PROP.test(
    st.tuples(st.sampled_from(["!=", "<", "in", "like", "<>"]), st.sampled_from(FOLDER_VALUES)), quick=24, thorough=40
)
def filter_operator(case, ctx):
    """Only equality can be hinted, other operators are refused rather than misread."""
    root = ctx.fresh()
    materialise(f"{root}/ds/year_2022/month_02/day_27/by_id/id=1", 1, [0])
    try:
        list(Reader(dataset=f"{root}/ds", inner_reader=DiskReader, start_date="2022-02-27", end_date="2022-02-27",
                    partition_filter=("id", *case)))
        refused = False
    except NotImplementedError:
        refused = True
    check(refused, "an unsupported partition_filter operator was accepted", case)
    ctx.nt()


@PROP.test(
    st.fixed_dictionaries(
        {
            "field": st.sampled_from(FIELDS),
            "folders": st.sampled_from([9, 10, 25, 60, 130]),
            # the frames of the folders, one after the other
            "frames": st.lists(FRAMES, min_size=1, max_size=5),
            "filter": st.one_of(st.none(), st.integers(0, 129)),
        }
    ),
    quick=50,
    thorough=1500,
)
def many(case, ctx):
    """as many folders as there are values"""
    root, serial, expected, every = ctx.fresh(), [0], {}, []
    for i in range(case["folders"]):
        folder = f"{root}/ds/year_2022/month_02/day_27/by_{case['field']}/{case['field']}={i}"
        expected[i], _ = materialise(folder, case["frames"][i % len(case["frames"])], serial)
        every += expected[i]
    kwargs = {}
    if case["filter"] is not None and serial[0]:
        kwargs["partition_filter"] = (case["field"], "=", str(case["filter"]))
        every = expected.get(case["filter"], [])
    got = read(f"{root}/ds", on="2022-02-27", **kwargs)
    expect_rows(got, every, f"{case['folders']} folders", ordered=False)
    if len(every) > 1:
        ctx.nt()


PROP.regress(
    "many",
    *[
        {"field": "userid", "folders": 130, "frames": [[(AS_AT[0], "complete", 1)], [(AS_AT[0], "complete", 1), (AS_AT[2], "incomplete", 2)]], "filter": f}
        for f in (None, 1, 129)
    ],
)
