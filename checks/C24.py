"""C24 - records are kept in, and read from, the folder of their dataset and date, and no other."""
import contextlib
import datetime
import os
import re

from domain import weighted
from harness import Property, check, frozen, short
from store import files_under
from vhyp import st

from mabel import Reader
from mabel.adapters.disk import DiskReader, DiskWriter
from mabel.data import BatchWriter, StreamWriter, Writer
from mabel.errors import DataNotFoundError, InvalidDataSetError
from mabel.utils import paths

PROP = Property(
    "C24",
    rule="a case is up to four datasets (names which start alike, hold dots, nested folders, absolute), each with its own "
    "partition templates, date and kind of writer; the files are looked up on disk and every dataset is read for its own "
    "and for other dates; non-trivial = two datasets or more which hold records, or a name with a dot",
    assumptions=[
        "no dataset is a folder of another one; templates tell nothing below the hour when they are read",
        "records of a dataset which is a single name without partitions are kept in the folder 'partitions' below it",
    ],
)

NAME = st.sampled_from(["data", "data.v1", "data.v10", "data1", "b/x", "b/x1", "b/x.1", "b/x.1.jsonl", "b/v1.0", "b/v1.1", "b/c.d/x", "b/c.e/x", "b/c.d/x.parquet", "logs-2021.02.03/a b", "u_n/k=v", "b/xx/frame", "b/a/B", "b/a/b", "prices_as_at_close", "as_at_close", "b/as_at_close/x", "by_region", "b/by_region/x", "b/by_place", "b/standby_x", "development/pm", "b/shipments", "mmdd", "b/HH.MM", "amSSpm/yyyy", "b/{d}{y}", "b/{hh}.{Mm}", "b/{date}", "b/{stems}"])
TEMPLATE = st.sampled_from(
    [
        None,
        ["year_{yyyy}/month_{mm}/day_{dd}"],
        ["{yyyy}/{mm}/{dd}"],
        ["{yyyy}-{mm}-{dd}"],
        ["{yyyy}.{mm}.{dd}"],
        ["{yyyy}/{mm}", "{dd}/{HH}"],
        ["{yyyy}{mm}{dd}T{HH}"],
        ["region.a", "{dd}.{mm}.{yyyy}"],
        ["year_{yyyy}/month_{mm}/day_{dd}", "hour={HH}"],
        ["fixed"],
    ]
)
MOMENT = st.one_of(
    st.datetimes(datetime.datetime(1990, 1, 1), datetime.datetime(2035, 12, 31)),
    st.sampled_from([datetime.datetime(2021, 1, 1), datetime.datetime(2020, 12, 31, 23, 59), datetime.datetime(2021, 2, 3, 4, 5), datetime.datetime(2021, 3, 2, 4, 5)]),
).map(lambda d: d.replace(microsecond=0, fold=0))
KINDS = ["writer", "batch", "stream"]


def filled(template, moment):
    values = {"yyyy": "%Y", "mm": "%m", "dd": "%d", "HH": "%H", "MM": "%M", "SS": "%S"}
    return re.sub(r"\{(yyyy|mm|dd|HH|MM|SS)\}", lambda m: moment.strftime(values[m.group(1)]), template)


@st.composite
def layouts(draw):
    names = draw(st.lists(NAME, min_size=1, max_size=4, unique=True))
    sets = []
    for name in names:
        sets.append(
            {
                "name": name,
                "absolute": draw(st.integers(0, 5)) == 0,
                "template": draw(TEMPLATE),
                "moment": draw(MOMENT),
                "given": draw(st.sampled_from(["datetime", "text", "date"])),
                "kind": draw(st.sampled_from(KINDS)),
                "count": draw(st.integers(0, 3)),
            }
        )
        if "{" in name and sets[-1]["kind"] == "stream":
            sets[-1]["kind"] = "batch"  # streams fill in the fields of their records
    return sets, draw(st.sampled_from([1, -1, 24, -24, 24 * 31, 24 * 366, 13]))


def write(item, index, root):
    moment = item["moment"]
    date = {"datetime": moment, "text": moment.strftime("%Y-%m-%d %H:%M:%S"), "date": moment.date()}[item["given"]]
    dataset = f"{root}/{item['name']}" if item["absolute"] else item["name"]
    options = {"dataset": dataset, "partitions": item["template"], "inner_writer": DiskWriter, "format": "jsonl", "schema": False}
    if item["kind"] == "stream":
        date = str(date)[:19]
    maker = {"writer": Writer, "batch": BatchWriter, "stream": StreamWriter}[item["kind"]]
    writer = maker(date=date, **options)
    rows = [{"set": index, "row": i} for i in range(item["count"])]
    for row in rows:
        writer.append(dict(row))
    writer.finalize()
    return dataset, rows


def rows_of(dataset, template, moment):
    try:
        return [dict(r) for r in Reader(dataset=dataset, partitions=template, inner_reader=DiskReader, start_date=moment, end_date=moment)]
    except DataNotFoundError:
        return []


@PROP.test(layouts(), quick=700, thorough=30000)
def kept(case, ctx):
    sets, shift = case
    root = os.path.abspath(ctx.fresh())
    before = os.getcwd()
    os.chdir(root)
    try:
        written = []
        seen = set()
        for index, item in enumerate(sets):
            moment = item["moment"]
            if item["given"] == "date":
                moment = moment.replace(hour=0, minute=0, second=0)
            dataset, rows = write(item, index, root)
            written.append((item, dataset, rows, moment))
            folder = item["name"]
            if item["template"]:
                folder += "/" + filled("/".join(item["template"]), moment)
            elif "/" not in folder and not item["absolute"] and item["kind"] != "batch":
                folder += "/partitions"
            fresh = {f for f in files_under(".")} - seen
            seen |= fresh
            data = [f for f in fresh if "frame.complete" not in f and "manifest" not in f]
            for file in fresh:
                at = os.path.dirname(os.path.relpath(file, "."))
                if item["kind"] == "batch":
                    check(re.fullmatch(r"as_at_\d{8}-\d{6}", os.path.basename(at)), f"{dataset} wrote", file)
                    at = os.path.dirname(at)
                check(at == folder, f"{item['kind']} to {dataset!r} with partitions {item['template']} for {moment} wrote to", repr(at), "not", repr(folder))
            check(bool(data) == bool(rows), f"{dataset!r}: {len(rows)} records, files", short(sorted(fresh)))
        for item, dataset, rows, moment in written:
            result = rows_of(dataset, item["template"], moment)
            check(result == rows, f"reading {dataset!r} with partitions {item['template']} for {moment} gave", short(result), "not", short(rows), "files", short(sorted(seen)))
            other = moment + datetime.timedelta(hours=shift)
            if item["template"]:
                there, here = filled("/".join(item["template"]), other), filled("/".join(item["template"]), moment)
                if there != here:
                    check(rows_of(dataset, item["template"], other) == [], f"reading {dataset!r} for {other} gave records of {moment}")
        if sum(bool(rows) for _, _, rows, _ in written) > 1:
            ctx.nt("several")
        if any("." in item["name"].split("/")[-1] and rows for item, _, rows, _ in written):
            ctx.nt("dot")
    finally:
        os.chdir(before)


PIECE = st.one_of(
    st.sampled_from(["{yyyy}", "{mm}", "{dd}", "{HH}", "{MM}", "{SS}"]),
    st.text(alphabet="abcXY0_=. -", min_size=1, max_size=4),
    st.sampled_from(["am", "pm", "development", "utc", "MMSS", "HH", "day", "mm}", "{dd", "z"]),
    st.sampled_from(["{user}", "{}", "{YYYY}", "{hh}", "yyyy", "mm", "/", "/"]),
)


@PROP.test(st.tuples(st.lists(PIECE, min_size=1, max_size=8).map("".join), st.one_of(MOMENT, MOMENT.map(lambda d: d.date()))), quick=3000, thorough=200000)
def templates(case, ctx):
    template, moment = case
    full = moment if isinstance(moment, datetime.datetime) else datetime.datetime(moment.year, moment.month, moment.day)
    expected = filled(template, full)
    result = paths.date_format(template, moment)
    check(result == expected, f"date_format({template!r}, {moment!r}) gave", repr(result), "not", repr(expected))
    if result != template:
        ctx.nt("filled")
    folder = "base/" + template + "/"
    check(paths.build_path(folder, moment) == filled(folder, full), f"build_path({folder!r}, {moment!r}) gave", repr(paths.build_path(folder, moment)))


STEP = st.sampled_from([1, 1, 59, 3600, 86400, 86400, 86400 * 31, 86400 * 366])


@PROP.test(st.tuples(MOMENT, st.lists(st.tuples(STEP, st.sampled_from(KINDS), TEMPLATE.filter(bool)), min_size=1, max_size=5)), quick=150, thorough=5000)
def today(case, ctx):
    """without a date, it is the time of the writer (for stream writers, of the record) which counts"""
    start, steps = case
    root = os.path.abspath(ctx.fresh())
    before = os.getcwd()
    os.chdir(root)
    clocks = contextlib.ExitStack()
    clock = clocks.enter_context(frozen(start, case))
    try:
        seen = set()
        moment = start
        streams = {}
        for index, (step, kind, template) in enumerate(steps):
            clock.tick(datetime.timedelta(seconds=step))
            moment += datetime.timedelta(seconds=step)
            text = "/".join(template)
            check(paths.date_format(text) == filled(text, moment), f"date_format({text!r}) at {moment} gave", paths.date_format(text))
            options = {"dataset": "b/x", "partitions": template, "inner_writer": DiskWriter, "format": "jsonl", "schema": False}
            if kind == "stream":
                # one which has been there for a while
                writer = streams.setdefault(text, None) or StreamWriter(idle_timeout_seconds=10**9, **options)
                streams[text] = writer
            else:
                writer = {"writer": Writer, "batch": BatchWriter}[kind](**options)
            writer.append({"n": index})
            writer.finalize()
            fresh = {f for f in files_under(".")} - seen
            seen |= fresh
            check(fresh, "nothing was written")
            folder = "b/x/" + filled(text, moment)
            if kind == "batch":
                folder += moment.strftime("/as_at_%Y%m%d-%H%M%S")
            for file in fresh:
                at = os.path.dirname(os.path.relpath(file, "."))
                check(at == folder, f"{kind} without a date, at {moment}, wrote to", repr(at), "not", repr(folder))
        if len(steps) > 1 and moment != start:
            ctx.nt()
    finally:
        clocks.close()
        os.chdir(before)


WORD = st.text(alphabet="abcXY01_=- ", min_size=1, max_size=5)
STEM = st.one_of(WORD, st.tuples(WORD, WORD).map(".".join))


@PROP.test(st.tuples(WORD, st.lists(STEM, min_size=0, max_size=4), STEM, st.sampled_from(["jsonl", "parquet", "zstd", "e", "complete"])), quick=2000, thorough=100000)
def parts(case, ctx):
    bucket, folders, stem, ext = case
    file = "/".join([bucket, *folders, f"{stem}.{ext}"])
    result = paths.get_parts(file)
    folder = "/".join(folders) + "/" if folders else "./"
    check(result == (bucket, folder, stem, "." + ext), f"get_parts({file!r}) gave", repr(result))
    if folders:
        folder = "/".join([bucket, *folders]) + "/"
        result = paths.get_parts(folder)
        check(result == (bucket, "/".join(folders) + "/", None, None), f"get_parts({folder!r}) gave", repr(result))
        ctx.nt()


BAD = st.tuples(st.sampled_from(["BACKOUT", "b/BACKOUT", "BACKOUT/x", "b/BACKOUTS/x", "xBACKOUT"]), st.sampled_from(KINDS))


@PROP.test(BAD, quick=30, thorough=60)
def reserved(case, ctx):
    """data in folders named BACKOUT is never read, so writers must not take it"""
    name, kind = case
    before = os.getcwd()
    os.chdir(ctx.fresh())
    item = {"name": name, "absolute": False, "template": ["{yyyy}"], "moment": datetime.datetime(2021, 2, 3), "given": "text", "kind": kind, "count": 1}
    try:
        write(item, 0, ".")
    except InvalidDataSetError:
        ctx.nt()
        return
    finally:
        os.chdir(before)
    check(False, f"{kind} accepted the dataset {name!r}")


def _layout(name, kind, template=None):
    return ([{"name": name, "absolute": False, "template": template, "moment": datetime.datetime(2021, 2, 3), "given": "text", "kind": kind, "count": 1}], 24)


PROP.regress("kept", _layout("prices_as_at_close", "writer", ["{yyyy}"]), _layout("b/as_at_close/x", "batch", ["{yyyy}"]), _layout("b/by_region/x", "batch", ["{yyyy}", "{dd}/{HH}"]), _layout("b/v1.0", "writer"), _layout("b/v1.0", "stream"), _layout("b/x", "writer", ["{yyyy}.{mm}.{dd}"]), _layout("b/x", "stream", ["{yyyy}.{mm}.{dd}"]))


@PROP.test(
    st.tuples(
        st.sampled_from(["{datefolders}", "/{datefolders}", "{datefolders_short}", "/{datefolders_short}", "raw", "RAW"]),
        st.sampled_from(["data", "b/x", "b/v1.0", "b/x{y}"]),
        MOMENT,
        st.sampled_from(["writer", "stream"]),
        st.sampled_from([None, ["year_{yyyy}/month_{mm}/day_{dd}"], ["fixed"]]),
    ),
    quick=60,
    thorough=1500,
)
def older_spellings(case, ctx):
    """the names and parameters partitions had before: they win over the partitions given"""
    spelling, name, moment, kind, given = case
    if "{" in name and kind == "stream":
        name = "b/x"
    template = {"s": ["year_{yyyy}/month_{mm}/day_{dd}"], "t": ["{yyyy}/{mm}/{dd}"], "w": None}[spelling.lower().strip("{}/")[-1]]
    options = {"raw_path": {"raw": True, "RAW": "true"}[spelling]} if template is None else {}
    root = os.path.abspath(ctx.fresh())
    writer = {"writer": Writer, "stream": StreamWriter}[kind](
        dataset=f"{root}/{name}" + ("" if options else spelling), partitions=given, inner_writer=DiskWriter, format="jsonl", schema=False, date=str(moment), **options
    )
    writer.append({"n": 1})
    writer.finalize()
    folders = {os.path.dirname(f).replace("//", "/") for f in files_under(root)}
    wanted = {os.path.normpath("/".join([root, name, *(filled(t, moment) for t in template or [])]))}
    check(folders == wanted, f"a {kind} for {name}{spelling} on {moment} wrote to", sorted(folders), "instead of", sorted(wanted))
    check(rows_of(f"{root}/{name}", template, moment) == [{"n": 1}], f"{name}{spelling} on {moment} is not read back")
    if given:
        ctx.nt(kind)
