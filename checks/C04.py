"""C04 - stream writing: every record reaches every partition it belongs to, once."""
import datetime
import threading
import time

import orjson

from domain import JSON, TEXT, sized_list, weighted
from harness import Property, check, expect_rows, frozen, short
from store import files_under, read
from vhyp import st

from mabel.adapters.disk import DiskWriter
from mabel.adapters.null import NullWriter
from mabel.data import StreamWriter
from mabel.data.writers.internals.writer_pool import WriterPool

PROP = Property(
    "C04",
    rule="a case is a dataset template with substitutions, a partition scheme and a history of appends (scalar, list "
    "and missing substitution values; clock moves; records failing the schema; idle waits so that the pool evicts; "
    "several appending threads), after which the folders on disk are compared with a model; non-trivial = at least "
    "two folders are expected, or a writer was evicted and re-opened",
    assumptions=[
        "a substitution list is not empty (a record with an empty list belongs to no folder)",
        "threads are scheduled by the OS: the concurrent test is a stress, not an enumeration of schedules",
    ],
)

DATE = "2021-05-30"
WORDS = ["alpha", "b", "C3", "d e", "x-1", "caf\u00e9", "../up", "", "None", "by", "a/b", "ab", "{k}", "7", "B", "Alpha", "c3"]


def clean(value):
    """the documented folder text of a substitution value: letters, digits and whitespace"""
    import string

    return "".join(c for c in str(value) if c in string.ascii_letters + string.digits + string.whitespace)


VALUE = st.one_of(
    st.sampled_from(WORDS),
    st.integers(-3, 12),
    st.none(),
    st.lists(st.one_of(st.sampled_from(WORDS), st.integers(0, 5)), min_size=1, max_size=3),
    # values which share their folder
    st.lists(st.sampled_from(["ab", "a-b", "a/b", "7", 7, "", "!", "b"]), min_size=2, max_size=4),
    # values which only look alike
    st.lists(st.sampled_from(["ab", "AB", "Ab", " ab", "ab ", "a b", "abab"]), min_size=2, max_size=4, unique=True),
)
FIELDS = ("k", "user", "user-id", "geo.x", "a b", "K", "_k", "\u00e9")
ROW = st.fixed_dictionaries({"pad": TEXT}, optional={"k": VALUE, "user": VALUE, "j": JSON, "user-id": VALUE, "geo.x": VALUE, "a b": VALUE, "K": VALUE, "_k": VALUE, "\u00e9": VALUE})
TEMPLATES = ["ds", "ds/{k}", "ds/{k}/{user}", "ds/x_{user}/mid/{k}", "ds/{k}/again/{k}", "ds/{user-id}/{geo.x}", "ds/{a b}", "ds/{K}/{k}", "ds/{_k}-{\u00e9}"]
SCHEMES = [None, ["year_{yyyy}/month_{mm}/day_{dd}"], ["{yyyy}/{mm}", "{dd}"], ["year_{yyyy}/month_{mm}/day_{dd}/by_hour/hour={HH}"]]


def fill_dates(text, moment):
    for mark, fmt in (("yyyy", "%Y"), ("mm", "%m"), ("dd", "%d"), ("HH", "%H"), ("MM", "%M"), ("SS", "%S")):
        text = text.replace("{" + mark + "}", moment.strftime(fmt))
    return text


def expected_folders(template, scheme, moment, row, backout=False):
    """the folders this record belongs to (on disk, `ds/a/` and `ds//a` are one: it gets the record for each)"""
    path = template + ("/" + "/".join(scheme) if scheme else "")
    path = fill_dates(path, moment)
    if backout:
        path += "/BACKOUT/"
    folders = {path}
    for key in FIELDS:
        if "{" + key + "}" in path:
            value = row.get(key)
            values = value if isinstance(value, list) else [value]
            folders = {f.replace("{" + key + "}", f"\x00{clean(v)}\x00") for f in folders for v in values}
    return ["/".join(p for p in f.split("/") if p) for f in {f.replace("\x00", "") for f in folders}]


def rows_in(root):
    """folder -> the records its blobs hold"""
    folders = {}
    for path in files_under(root):
        with open(path, "rb") as f:
            data = f.read()
        if path.endswith(".zstd"):
            import zstandard

            data = zstandard.decompress(data)
        rows = [orjson.loads(line) for line in data.split(b"\n")[:-1]]
        folders.setdefault(path.rsplit("/", 1)[0], []).extend(rows)
    return folders


def compare(root, expected):
    actual = rows_in(root)
    check(
        set(actual) == set(expected), "folders written", short(sorted(set(actual) ^ set(expected)))
    )
    for folder, rows in expected.items():
        expect_rows(actual[folder], rows, f"folder {folder}", ordered=False)


@PROP.test(
    st.fixed_dictionaries(
        {
            "template": st.sampled_from(TEMPLATES),
            "scheme": st.integers(0, len(SCHEMES) - 1),
            "rows": sized_list(ROW, (1, 2, 4, 8, 20)),
            "format": st.sampled_from(["jsonl", "zstd"]),
            "blob_size": st.sampled_from([1, 100, 10_000_000]),
            "capacity": st.sampled_from([1, 2, 100]),
        }
    ),
    quick=1600,
    thorough=50000,
)
def substitutions(case, ctx):
    root = ctx.fresh()
    moment = datetime.datetime.fromisoformat(DATE)
    writer = StreamWriter(
        inner_writer=DiskWriter, dataset=f"{root}/{case['template']}", partitions=SCHEMES[case["scheme"]],
        date=DATE, schema=False, format=case["format"], blob_size=case["blob_size"],
        writer_pool_capacity=case["capacity"],
    )
    try:
        expected = {}
        for i, row in enumerate(case["rows"]):
            row = {"n": i, **row}
            folders = expected_folders(f"{root}/{case['template']}", SCHEMES[case["scheme"]], moment, row)
            returned = writer.append(row)
            if "{" in case["template"]:
                check(returned == len(folders), f"append reported {returned} writes, the record has {len(folders)} folders", row)
            for folder in folders:
                expected.setdefault(folder, []).append(row)
        writer.finalize()
        compare(root, expected)
        if len(expected) > 1:
            ctx.nt(case["template"])
    finally:
        writer.run_pool_attendant = False


PROP.regress(
    "substitutions",
    {"template": "ds/{k}", "scheme": 0, "rows": [{"pad": "", "k": ["a-b", "ab"]}], "format": "jsonl", "blob_size": 100,
     "capacity": 1},
    {"template": "ds/{k}/{user}", "scheme": 1, "rows": [{"pad": "", "k": [7, "7"], "user": ["x", "x", "!x"]}],
     "format": "zstd", "blob_size": 1, "capacity": 2},
    # more folders than anyone would guess
    {"template": "ds/{k}", "scheme": 0, "rows": [{"pad": "", "k": list(range(300))}, {"pad": "", "k": list(range(100, 250))}],
     "format": "jsonl", "blob_size": 100, "capacity": 20},
    {"template": "ds/{k}/{user}", "scheme": 1, "rows": [{"pad": "", "k": list(range(14)), "user": [f"u{n}" for n in range(12)]}],
     "format": "jsonl", "blob_size": 100, "capacity": 2},
)

SCHEMA = {"columns": [{"name": "n", "type": "INTEGER", "nullable": False}, {"name": "k", "type": "VARCHAR"}]}
GOOD = st.fixed_dictionaries({"n": st.integers(0, 99), "k": st.one_of(st.none(), st.sampled_from(["a", "b"]))})
BAD = st.one_of(
    st.fixed_dictionaries({"n": st.just("text"), "k": st.sampled_from(["a", "b"])}),
    st.fixed_dictionaries({"n": st.none(), "k": st.sampled_from(["a", "b"])}),
    st.fixed_dictionaries({"k": st.sampled_from(["a", "b"])}),
    st.fixed_dictionaries({"n": st.just(1), "k": st.just(5)}),
    st.fixed_dictionaries({"n": st.just(1), "k": st.just("a"), "extra": st.just(1)}),
)


@PROP.test(
    st.fixed_dictionaries(
        {
            "rows": sized_list(st.one_of(st.tuples(st.just(True), GOOD), st.tuples(st.just(False), BAD)), (1, 2, 4, 10)),
            "template": st.sampled_from(["ds", "ds/{k}"]),
            "scheme": st.integers(0, len(SCHEMES) - 1),
            "blob_size": st.sampled_from([1, 10_000_000]),
        }
    ),
    quick=800,
    thorough=20000,
)
def backout(case, ctx):
    """Records failing the schema are kept, apart, and never read as data."""
    root = ctx.fresh()
    moment = datetime.datetime.fromisoformat(DATE)
    writer = StreamWriter(
        inner_writer=DiskWriter, dataset=f"{root}/{case['template']}", partitions=SCHEMES[case["scheme"]],
        date=DATE, schema=SCHEMA, format="jsonl", blob_size=case["blob_size"],
    )
    try:
        expected, good = {}, []
        for valid, row in case["rows"]:
            writer.append(dict(row))
            for folder in expected_folders(
                f"{root}/{case['template']}", SCHEMES[case["scheme"]], moment, row, backout=not valid
            ):
                expected.setdefault(folder, []).append(row)
            if valid:
                good.append(row)
        writer.finalize()
        compare(root, expected)
        if case["template"] == "ds":
            scheme = SCHEMES[case["scheme"]]
            got = read(
                f"{root}/ds", on=DATE, partitions=SCHEMES[1] if case["scheme"] == 3 else scheme
            )
            expect_rows(got, good, "reading back what passed the schema", ordered=False)
        if len({v for v, _ in case["rows"]}) == 2:
            ctx.nt("good and bad")
    finally:
        writer.run_pool_attendant = False


@PROP.test(
    st.fixed_dictionaries(
        {
            "start": st.sampled_from(["2021-12-31 22:30:00", "2020-02-28 23:59:58", "2021-06-01 00:00:00"]),
            "steps": sized_list(
                weighted(
                    6, st.tuples(st.just("row"), st.sampled_from(["a", "b"])),
                    1, st.tuples(st.just("bad"), st.sampled_from(["a", "b"])),
                    2, st.tuples(st.just("clock"), st.sampled_from([1, 60, 3600, 86400, 40 * 86400, 30 * 86400, 31 * 86400, 365 * 86400, 61 * 86400])),
                ),
                (2, 4, 8, 14),
            ),
            "scheme": st.sampled_from([1, 2, 3]),
            "template": st.sampled_from(["ds", "ds/{k}"]),
        }
    ),
    quick=600,
    thorough=15000,
)
def date_roll(case, ctx):
    """Without a fixed date, a record goes to the folder of the time it was appended."""
    root = ctx.fresh()
    with frozen(case["start"], case, tick=True) as clock:
        writer = None
        try:
            writer = StreamWriter(
                inner_writer=DiskWriter, dataset=f"{root}/{case['template']}", partitions=SCHEMES[case["scheme"]],
                schema=SCHEMA, format="jsonl", idle_timeout_seconds=10**9,
            )
            expected = {}
            for i, (kind, value) in enumerate(case["steps"]):
                if kind == "clock":
                    clock.tick(datetime.timedelta(seconds=value))
                    continue
                now = datetime.datetime.utcnow()
                row = {"n": i if kind == "row" else "bad", "k": value}
                writer.append(row)
                for folder in expected_folders(f"{root}/{case['template']}", SCHEMES[case["scheme"]], now, row, backout=kind == "bad"):
                    expected.setdefault(folder, []).append(row)
            writer.finalize()
            compare(root, expected)
            if len(expected) > 1:
                ctx.nt()
        finally:
            if writer is not None:
                writer.run_pool_attendant = False


@PROP.test(
    st.fixed_dictionaries(
        {
            "threads": st.integers(1, 4),
            "rows": st.lists(st.sampled_from("abcd"), min_size=4, max_size=24),
            "pauses": st.sets(st.integers(0, 23), max_size=2),
            "capacity": st.sampled_from([1, 1, 2]),
            "idle": st.sampled_from([0, 0, 30]),
            "blob_size": st.sampled_from([1, 60, 10_000_000]),
        }
    ),
    quick=160,
    thorough=4000,
)
def eviction_and_threads(case, ctx):
    """The attendant evicts writers while records keep coming, from several threads."""
    root = ctx.fresh()
    writer = StreamWriter(
        inner_writer=DiskWriter, dataset=f"{root}/ds/{{k}}", partitions=None, date=DATE, schema=False, format="jsonl",
        blob_size=case["blob_size"], writer_pool_capacity=case["capacity"], idle_timeout_seconds=case["idle"],
    )
    errors = []

    def work(me):
        try:
            for i, key in enumerate(case["rows"]):
                if i in case["pauses"]:
                    time.sleep(0.13)
                writer.append({"n": i, "t": me, "k": key})
        except Exception as exc:  # reported below
            errors.append(exc)

    try:
        threads = [threading.Thread(target=work, args=(n,)) for n in range(case["threads"])]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        check(not errors, "append raised", errors)
        writer.finalize()
        expected = {}
        for me in range(case["threads"]):
            for i, key in enumerate(case["rows"]):
                expected.setdefault(f"{root}/ds/{key}", []).append({"n": i, "t": me, "k": key})
        compare(root, expected)
        if len(files_under(root)) > len(expected) and case["blob_size"] > 100:
            ctx.nt("evicted and reopened", f"threads={case['threads']}")
        elif len(expected) > 1:
            ctx.nt(f"threads={case['threads']}")
    finally:
        writer.run_pool_attendant = False


class SlowRecord(dict):
    """other threads get a turn while this record is being written"""

    def items(self):
        time.sleep(0.003)
        return super().items()


class SlowDisk(DiskWriter):
    """other threads get a turn while a blob is being stored"""

    def commit(self, *args, **kwargs):
        time.sleep(0.003)
        return super().commit(*args, **kwargs)


class Hurried:
    """in place of the time module of the stream writer: its attendant never rests for long"""

    def __getattr__(self, name):
        return getattr(time, name)

    def sleep(self, seconds):
        time.sleep(0.001)


@PROP.test(
    st.fixed_dictionaries(
        {
            "threads": st.integers(1, 3),
            "rows": st.lists(st.tuples(st.sampled_from("aaab"), st.booleans()), min_size=8, max_size=20),
            "template": st.sampled_from(["ds", "ds/{k}"]),
            "capacity": st.sampled_from([0, 1, 3]),
            "idle": st.sampled_from([0, 0.002, 30]),
            "blob_size": st.sampled_from([1, 100, 10_000_000]),
        }
    ),
    quick=200,
    thorough=5000,
)
def attendant_at_work(case, ctx):
    """The attendant evicts writers all the time, also while a record is being added to them or a blob is stored."""
    from mabel.data.writers import stream_writer

    root = ctx.fresh()
    real = getattr(stream_writer, "time", None)
    if real is time:
        stream_writer.time = Hurried()
    errors = []

    def work(me):
        try:
            for i, (key, slow) in enumerate(case["rows"]):
                row = {"n": i, "t": me, "k": key}
                writer.append(SlowRecord(row) if slow else row)
        except Exception as exc:  # reported below
            errors.append(exc)

    try:
        writer = StreamWriter(
            inner_writer=SlowDisk, dataset=f"{root}/{case['template']}", partitions=None, date=DATE, schema=False, format="flat",
            blob_size=case["blob_size"], writer_pool_capacity=case["capacity"], idle_timeout_seconds=case["idle"],
        )
        threads = [threading.Thread(target=work, args=(n,)) for n in range(case["threads"])]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        check(not errors, "append raised", errors)
        writer.finalize()
        expected = {}
        for me in range(case["threads"]):
            for i, (key, _) in enumerate(case["rows"]):
                folder = f"{root}/{case['template']}".replace("{k}", key)
                expected.setdefault(folder, []).append({"n": i, "t": me, "k": key})
        compare(root, expected)
        if len(files_under(root)) > len(expected):
            ctx.nt("written in several blobs")
    finally:
        writer.run_pool_attendant = False
        if real is time:
            stream_writer.time = real


@PROP.test(
    st.fixed_dictionaries(
        {
            "capacity": st.integers(1, 5),
            "ops": sized_list(
                weighted(
                    6, st.tuples(st.just("get"), st.integers(0, 8)),
                    1, st.tuples(st.just("remove"), st.integers(0, 8)),
                    2, st.tuples(st.just("evict"), st.just(0)),
                    2, st.tuples(st.just("clock"), st.sampled_from([1, 30, 31])),
                ),
                (3, 8, 20, 40),
            ),
            "idle": st.sampled_from([5, 30, 60]),
        }
    ),
    quick=1200,
    thorough=30000,
)
def pool(case, ctx):
    """The pool hands out one writer per identity and nominates exactly the idle and the least recently used."""
    with frozen("2021-06-01", case) as clock:
        pool = WriterPool(case["capacity"], inner_writer=NullWriter, schema=False, format="jsonl")
        model = {}  # identity -> [writer, last access]
        for kind, arg in case["ops"]:
            clock.tick(datetime.timedelta(seconds=1))
            now = time.time()
            if kind == "clock":
                clock.tick(datetime.timedelta(seconds=arg))
            elif kind == "get":
                name = f"w/{arg}"
                writer = pool.get_writer(name)
                if name in model:
                    check(writer is model[name][0], "a second writer for one identity")
                else:
                    check(all(writer is not w for w, _ in model.values()), "one writer for two identities")
                model[name] = [writer, now]
            elif kind == "remove":
                pool.remove_writer(f"w/{arg}")
                model.pop(f"w/{arg}", None)
            else:
                for name in pool.nominate_writers_to_evict():
                    pool.remove_writer(name)
                    model.pop(name, None)
            now = time.time()
            held = sorted(w["identity"] for w in pool.writers)
            check(held == sorted(model), "writers in the pool", held, sorted(model))
            stale = {n for n, (_, at) in model.items() if now - at > case["idle"]}
            check(set(pool.get_stale_writers(case["idle"])) == stale, "stale writers", sorted(stale))
            excess = max(len(model) - case["capacity"], 0)
            order = sorted(model, key=lambda n: model[n][1])
            nominated = list(pool.nominate_writers_to_evict())
            expected = order[:excess][: case["capacity"]]
            check(nominated == expected, "nominated for eviction", nominated, expected)
            if excess:
                ctx.nt("over capacity")
            elif model:
                ctx.label("within capacity")
