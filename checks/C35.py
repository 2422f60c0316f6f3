"""C35 - a read takes from storage what is asked for, once, and leaves nothing behind."""
import datetime
import gc
import os
import tempfile

import orjson
import zstandard

from domain import sized_list, weighted
from harness import Property, Violation, check, expect_rows, short
from store import files_under, put
from vhyp import st

from mabel.adapters.disk import DiskReader
from mabel.data import STORAGE_CLASS, Reader, SqlReader
from mabel.errors import DataNotFoundError

PROP = Property(
    "C35",
    rule="a case is a dataset of several blobs over days, in frames or partitionings, beside files which are not data, "
    "and a read: all of it, the first records (of a filter, in several ways), on from a cursor, or of a persisted set "
    "many times; an inner reader notes which blobs are fetched; afterwards the dataset, the open files and the folder "
    "for temporary files are compared with before; non-trivial = some blobs must be fetched and some must not",
    assumptions=["an inner reader is asked for a blob with get_blob_bytes, blobs are fetched whole", "fetching the blob a wanted record lies in is needed"],
)

BASE = datetime.date(2021, 5, 29)


def recording():
    """an inner reader class of this case alone"""

    class Recording(DiskReader):
        fetched = []

        def get_blob_bytes(self, blob_name):
            Recording.fetched.append(os.path.abspath(blob_name))
            return super().get_blob_bytes(blob_name)

    return Recording


BLOB = st.tuples(sized_list(st.integers(0, 3), (0, 1, 1, 2, 3, 5)), st.sampled_from([".jsonl", ".jsonl", ".zstd"]))
LAYOUT = st.fixed_dictionaries(
    {
        "days": st.lists(st.lists(BLOB, max_size=4), min_size=1, max_size=3),
        "frames": st.sampled_from(["none", "none", "one", "newer incomplete", "older"]),
        "by": st.sampled_from([None, None, "a", "a and b"]),
        "clutter": st.booleans(),
        "range": st.sampled_from([(0, 2), (0, 2), (0, 2), (1, 0), (1, 2), (0, 0), (2, 1)]),
    }
)


def lay_out(root, case):
    """the blobs which hold the wanted data, in the order they are read: [(path, rows)]"""
    wanted = []
    serial = 0
    first, last = sorted(case["range"])
    for d, blobs in enumerate(case["days"]):
        day = BASE + datetime.timedelta(days=d)
        base = f"{root}/ds/year_{day:%Y}/month_{day:%m}/day_{day:%d}"
        folder = base + ("/by_a/a=1" if case["by"] else "")
        others = []
        if case["by"] == "a and b":
            others += [f"{base}/by_a/a=2", f"{base}/by_0/z=1"]
        if case["frames"] != "none":
            frame = f"{folder}/as_at_20210601-000001"
            put(f"{frame}/frame.complete")
            if case["frames"] == "newer incomplete":
                others.append(f"{folder}/as_at_20210701-000000")
            if case["frames"] == "older":
                put(f"{folder}/as_at_20200601-000000/frame.complete")
                others.append(f"{folder}/as_at_20200601-000000")
            folder = frame
        for b, (values, ext) in enumerate(blobs):
            rows = [{"n": (serial := serial + 1), "v": v} for v in values]
            data = b"".join(orjson.dumps(r) + b"\n" for r in rows)
            path = f"{folder}/b{b}{ext}"
            put(path, zstandard.compress(data) if ext == ".zstd" else data)
            if first <= d <= last:
                wanted.append((os.path.abspath(path), rows))
        if case["clutter"]:
            for name in ("b0.manifest", "b0.idx", "notes.tmp", "frame.note", "BACKOUT/b9.jsonl"):
                put(f"{folder}/{name}", b'{"n": -1, "v": 1}\n')
            for other in others:
                put(f"{other}/b0.jsonl", b'{"n": -2, "v": 1}\n')
    return sorted(wanted)


def descriptors():
    found = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            target = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        # what pyarrow, logging and threads keep is not of this read
        if "/ds/" in target or "/scratch/" in target:
            found.append(target)
    return sorted(found)


def contents(root):
    return [(f, os.stat(f).st_size, os.stat(f).st_mtime_ns) for f in files_under(root)]


READ = weighted(
    2, st.tuples(st.just("all"), st.just(0)),
    3, st.tuples(st.just("iterate"), st.integers(0, 6)),
    2, st.tuples(st.just("take"), st.integers(0, 6)),
    1, st.tuples(st.just("itake"), st.integers(0, 6)),
    1, st.tuples(st.just("first"), st.just(1)),
    1, st.tuples(st.just("keys"), st.integers(1, 4)),
    1, st.tuples(st.just("filter, take"), st.integers(1, 4)),
    1, st.tuples(st.just("select, take"), st.integers(1, 4)),
    2, st.tuples(st.just("limit"), st.integers(1, 6)),
    3, st.tuples(st.just("cursor"), st.integers(1, 6)),
    2, st.tuples(st.just("persisted"), st.sampled_from([STORAGE_CLASS.MEMORY, STORAGE_CLASS.DISK, STORAGE_CLASS.COMPRESSED_MEMORY])),
)
FILTERS = [(None, lambda r: True), ("v = 1", lambda r: r["v"] == 1), ([("v", ">", 1)], lambda r: r["v"] > 1), ("v = 9", lambda r: False)]


@PROP.test(st.tuples(LAYOUT, READ, st.integers(0, 3)), quick=2400, thorough=80000)
def fetches(case, ctx):
    usual, tempfile.tempdir = tempfile.tempdir, os.path.abspath(ctx.fresh("scratch/t"))
    try:
        fetch(case, ctx)
    finally:
        tempfile.tempdir = usual


def fetch(case, ctx):
    layout, (how, count), which = case
    root = ctx.fresh()
    wanted = lay_out(root, layout)
    filters, keep = FILTERS[which]
    Recording = recording()
    first, last = sorted(layout["range"])
    kwargs = {
        "inner_reader": Recording, "start_date": (BASE + datetime.timedelta(days=first)).isoformat(),
        "end_date": (BASE + datetime.timedelta(days=last)).isoformat(),
    }
    if layout["by"]:
        kwargs["partition_filter"] = ("a", "=", "1")

    def reader(**more):
        return Reader(dataset=f"{root}/ds", filters=filters, **kwargs, **more)

    before = contents(root), descriptors()
    matching = [r for _, rows in wanted for r in rows if keep(r)]
    fetched = Recording.fetched
    paths = [p for p, _ in wanted]

    def needed(limit):
        """the blobs up to the one the last of these records is in"""
        seen = 0
        if limit == 0:
            return []
        for i, (_, rows) in enumerate(wanted):
            seen += sum(map(keep, rows))
            if seen >= limit:
                return paths[: i + 1]
        return paths

    def verify(limit, what):
        once = needed(limit)
        check(len(set(fetched)) == len(fetched), f"{what} fetched a blob more than once", short([os.path.relpath(f, root) for f in fetched]))
        extra = [os.path.relpath(f, root) for f in fetched if f not in once]
        check(not extra, f"{what} fetched what it does not need", extra, f"needed: {[os.path.relpath(f, root) for f in once]}")

    try:
        if how == "persisted":
            ds = reader(persistence=count)
            check(sorted(fetched) == sorted(paths), "persisting fetches every blob once", short(fetched), short(paths))
            for _ in range(2):
                expect_rows([dict(r) if isinstance(r, dict) else r.as_dict() for r in ds], matching, "the persisted set")
            list(ds.take(2)), ds.first(), ds.keys(), list(ds.filter("v = 1")), ds.count()
            check(sorted(fetched) == sorted(paths), "asking a persisted set fetched blobs again", short(fetched))
            ds = None
        elif how == "limit":
            clause = {None: "", "v = 1": " WHERE v = 1", "v = 9": " WHERE v = 9"}.get(filters if not isinstance(filters, list) else "", " WHERE v > 1")
            ds = SqlReader(f"SELECT * FROM {root}/ds{clause} LIMIT {count}", **kwargs)
            verify(0, "a statement of which no result was taken") if count else None
            expect_rows(list(ds), matching[:count], f"LIMIT {count}")
            verify(count, f"LIMIT {count}")
            ds = None
        else:
            ds = reader()
            check(not fetched, "creating a reader fetched", short(fetched))
            if how == "all":
                expect_rows(list(ds), matching, "all records")
                check(sorted(fetched) == sorted(paths), "a full read fetches every blob once", short(fetched), short(paths))
            elif how == "iterate":
                iterator = iter(ds)
                got = [next(iterator, None) for _ in range(count)]
                expect_rows([g for g in got if g is not None], matching[:count], f"the first {count}")
                verify(count, f"the first {count}")
            elif how in ("take", "itake"):
                expect_rows(list(getattr(ds, how)(count)), matching[:count], f"{how}({count})")
                verify(count, f"{how}({count})")
            elif how == "first":
                got = ds.first()
                expect_rows([got] if got is not None else [], matching[:1], "first()")
                verify(1, "first()")
            elif how == "keys":
                ds.keys(count)
                verify(count, f"keys({count})")
            elif how == "filter, take":
                mine, keep_both = ds.filter(lambda r: r["n"] % 2 == 0), lambda r: r["n"] % 2 == 0
                check(not fetched, "filtering fetched before anything was taken", short(fetched))
                expect_rows(list(mine.take(count)), [r for r in matching if keep_both(r)][:count], f"filter and take({count})")
                inner = keep
                keep = lambda r: inner(r) and keep_both(r)
                verify(count, f"filter and take({count})")
            elif how == "select, take":
                mine = ds.select(["n"])
                check(not fetched, "selecting fetched before anything was taken", short(fetched))
                expect_rows(list(mine.take(count)), [{"n": r["n"]} for r in matching[:count]], f"select and take({count})")
                verify(count, f"select and take({count})")
            else:
                iterator = iter(ds)
                got = [g for g in (next(iterator, None) for _ in range(count)) if g is not None]
                if not got:
                    return
                cursor = ds.cursor.get()
                done = needed(len(got))[:-1]
                fetched.clear()
                expect_rows(list(reader(cursor=cursor)), matching[len(got):], f"on from record {len(got)}")
                verify(10**9, f"on from record {len(got)}")
                again = [os.path.relpath(f, root) for f in fetched if f in done]
                check(not again, f"on from record {len(got)} fetched blobs which were finished", again)
                fetched.clear()
                list(reader(cursor=cursor).take(1))
                allowed = needed(len(got) + 1)
                extra = [os.path.relpath(f, root) for f in fetched if f in done or f not in allowed]
                check(not extra, f"the next record, {len(got) + 1}, fetched", extra)
            ds = iterator = mine = None
    except DataNotFoundError:
        if wanted:
            raise Violation("no data was found, there is some")
        return
    gc.collect()
    after = contents(root), descriptors()
    check(after[0] == before[0], "reading changed the dataset", short(set(after[0]) ^ set(before[0])))
    check(after[1] == before[1], "files were left open", after[1])
    check(not os.listdir(tempfile.tempdir), "temporary files were left behind", os.listdir(tempfile.tempdir))
    few = isinstance(count, int) and not isinstance(count, STORAGE_CLASS) and how != "all"
    if paths and (layout["clutter"] or few and len(needed(count)) < len(paths)):
        ctx.nt(how)

