"""C33 - readers, writers, sets and filters used side by side do not influence each other."""
import datetime
import sys
import threading

import orjson
import zstandard
from orso.schema import RelationSchema

from domain import sized_list, weighted
from harness import Property, Violation, check, expect_rows, same, short
from store import put, read
from vhyp import st

from mabel.adapters.disk import DiskReader, DiskWriter
from mabel.data import STORAGE_CLASS, BatchWriter, Reader, SqlReader, StreamWriter
from mabel.data.internals.dictset import DictSet
from mabel.data.internals.dnf_filters import DnfFilters
from mabel.data.internals.expression import Expression
from mabel.data.readers.internals.inline_evaluator import Evaluator
from mabel.data.writers.database_writer import DatabaseWriter
from mabel.data.writers.writer import Writer
from mabel.utils import dates, paths, text

PROP = Property(
    "C33",
    rule="a case is two to five uses of mabel (reads, statements, chains over sets, one shared filter or select applied to "
    "many records, batch, plain, stream and database writers, date and path functions), some sharing their arguments, and a "
    "schedule; each is done alone, then all of them step by step as scheduled, or each in a thread of its own; what "
    "each gives, reads or stores has to be the same; non-trivial = at least two of them were under way at the same time",
    assumptions=[
        "writers of one dataset and date are stream or plain writers (frames opened in the same second share a name: a known finding of C02)",
        "uses which share a set being iterated are left out (a known finding of C13)",
    ],
)

# ------------------------------------------------------------------ the uses

VALUE = st.sampled_from([0, 1, 2, 3, "x", "y", "xy", None])
ROW = st.fixed_dictionaries({"n": st.integers(0, 9), "k": st.sampled_from(["a", "b", "c"])}, optional={"v": VALUE, "t": st.sampled_from(["x", "y", "abc", ""])})
ROWS = sized_list(ROW, (1, 2, 4, 8))
SELECTS = ["*", "n, k", "UPPER(t), n", "CONCAT(k, n) AS c, v", "LEFT(t, 1), LEN(t), n AS m"]
WHERES = [None, "n > 3", "k = 'a' OR n < 5", "t LIKE '%x%' AND NOT k = 'b'", "v = 1", "n IN (1, 2, 3, 4)", [("n", ">=", 4)], [[("k", "==", "a")], [("n", "<", 3)]]]
STATEMENTS = [
    "SELECT * FROM {}", "SELECT n, UPPER(k) FROM {} WHERE n > 2", "SELECT k, COUNT(*), SUM(n) FROM {} GROUP BY k", "SELECT DISTINCT k FROM {}",
    "SELECT n, t FROM {} ORDER BY n DESC LIMIT 3", "SELECT MAX(n) FROM {} WHERE k != 'c'", "SELECT k FROM (SELECT k, n FROM {} WHERE n > 1) LIMIT 5",
    "SELECT AVG(n), k FROM {} GROUP BY k HAVING COUNT(*) > 1",
]
CHAINS = ["list", "filter", "where", "dnf", "select", "distinct", "sort", "group", "collect", "keys", "hash"]

DATASET = st.sampled_from(["one", "two"])
TASK = weighted(
    4, st.tuples(st.just("read"), DATASET, st.sampled_from(range(len(SELECTS))), st.sampled_from(range(len(WHERES))), st.sampled_from([1, 1, 2, 3, 4]), st.sampled_from([0, 0, 1, 2])),
    2, st.tuples(st.just("resume"), DATASET, st.integers(1, 5)),
    3, st.tuples(st.just("sql"), DATASET, st.sampled_from(range(len(STATEMENTS)))),
    2, st.tuples(st.just("chain"), st.sampled_from(CHAINS), st.sampled_from([1, 2, 3, 4]), ROWS),
    2, st.tuples(st.just("where"), st.sampled_from(range(len(WHERES))), ROWS),
    2, st.tuples(st.just("evaluate"), st.sampled_from(range(len(SELECTS))), ROWS),
    3, st.tuples(st.just("batch"), st.sampled_from(["jsonl", "zstd", "parquet"]), st.sampled_from([1, 60, 10**7]), ROWS),
    1, st.tuples(st.just("plain"), st.sampled_from(["jsonl", "zstd", "parquet"]), st.sampled_from([1, 60, 10**7]), ROWS),
    2, st.tuples(st.just("stream"), st.sampled_from(["jsonl", "zstd"]), st.sampled_from([1, 60, 10**7]), ROWS),
    2, st.tuples(st.just("same stream"), st.sampled_from(["jsonl", "zstd"]), st.sampled_from([1, 60, 10**7]), ROWS),
    1, st.tuples(st.just("database"), ROWS),
    1, st.tuples(st.just("functions"), st.lists(st.sampled_from(["2021-01-02", "2021-01-02 03:04", "nope", "2020-02-29T10:11:12Z", "2021-13-01", "a/b!"]), min_size=1, max_size=6)),
)

SCHEMA = [{"name": "n", "type": "INTEGER"}, {"name": "k", "type": "VARCHAR"}, {"name": "v", "type": "VARCHAR", "nullable": True}, {"name": "t", "type": "VARCHAR", "nullable": True}]


def conforming(row):
    return {"n": row["n"], "k": row["k"], "v": None if row.get("v") is None else str(row["v"]), "t": row.get("t")}


class Kept:
    def __init__(self, engine=None, **kwargs):
        self.engine = engine

    def commit(self, batch):
        self.engine.extend(r.as_dict if not callable(r.as_dict) else r.as_dict() for r in batch)

    def finalize(self, **kwargs):
        pass


def plain(row):
    return row if isinstance(row, dict) else row.as_dict()


def steps(task, at, world, number):
    """one use as a generator: every yield is a step, it returns what it gave (and whether in an order)"""
    kind = task[0]
    if kind == "read":
        _, name, select, where, storage, day = task
        yield
        ds = Reader(
            dataset=world["data"] + name, select=SELECTS[select], filters=world["wheres"][where], inner_reader=DiskReader,
            persistence=STORAGE_CLASS(storage), partitions=world["partitions"],
            start_date=f"2021-05-{28 + day}", end_date="2021-05-30",
        )
        yield
        got = []
        for row in ds:
            got.append(plain(row))
            yield
        return got, True
    if kind == "resume":
        _, name, count = task
        make = lambda **more: Reader(dataset=world["data"] + name, inner_reader=DiskReader, start_date="2021-05-28", end_date="2021-05-30", partitions=world["partitions"], **more)
        ds = make()
        got = []
        for _ in range(count):
            row = next(ds, None)
            if row is not None:
                got.append(plain(row))
            yield
        cursor = ds.cursor.get()
        for row in make(cursor=cursor):
            got.append(plain(row))
            yield
        return got, True
    if kind == "sql":
        _, name, which = task
        ds = SqlReader(STATEMENTS[which].format(world["data"] + name), inner_reader=DiskReader, start_date="2021-05-28", end_date="2021-05-30")
        yield
        got = []
        for row in ds:
            got.append(plain(row))
            yield
        return got, "GROUP" not in STATEMENTS[which]
    if kind == "chain":
        _, what, storage, rows = task
        ds = DictSet(rows, storage_class=STORAGE_CLASS(storage))
        yield
        if what == "keys":
            return [{"keys": list(ds.keys())}], True
        if what == "hash":
            return [{"hash": hash(ds)}], True
        if what == "collect":
            sets = ds.collect_set("k")
            yield
            return [{"set": k, **r} for k, r in sets.items()], True
        ds = {
            "list": lambda: ds, "filter": lambda: ds.filter(lambda r: r["n"] > 3), "where": lambda: ds.filter("n > 3 AND k != 'a'"),
            "dnf": lambda: ds.filter(world["wheres"][-1]), "select": lambda: ds.select(["k", "zz"]), "distinct": lambda: ds.distinct("k"),
            "sort": lambda: ds.sort_and_take("n", take=3), "group": lambda: ds.group_by(["k"]).aggregate([("COUNT", "*"), ("SUM", "n")]),
        }[what]()
        yield
        got = []
        for row in ds:
            got.append(dict(row))
            yield
        return got, what != "group"
    if kind in ("where", "evaluate"):
        _, which, rows = task
        if kind == "where":
            keep = world["compiled"][which]
        else:
            keep = world["selects"][which]
        got = []
        for row in rows:
            got.append({"result": keep(row) if keep else None})
            yield
        return got, True
    if kind in ("batch", "plain", "stream", "same stream"):
        _, fmt, size, rows = task
        parquet = fmt == "parquet"
        rows = [conforming(r) if parquet else {**r, "task": number} for r in rows]
        dataset = f"{at}/{kind}" if kind == "same stream" else f"{at}/{kind}{number}"
        more = {}
        if kind.endswith("stream"):
            dataset += "/{k}"
            more = {"idle_timeout_seconds": 3600, "writer_pool_capacity": 50}
        maker = {"batch": BatchWriter, "plain": Writer}.get(kind, StreamWriter)
        writer = maker(
            dataset=dataset, inner_writer=DiskWriter, format=fmt, blob_size=size, date="2021-05-30", schema=world["schema"] if parquet else False,
            partitions=None if kind.endswith("stream") else world["partitions"], **more,
        )
        try:
            yield
            for row in rows:
                writer.append(row)
                yield
            writer.finalize()
        finally:
            if kind.endswith("stream"):
                writer.run_pool_attendant = False
        if kind == "same stream":
            return [], False  # read when all of them are done
        stored = read(dataset.replace("/{k}", ""), on="2021-05-30", partitions=None if kind == "stream" else world["partitions"])
        check_stored(stored, rows, f"a {kind} writer ({fmt}), blobs of {size}")
        return stored, False
    if kind == "database":
        stored = []
        writer = DatabaseWriter(dataset="t", inner_writer=Kept, engine=stored, schema=world["schema"])
        yield
        for row in task[1]:
            writer.append(conforming(row))
            yield
        writer.finalize()
        expect_rows(stored, [conforming(r) for r in task[1]], "a database writer")
        return stored, True
    got = []
    for value in task[1]:
        moment = dates.parse_iso(value)
        got.append({"parsed": moment, "path": paths.build_path("a/{yyyy}/{mm}-{dd}/" + value, moment or datetime.datetime(2000, 1, 2)), "clean": text.sanitize(value)})
        yield
    return got, True


def check_stored(stored, rows, what):
    expect_rows(stored, rows, f"what {what} stored", ordered=False)


def alone(generator):
    while True:
        try:
            next(generator)
        except StopIteration as stop:
            return stop.value


def scheduled(generators, schedule):
    results = [None] * len(generators)
    active = list(range(len(generators)))
    together = 0
    turn = 0
    while active:
        index = active[schedule[turn % len(schedule)] % len(active)]
        turn += 1
        try:
            next(generators[index])
        except StopIteration as stop:
            results[index] = stop.value
            active.remove(index)
        together += len(active) > 1
    return results, together


def threaded(generators):
    results = [None] * len(generators)
    failures = []
    barrier = threading.Barrier(len(generators))

    def work(index):
        try:
            barrier.wait(30)
            results[index] = alone(generators[index])
        except BaseException as exc:
            failures.append(exc)

    threads = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(generators))]
    usual = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join(120)
    finally:
        sys.setswitchinterval(usual)
    if failures:
        raise failures[0]
    check(not any(t.is_alive() for t in threads), "a use in a thread of its own never ends")
    return results, len(generators)


def set_up(root):
    """two datasets of several blobs and formats"""
    for name, shift in (("one", 0), ("two", 5)):
        for day in (28, 29, 30):
            for b in range(2):
                rows = [{"n": (shift + day * 3 + b * 7 + i) % 10, "k": "abc"[(i + b + shift) % 3], "v": [1, None, "x", 2][(i + day) % 4], "t": ["xx", "abc", "", "yx"][i % 4]} for i in range(3)]
                data = b"".join(orjson.dumps(r) + b"\n" for r in rows)
                path = f"{root}/data/{name}/year_2021/month_05/day_{day}/b{b}"
                put(path + (".zstd" if b else ".jsonl"), zstandard.compress(data) if b else data)


def make_world(root, shared):
    as_list = [dict(c) for c in SCHEMA]
    schema = {"list": lambda: as_list, "fields": lambda: {"fields": as_list}, "object": lambda: RelationSchema.from_dict({"name": "t", "columns": as_list})}[shared]()
    wheres = list(WHERES)
    return {
        "data": f"{root}/data/", "partitions": ["year_{yyyy}/month_{mm}/day_{dd}"], "schema": schema, "wheres": wheres,
        "compiled": [None if w is None else Expression(w) if isinstance(w, str) else DnfFilters(w) for w in wheres],
        "selects": [None if s == "*" else Evaluator(s) for s in SELECTS],
    }


CASES = st.fixed_dictionaries(
    {
        "tasks": st.lists(TASK, min_size=2, max_size=5),
        "twins": st.booleans(),
        "schema": st.sampled_from(["list", "fields", "object"]),
        "schedule": st.one_of(st.just([0]), st.lists(st.integers(0, 4), min_size=2, max_size=40)),
    }
)


def side_by_side(case, ctx, run):
    root = ctx.fresh()
    set_up(root)
    tasks = list(case["tasks"])
    if case["twins"]:
        tasks[1] = tasks[0]  # the same thing twice, at the same time
    expected = []
    for i, task in enumerate(tasks):
        expected.append(alone(steps(task, f"{root}/alone", make_world(root, case["schema"]), i)))
    world = make_world(root, case["schema"])
    results, together = run([steps(task, f"{root}/mixed", world, i) for i, task in enumerate(tasks)])
    for i, (task, (want, ordered), result) in enumerate(zip(tasks, expected, results)):
        check(result is not None, f"use {i} ({task[0]}) gave nothing")
        expect_rows(result[0], want, f"use {i} of {[t[0] for t in tasks]}, {task[:3]}, side by side with the others", ordered=ordered)
    shared = [{**r, "task": i} for i, t in enumerate(tasks) if t[0] == "same stream" for r in t[3]]
    if shared:
        check_stored(read(f"{root}/mixed/same stream", on="2021-05-30", partitions=None), shared, "stream writers of one dataset")
    if together:
        ctx.nt(*(t[0] for t in tasks))


@PROP.test(CASES, quick=800, thorough=30000)
def interleaved(case, ctx):
    side_by_side(case, ctx, lambda generators: scheduled(generators, case["schedule"]))


SHARED = weighted(
    3, st.tuples(st.just("where"), st.sampled_from([i for i, w in enumerate(WHERES) if w])),
    3, st.tuples(st.just("select"), st.sampled_from([i for i, s in enumerate(SELECTS) if s != "*"])),
    1, st.tuples(st.just("parse"), st.sampled_from([i for i, w in enumerate(WHERES) if isinstance(w, str)])),
    1, st.tuples(st.just("functions"), st.just(0)),
)


@PROP.test(st.tuples(SHARED, st.lists(ROWS, min_size=2, max_size=4)), quick=160, thorough=5000, cpu_limit=120)
def shared_in_threads(case, ctx):
    """one filter or select evaluated for other records in several threads, many times over"""
    (what, which), parts = case
    world = make_world("nowhere", "list")
    shared = {
        "where": lambda: world["compiled"][which], "select": lambda: world["selects"][which], "parse": lambda: lambda row: Expression(WHERES[which])(row),
        "functions": lambda: lambda row: (text.sanitize(str(row.get("t"))), dates.parse_iso(f"2021-01-0{row['n']}"), paths.build_path("{yyyy}/{mm}", dates.parse_iso(f"2021-0{row['n']}-01") or datetime.datetime(2000, 1, 1))),
    }[what]()
    expected = [[shared(row) for row in rows] for rows in parts]

    def over_and_over(rows, wanted):
        for _ in range(max(1, 200 // len(rows))):
            for row, want in zip(rows, wanted):
                got = shared(row)
                if not same(got, want):
                    raise Violation("shared between threads, it gives another result", WHERES[which] if what in ("where", "parse") else SELECTS[which], short(row), short(got), short(want))
        yield

    usual = sys.getswitchinterval()
    threaded([over_and_over(rows, wanted) for rows, wanted in zip(parts, expected)])
    sys.setswitchinterval(usual)
    if expected[0] != expected[1]:
        ctx.nt(what)


@PROP.test(CASES, quick=320, thorough=10000, cpu_limit=120)
def in_threads(case, ctx):
    side_by_side(case, ctx, threaded)
