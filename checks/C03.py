"""C03 - a storage fault while committing loses nothing, duplicates nothing, publishes nothing."""
import datetime

import orjson

from domain import sized_list, weighted
from harness import Property, check, expect_rows, multiset, short
from store import put, read
from vhyp import st

from mabel.adapters.disk import DiskWriter
from mabel.data import BatchWriter, StreamWriter
from mabel.data.writers.writer import Writer

PROP = Property(
    "C03",
    level="fault_enumeration",
    rule="a case is (records, format, blob size, which of the storage commits fail, how often the caller retries an "
    "append or a finalize); the inner writer raises at exactly those commits, without having stored anything; "
    "non-trivial = at least one commit failed and at least one record had been accepted before it",
    assumptions=[
        "a failing commit stores nothing (an inner writer that stores the blob and then raises, or leaves half a "
        "blob behind, is outside what the writers can control)",
        "a record whose append raised may or may not have been taken: only records whose append returned are "
        "required, and no record may be stored more often than it was offered",
    ],
)

DATE = datetime.date(2021, 5, 30)


class StorageFault(Exception):
    pass


# storage clients raise whatever they like
FAULTS = [StorageFault, StorageFault, OSError, TimeoutError, ConnectionError, PermissionError, RuntimeError, ValueError, TypeError,
          KeyError, AttributeError, NotImplementedError]
FAULT = st.integers(0, len(FAULTS) - 1)


def faulty_disk(fault=StorageFault):
    """An inner writer class of this case alone (so that a writer the garbage
    collector flushes later cannot touch another case); `plan` holds the ordinals
    of the commits which fail."""

    class FaultyDisk(DiskWriter):
        plan = frozenset()
        ordinal = 0
        failed = 0
        over = False

        def commit(self, byte_data, override_blob_name=None):
            if FaultyDisk.over:
                return "nowhere"
            mine = FaultyDisk.ordinal
            FaultyDisk.ordinal += 1
            if mine in FaultyDisk.plan:
                FaultyDisk.failed += 1
                raise fault(f"commit {mine}")
            return super().commit(byte_data, override_blob_name)

    return FaultyDisk


# runs of consecutive failures, so that a fault can outlast the retries
PLAN = st.lists(st.tuples(weighted(3, st.integers(0, 4), 1, st.integers(0, 12)), st.sampled_from([1, 1, 1, 2, 3, 40])), min_size=1, max_size=3).map(
    lambda runs: sorted({i for start, length in runs for i in range(start, start + length)})
)
SCHEMA = {"columns": [{"name": "n", "type": "INTEGER"}, {"name": "pad", "type": "VARCHAR"}]}


def rows_of(case):
    return [{"n": i, "pad": "p" * pad} for i, pad in enumerate(case["pads"])]


def attempt(call, retries, fault=StorageFault):
    """(succeeded, attempts, result)"""
    for n in range(1, retries + 2):
        try:
            return True, n, call()
        except fault:
            pass
    return False, retries + 1, None


def bounds(got, offered, taken, where):
    counts = multiset(got)
    for row in offered:
        n = counts.pop(next(iter(multiset([row]))), 0)
        low, high = taken[row["n"]]
        check(low <= n <= high, f"{where}: record stored {n} times, expected {low}..{high}", row)
    check(not counts, f"{where}: records nobody wrote", short(counts))


@PROP.test(
    st.fixed_dictionaries(
        {
            "pads": sized_list(st.sampled_from([0, 3, 30]), (1, 2, 4, 8, 16)),
            "format": st.sampled_from(["jsonl", "zstd", "parquet"]),
            "blob_size": st.sampled_from([1, 1, 60, 150, 10_000_000]),
            "plan": PLAN,
            "append_retries": st.integers(0, 2),
            "finalize_retries": st.integers(0, 2),
            "fault": FAULT,
            "writer": st.sampled_from(["batch", "batch", "simple"]),
            "report": st.booleans(),  # the caller tells finalize about failures it saw
        }
    ),
    quick=2000,
    thorough=60000,
)
def batches(case, ctx):
    root = ctx.fresh()
    dataset = root + "/ds"
    rows = rows_of(case)
    old = {"n": -1, "pad": "old"}
    frame = f"{dataset}/year_2021/month_05/day_30/as_at_20010101-000000"
    if case["writer"] == "batch":
        put(frame + "/a.jsonl", orjson.dumps(old))
        put(frame + "/frame.complete")
    fault = FAULTS[case.get("fault", 0)]
    FaultyDisk = faulty_disk(fault)
    kind = BatchWriter if case["writer"] == "batch" else Writer
    writer = kind(
        inner_writer=FaultyDisk, dataset=dataset, date=DATE, format=case["format"], schema=SCHEMA,
        blob_size=case["blob_size"],
    )
    FaultyDisk.plan = frozenset(case["plan"])
    taken = {}
    gave_up = False
    for row in rows:
        done, tries, _ = attempt(lambda: writer.append(row), case["append_retries"], fault)
        taken[row["n"]] = (int(done), tries)
        gave_up = gave_up or not done
    told = gave_up and case["report"] and case["writer"] == "batch"
    if told:
        done, tries, _ = attempt(lambda: writer.finalize(has_failure=True), case["finalize_retries"], fault)
    else:
        done, tries, _ = attempt(writer.finalize, case["finalize_retries"], fault)
    failed = FaultyDisk.failed
    got = read(dataset, on=DATE)
    if case["writer"] == "batch":
        nothing_taken = not any(low for low, _ in taken.values())
        if done and not told and not (nothing_taken and got == [old]):
            check(old not in got, "an older frame is read beside the new one", short(got))
            bounds(got, rows, taken, "finalize succeeded")
        else:
            expect_rows(got, [old], "finalize did not succeed, so the previous frame stands")
    elif done:
        bounds(got, rows, taken, "finalize succeeded")
    else:
        bounds(got, rows, {n: (0, high) for n, (_, high) in taken.items()}, "finalize failed")
    if failed and any(low for low, _ in taken.values()):
        ctx.nt(case["format"], case["writer"], "finalized" if done else "finalize failed")
        if tries > 1:
            ctx.label("finalize retried")
        if any(high > 1 for _, high in taken.values()):
            ctx.label("append retried")
    FaultyDisk.over = True


@PROP.test(
    st.fixed_dictionaries(
        {
            "pads": sized_list(st.sampled_from([0, 3, 30]), (1, 2, 4, 8, 16)),
            "format": st.sampled_from(["jsonl", "zstd"]),
            "blob_size": st.sampled_from([1, 60, 10_000_000]),
            "plan": PLAN,
            "append_retries": st.integers(0, 2),
            "finalize_retries": st.integers(0, 2),
            "fault": FAULT,
            "keys": st.integers(1, 4),
        }
    ),
    quick=800,
    thorough=20000,
)
def streams(case, ctx):
    root = ctx.fresh()
    dataset = root + "/ds"
    rows = [{**r, "k": f"k{i % case['keys']}"} for i, r in enumerate(rows_of(case))]
    fault = FAULTS[case.get("fault", 0)]
    FaultyDisk = faulty_disk(fault)
    writer = StreamWriter(
        inner_writer=FaultyDisk, dataset=dataset + "/{k}", date="2021-05-30", format=case["format"], schema=False,
        blob_size=case["blob_size"], idle_timeout_seconds=3600, writer_pool_capacity=100, partitions=None,
    )
    try:
        FaultyDisk.plan = frozenset(case["plan"])
        taken = {}
        for row in rows:
            done, tries, _ = attempt(lambda: writer.append(row), case["append_retries"], fault)
            taken[row["n"]] = (int(done), tries)
        done, tries, _ = attempt(writer.finalize, case["finalize_retries"], fault)
        failed = FaultyDisk.failed
        got = read(dataset, on=DATE, partitions=None)
        if done:
            bounds(got, rows, taken, "finalize succeeded")
        else:
            bounds(got, rows, {n: (0, high) for n, (_, high) in taken.items()}, "finalize failed")
        if failed and any(low for low, _ in taken.values()):
            ctx.nt("finalized" if done else "finalize failed")
            if tries > 1:
                ctx.label("finalize retried")
    finally:
        FaultyDisk.over = True
        writer.run_pool_attendant = False
