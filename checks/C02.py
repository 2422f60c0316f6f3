"""C02 - a reader sees, per date, exactly the newest complete frame and nothing else."""
import datetime

from domain import sized_list, weighted
from harness import Property, expect_rows, frozen
from store import put, read
from vhyp import st

from mabel.adapters.disk import DiskWriter
from mabel.data import BatchWriter

PROP = Property(
    "C02",
    rule="a case is a history of operations (open a batch for one of three dates, append, finalize with or "
    "without a failure, finalize again, abandon without finalizing, put a frame.ignore flag, move the clock, read) "
    "run against the real BatchWriter / Reader on disk and against a model of frames; reads are compared after "
    "every step; non-trivial = some read had at least two frames to choose from on one date",
    assumptions=[
        "two batches of one dataset and date are not opened within the same second (frame names have a "
        "resolution of one second: recorded as a known finding)",
        "abandoning a writer is a Python object being dropped, so what it buffered may or may not be on disk",
    ],
)

BASE = datetime.date(2021, 5, 30)
PARTITIONS = ["year_{yyyy}/month_{mm}/day_{dd}"]

WHICH = st.sampled_from([0, 0, 0, 1, 2])
OPEN = st.tuples(
    st.just("open"),
    WHICH,  # which date
    st.sampled_from([1, 30, 10_000_000]),  # blob size
    st.booleans(),  # always_complete
    st.sampled_from(["jsonl", "zstd"]),
)
WHO = st.integers(0, 5)
OPS = weighted(
    4, OPEN,
    4, st.tuples(st.just("append"), WHO, st.integers(1, 4)),
    4, st.tuples(st.just("finalize"), WHO, st.sampled_from([None, False, False, True])),
    # a whole batch at once
    2, st.tuples(st.just("batch"), WHICH, st.integers(0, 3), st.booleans(), st.booleans()),
    2, st.tuples(st.just("batch"), WHICH, st.integers(1, 3), st.just(False), st.booleans()),
    # finalized again, the exception may have gone by then
    1, st.tuples(st.just("again"), WHICH, st.integers(0, 2), st.booleans(), st.lists(st.sampled_from([None, False, True]), min_size=2, max_size=3)),
    1, st.tuples(st.just("abandon"), WHO),
    1, st.tuples(st.just("ignore"), WHO),
    1, st.tuples(st.just("unignore"), WHO),
    1, st.tuples(st.just("clock"), st.sampled_from([1, 7, 3600, 86400])),
)


class Frame:
    def __init__(self, date, writer, always):
        self.date = date
        self.writer = writer
        self.always = always
        self.rows = []
        self.path = writer.dataset.rstrip("/")
        self.complete = False
        self.failed = False
        self.ignored = False
        self.closed = False


@PROP.test(
    st.fixed_dictionaries(
        {
            "ops": sized_list(OPS, (2, 4, 6, 9, 12, 16)),
            "start": st.sampled_from(
                ["2021-06-01 12:00:00", "2021-12-31 23:59:57", "2021-09-30 23:59:59", "2020-02-29 09:59:58"]
            ),
            "partitions": st.sampled_from([PARTITIONS, ["{yyyy}/{mm}/{dd}"]]),
        }
    ),
    quick=2000,
    thorough=60000,
)
def history(case, ctx):
    dataset = ctx.fresh() + "/ds"
    frames = []
    serial = [0]

    with frozen(case["start"], case, tick=True) as clock:
        try:
            def op_open(which, blob_size, always, fmt):
                clock.tick(datetime.timedelta(seconds=case.get("apart", 1.001)))
                writer = BatchWriter(
                    inner_writer=DiskWriter, dataset=dataset, format=fmt, schema=False, blob_size=blob_size,
                    date=BASE + datetime.timedelta(days=which), partitions=case["partitions"], always_complete=always,
                )
                frames.append(Frame(which, writer, always))
                return frames[-1]

            def op_append(frame, count):
                for _ in range(count):
                    serial[0] += 1
                    row = {"n": serial[0], "pad": "x" * (serial[0] % 7)}
                    frame.writer.append(row)
                    frame.rows.append(row)

            def op_finalize(frame, failure):
                if failure is None:
                    frame.writer.finalize()
                else:
                    frame.writer.finalize(has_failure=failure)
                frame.closed = True
                if failure:
                    frame.failed = True
                if not frame.failed and (frame.rows or frame.always):
                    frame.complete = True

            for op in case["ops"]:
                kind = op[0]
                if kind == "clock":
                    clock.tick(datetime.timedelta(seconds=op[1]))
                    continue
                if kind == "open":
                    op_open(*op[1:])
                elif kind == "batch":
                    frame = op_open(op[1], 10_000_000, op[4], "jsonl")
                    op_append(frame, op[2])
                    op_finalize(frame, op[3])
                elif kind == "again":
                    frame = op_open(op[1], 10_000_000, op[3], "jsonl")
                    op_append(frame, op[2])
                    for failure in op[4]:
                        op_finalize(frame, failure)
                elif frames:
                    frame = frames[op[1] % len(frames)]
                    if kind == "append" and not frame.closed:
                        op_append(frame, op[2])
                    elif kind == "finalize" and frame.writer is not None:
                        op_finalize(frame, op[2])
                    elif kind == "abandon" and frame.writer is not None:
                        if not frame.closed:
                            # the process went away: no flag may ever appear for it
                            ctx.label("abandoned")
                        frame.writer = None
                        frame.closed = True
                    elif kind == "ignore":
                        put(frame.path + "/frame.ignore")
                        frame.ignored = True
                    elif kind == "unignore" and frame.ignored:
                        import os

                        os.remove(frame.path + "/frame.ignore")
                        frame.ignored = False
                observe(case, ctx, dataset, frames)
        finally:
            for frame in frames:
                frame.writer = None


def observe(case, ctx, dataset, frames):
    everything = []
    for which in range(3):
        day = BASE + datetime.timedelta(days=which)
        mine = [f for f in frames if f.date == which]
        visible = [f for f in mine if f.complete and not f.ignored]
        expected = visible[-1].rows if visible else []
        everything += expected
        if len([f for f in mine if f.rows]) >= 2:
            ctx.nt()
            if any(f.failed for f in mine):
                ctx.label("has failed frame")
            if any(f.ignored for f in mine):
                ctx.label("has ignored frame")
            if visible and mine[-1] is not visible[-1]:
                ctx.label("newest frame is not visible")
        if mine:
            got = read(dataset, on=day.isoformat(), partitions=case["partitions"])
            expect_rows(got, expected, f"day {which} with {len(mine)} frames", ordered=False)
    got = read(
        dataset,
        start_date=BASE.isoformat(),
        end_date=(BASE + datetime.timedelta(days=2)).isoformat(),
        partitions=case["partitions"],
    )
    expect_rows(got, everything, "the whole range", ordered=False)


PROP.known(
    "same-second-frames",
    "history",
    {
        "ops": [("batch", 0, 1, True, False), ("batch", 0, 1, False, False)],
        "start": "2021-06-01 12:00:00",
        "partitions": PARTITIONS,
        "apart": 0,
    },
)


# frames as other writers (or split jobs, which name their frame) may have left them
FRAME_NAMES = [
    "as_at_20210530-000000", "as_at_20210530-235959", "as_at_20210531-000000", "as_at_20210530-000000-b", "as_at_1",
    "as_at_10", "as_at_100", "as_at_2", "as_at_", "as_at_b",
]


@PROP.test(
    st.fixed_dictionaries(
        {
            "frames": st.lists(
                st.tuples(
                    st.sampled_from(FRAME_NAMES),
                    st.lists(st.sampled_from(["0", "1", "part/2", "as_at_inner/3"]), max_size=3, unique=True),
                    st.sampled_from([True, True, False]),  # complete
                    st.sampled_from([False, False, True]),  # ignored
                ),
                min_size=1,
                max_size=5,
                unique_by=lambda f: f[0],
            ),
            "backout": st.booleans(),
            "name": st.sampled_from(["ds", "as_at_close", "x.frame.complete/ds", "ds_as_at_1"]),
            "flag": st.sampled_from([b"", b'{"rows": 1}']),
        }
    ),
    quick=500,
    thorough=15000,
)
def names(case, ctx):
    """Which frame is the newest goes by their names, of which one may be the start of another."""
    root = f"{ctx.fresh()}/{case['name']}"
    rows, visible = {}, []
    for i, (name, blobs, complete, ignored) in enumerate(case["frames"]):
        at = f"{root}/year_2021/month_05/day_30/{name}"
        rows[name] = [{"frame": i, "blob": b} for b in blobs]
        for row in rows[name]:
            put(f"{at}/{row['blob']}.jsonl", b'{"frame": %d, "blob": "%s"}\n' % (i, row["blob"].encode()))
        if case["backout"]:
            put(f"{at}/BACKOUT/0.jsonl", b'{"frame": "backout"}\n')
        if complete:
            put(f"{at}/frame.complete", case["flag"])
        if ignored:
            put(f"{at}/frame.ignore", case["flag"])
        if complete and not ignored:
            visible.append(name)
    got = read(root, on="2021-05-30", partitions=PARTITIONS)
    expect_rows(got, rows[max(visible)] if visible else [], f"frames {case['frames']}", ordered=False)
    if len(case["frames"]) > 1:
        ctx.nt()


@PROP.test(
    st.fixed_dictionaries(
        {
            "frames": st.sampled_from([7, 11, 24, 60, 150]),
            # how many of the newest have not come to anything, and the odd one among the others
            "bad": st.sampled_from([0, 1, 5, 8, 11, 23, 59, 149, 150]),
            "states": st.lists(st.sampled_from(["incomplete", "ignored", "empty", "ignored incomplete"]), min_size=1, max_size=4),
            "blobs": st.sampled_from([1, 1, 3, 40, 120]),
        }
    ),
    quick=60,
    thorough=1500,
)
def many(case, ctx):
    """however often a batch has failed since, the last one which was good is read"""
    root = ctx.fresh() + "/ds"
    expected = []
    for i in range(case["frames"]):
        at = f"{root}/year_2021/month_05/day_30/as_at_20210601-{i // 60:02d}{i % 60:02d}00"
        good = i < case["frames"] - case["bad"]
        state = "complete" if good else case["states"][i % len(case["states"])]
        rows = []
        for b in range(case["blobs"] if i > case["frames"] - case["bad"] - 4 else 1):
            rows.append({"frame": i, "blob": b})
            if state != "empty":
                put(f"{at}/b{b:03d}.jsonl", b'{"frame": %d, "blob": %d}\n' % (i, b))
        if "incomplete" not in state and state != "empty":
            put(f"{at}/frame.complete")
        if "ignored" in state or state == "empty":
            put(f"{at}/frame.ignore")
        if good:
            expected = rows
    got = read(root, on="2021-05-30", partitions=PARTITIONS)
    expect_rows(got, expected, f"{case['frames']} frames, the newest {case['bad']} not to be read", ordered=False)
    if 0 < case["bad"] < case["frames"]:
        ctx.nt()


PROP.regress(
    "many",
    {"frames": 24, "bad": 11, "states": ["incomplete"], "blobs": 1},
    {"frames": 150, "bad": 149, "states": ["ignored", "incomplete"], "blobs": 120},
)
