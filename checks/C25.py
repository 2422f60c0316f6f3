"""C25 - a database writer hands every record to its database once, in order, and finalizes once, after that."""
import datetime
import gc

import pydantic

from domain import weighted
from harness import Property, Violation, check, same, short
from vhyp import st

from mabel.adapters.database.base_database_writer import BaseDatabaseWriter
from mabel.data import DatabaseWriter

PROP = Property(
    "C25",
    rule="a case is a history of appends (plain records, models, records the schema refuses), commits and finalizes, with "
    "faults in chosen commits and finalizers of the database; a stand-in for the database keeps what it was given and is "
    "compared with a model of the history; non-trivial = more than one frame, or a fault, and at least one record",
    assumptions=[
        "a commit which fails has stored nothing; the record whose append triggered it is accepted",
        "a finalizer which fails is called again by the next finalize",
    ],
)
SCHEMA = [
    {"name": "n", "type": "INTEGER", "nullable": False},
    {"name": "t", "type": "VARCHAR", "nullable": True},
    {"name": "f", "type": "DOUBLE", "nullable": True},
    {"name": "b", "type": "BOOLEAN", "nullable": True},
    {"name": "d", "type": "TIMESTAMP", "nullable": True},
]


class Model(pydantic.BaseModel):
    n: int
    t: str | None = None
    f: float | None = None
    b: bool | None = None
    d: datetime.datetime | None = None


class Fault(Exception):
    pass


# what databases and their drivers raise
KINDS = [Fault, Fault, ConnectionError, TimeoutError, OSError, PermissionError, ValueError, TypeError, KeyError, RuntimeError, NotImplementedError, AttributeError]


RICH = st.fixed_dictionaries(
    {
        "t": st.one_of(st.none(), st.text(max_size=4)),
        "f": st.one_of(st.none(), st.floats(-10, 10)),
        "b": st.one_of(st.none(), st.booleans()),
        "d": st.one_of(st.none(), st.datetimes(datetime.datetime(1990, 1, 1), datetime.datetime(2035, 1, 1)).map(lambda d: d.replace(fold=0))),
    }
)
OP = weighted(
    4,
    st.tuples(st.just("plain"), st.sampled_from([1, 1, 2, 30, 98, 99, 100, 101, 199, 250])),
    4,
    st.tuples(st.just("rich"), RICH),
    1,
    st.tuples(st.just("model"), RICH),
    2,
    st.tuples(st.just("bad"), st.sampled_from(["null", "type", "missing", "text"])),
    1,
    st.tuples(st.just("commit"), st.none()),
    1,
    st.tuples(st.just("finalize"), st.none()),
)
FAULTS = weighted(2, st.just(()), 1, st.lists(st.integers(0, 7), max_size=4, unique=True).map(tuple))
CASE = st.tuples(st.lists(OP, max_size=12), FAULTS, FAULTS, st.booleans(), st.sampled_from(["given", "own", "none"]), st.sampled_from(range(len(KINDS))))


def bad(kind, n):
    row = {"n": n, "t": "bad", "f": None, "b": None, "d": None}
    if kind == "null":
        row["n"] = None
    elif kind == "type":
        row["f"] = "1.5"
    elif kind == "missing":
        del row["n"]
    else:
        row["t"] = 5
    return row


@PROP.test(CASE, quick=900, thorough=40000)
def history(case, ctx):
    ops, commit_faults, final_faults, dropped, finalizer, kind = case
    kind = KINDS[kind]
    events = []  # ("frame", rows) | ("final",)
    calls = {"commit": 0, "final": 0, "ok": 0}

    def final(_):
        calls["final"] += 1
        if calls["final"] - 1 in final_faults:
            raise kind("finalizer")
        calls["ok"] += 1
        events.append(("final", None))

    class Database(BaseDatabaseWriter):
        def commit(self, dataframe):
            calls["commit"] += 1
            if calls["commit"] - 1 in commit_faults:
                raise kind("commit")
            events.append(("frame", [dict(zip(dataframe.column_names, tuple(row))) for row in dataframe]))

        if finalizer == "own":

            def finalize(self):
                if not self.finalized:
                    final(self)
                    self.finalized = True

    options = {"finalizer": final} if finalizer == "given" else {}
    writer = DatabaseWriter(dataset="t", schema=[dict(c) for c in SCHEMA], inner_writer=Database, engine={}, **options)
    accepted = []
    faults = 0
    finalized = False

    def append(record, row):
        nonlocal faults
        accepted.append(row)
        before = calls["commit"]
        try:
            writer.append(record)
        except kind as exc:
            faults += 1
            check(str(exc).strip("'") == "commit" and calls["commit"] - 1 in commit_faults and calls["commit"] == before + 1, "append raised without a fault")
        else:
            check(calls["commit"] == before or calls["commit"] - 1 not in commit_faults, "a fault of a commit was swallowed by append")

    n = 0
    for op, value in [*ops, *([("finalize", None)] * 1)]:
        if op == "plain":
            for _ in range(value):
                row = {"n": n, "t": f"t{n}", "f": None, "b": n % 2 == 0, "d": None}
                append(dict(row), row)
                n += 1
        elif op == "rich":
            append({"n": n, **value}, {"n": n, **value})
            n += 1
        elif op == "model":
            append(Model(n=n, **value), {"n": n, **value})
            n += 1
        elif op == "bad":
            before = calls["commit"]
            try:
                writer.append(bad(value, n))
            except Exception:
                check(calls["commit"] == before, f"a refused record ({value}) triggered a commit")
            else:
                raise Violation(f"a record which does not conform ({value}) was accepted")
        elif op == "commit":
            before = calls["commit"]
            try:
                writer.commit()
                check(calls["commit"] - before <= 1 and (calls["commit"] == before or before not in commit_faults), "a fault of a commit was swallowed by commit")
            except kind as exc:
                check(str(exc).strip("'") == "commit" and before in commit_faults, "commit raised without a fault", repr(exc))
                faults += 1
        else:
            before, final_before = calls["commit"], calls["final"]
            try:
                count = writer.finalize()
                check(count == len(accepted), "finalize returned", count, "after accepting", len(accepted))
                check(calls["commit"] == before or before not in commit_faults, "a fault of a commit was swallowed by finalize")
                check(calls["final"] == final_before or final_before not in final_faults, "a fault of the finalizer was swallowed")
                if finalizer != "none":
                    check(calls["ok"] == 1, "the finalizer completed", calls["ok"], "times after finalize")
                finalized = True
                check(sum(len(rows) for kind, rows in events if kind == "frame") == len(accepted), "records are missing after finalize")
            except Exception as exc:
                faults += 1
                check(before in commit_faults or final_before in final_faults, "finalize raised without a fault", repr(exc))
        check(writer.records == len(accepted), "records is", writer.records, "after accepting", len(accepted))
        stored = [row for kind, rows in events if kind == "frame" for row in rows]
        check(same(stored, accepted[: len(stored)]), "the database was given", short(stored[-3:]), "accepted", short(accepted[max(0, len(stored) - 3) : len(stored)]))
        if not faults:
            check(len(accepted) - len(stored) < 100, "records are kept back", len(accepted) - len(stored))
    frames = [rows for kind, rows in events if kind == "frame"]
    check(all(frames), "an empty frame was committed")
    if not faults:
        check(all(len(rows) <= 100 for rows in frames), "a frame of", max(map(len, frames), default=0))
    if dropped:
        done, ok = len(frames), calls["ok"]
        complete = finalized and sum(map(len, frames)) == len(accepted)
        del writer
        gc.collect()
        if complete:
            check(len([e for e in events if e[0] == "frame"]) == done, "records were committed again after finalize")
            check(calls["ok"] == ok, "the finalizer was called again after finalize")
    if accepted and (len(frames) > 1 or faults):
        ctx.nt("fault" if faults else "frames")


PROP.regress(
    "history",
    ([("plain", 5000), ("commit", None), ("plain", 150), ("finalize", None)], (), (), True, "given", 0),
    ([("plain", 12_050), ("rich", {"t": "x" * 100_000, "f": 1.5, "b": True, "d": None}), ("plain", 99)], (40, 41), (), True, "own", 0),
)
