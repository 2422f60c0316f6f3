"""C21 - flattened records keep every value, under the path that leads to it."""
import datetime

from domain import FIELD, SCALAR, sized_list, weighted
from harness import Property, check, expect_rows, same, short
from store import read
from vhyp import st

from mabel.adapters.disk import DiskWriter
from mabel.data import BatchWriter
from mabel.data.internals.records import flatten

PROP = Property(
    "C21",
    rule="a case is a list of nested records (objects in lists in objects), flattened directly with one of several "
    "separators, or written by a batch writer in the `flat` format and read back; compared with a walk over the record; "
    "non-trivial = some value lies at least two levels deep",
    assumptions=["field names do not contain the separator", "empty lists and objects hold no value, so they leave nothing"],
)

NAME = FIELD.map(lambda f: f.replace(".", ""))
NAME = weighted(9, NAME, 1, st.sampled_from(["", "0", "1"]))
NESTED = st.recursive(
    SCALAR, lambda kids: st.one_of(st.lists(kids, max_size=3), st.dictionaries(NAME, kids, max_size=3)), max_leaves=8
)
RECORD = st.dictionaries(NAME, NESTED, max_size=4)


def walk(value, path=()):
    if isinstance(value, dict):
        for k, v in value.items():
            yield from walk(v, path + (k,))
    elif isinstance(value, list):
        for i, v in enumerate(value):
            yield from walk(v, path + (str(i),))
    else:
        yield path, value


def depth(record):
    return max([len(p) for p, _ in walk(record)], default=0)


@PROP.test(st.tuples(RECORD, st.sampled_from([".", ".", "__", ">", " / "])), quick=3000, thorough=200000)
def direct(case, ctx):
    record, separator = case
    if separator != "." and any(separator[0] in k for path, _ in walk(record) for k in path):
        return
    before = repr(record)
    got = flatten(record) if separator == "." else flatten(record, separator)
    expected = {separator.join(path): value for path, value in walk(record)}
    check(same(got, expected), "flatten", short(got), short(expected))
    check(repr(record) == before, "flatten changed its argument")
    if depth(record) > 1:
        ctx.nt("list" if any(isinstance(v, list) for v in record.values()) else "objects")


@PROP.test(
    st.tuples(
        st.sampled_from([5, 9, 17, 40, 90]),
        st.lists(st.sampled_from(["a", "bb", 0, 1, 2]), min_size=1, max_size=4),
        st.sampled_from([1, 1, 11, 120, 1500]),
        st.sampled_from([".", "__"]),
        SCALAR,
    ),
    quick=60,
    thorough=3000,
)
def deep(case, ctx):
    """long lists, and values many levels down"""
    levels, steps, wide, separator, value = case
    record = [value] * wide if wide > 1 else value
    for i in range(levels):
        step = steps[i % len(steps)]
        record = {step: record, "x": i} if isinstance(step, str) else ["x"] * step + [record]
    record = {"top": record, "next": {f"f{i}": i for i in range(wide)}}
    got = flatten(record, separator)
    check(same(got, {separator.join(path): v for path, v in walk(record)}), "flatten", short(got))
    ctx.nt("deep")


PROP.regress("deep", (90, ["a"], 120, ".", 1), (90, [1, "a"], 1500, ".", None), (40, [2], 11, "__", "x"))
PROP.regress("direct", ({"": {"a": 1}, "a": 2}, "."), ({"a": [1, 2], "b": [3, {"c": [4]}]}, "."))


@PROP.test(st.tuples(sized_list(RECORD, (1, 2, 5, 9)), st.sampled_from([1, 50, 10_000_000])), quick=800, thorough=20000)
def flat_format(case, ctx):
    records, blob_size = case
    root = ctx.fresh()
    date = datetime.date(2021, 5, 30)
    writer = BatchWriter(
        inner_writer=DiskWriter, dataset=f"{root}/ds", date=date, format="flat", blob_size=blob_size, schema=False,
    )
    for record in records:
        writer.append(record)
    writer.finalize()
    got = read(f"{root}/ds", on=date)
    expected = [{".".join(p): v for p, v in walk(r)} for r in records]
    expect_rows(got, expected, "records read back from the flat format", ordered=False)
    if any(depth(r) > 1 for r in records):
        ctx.nt("flat format")
