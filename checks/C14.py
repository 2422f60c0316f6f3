"""C14 - sort_and_take returns the first records of the sorted set, whatever the storage class."""
import datetime

from domain import FLOAT, INT64, TEXT, WORD, bulk, sized_list
from harness import Property, expect_rows
from vhyp import st

from mabel.data import STORAGE_CLASS
from mabel.data.internals.dictset import DictSet

PROP = Property(
    "C14",
    rule="a case is a list of records whose sort column holds one kind of value (numbers, text, dates) with ties, nulls "
    "and records without it, a storage class, a direction and how many to take; compared with Python's stable sort of "
    "the list; non-trivial = more records than are taken and at least two distinct values",
    assumptions=["the sort column holds values which can be compared, or null", "nulls and missing values sort before any value (after, when descending)"],
)

CLASSES = [STORAGE_CLASS.NO_PERSISTANCE, STORAGE_CLASS.MEMORY, STORAGE_CLASS.DISK, STORAGE_CLASS.COMPRESSED_MEMORY]
KINDS = [
    st.integers(-2, 3),
    INT64,
    FLOAT,
    st.one_of(st.integers(-2, 2), st.floats(-2, 2)),
    st.sampled_from(["", "a", "b", "A", "aa"]),
    TEXT,
    st.booleans(),
    st.lists(WORD, max_size=2),
]
UNSTORED = [st.dates(datetime.date(2020, 1, 1), datetime.date(2020, 1, 9)), st.datetimes(), st.decimals(-3, 3, places=1)]


@st.composite
def sortable(draw):
    storage = draw(st.integers(0, 3))
    kinds = KINDS + UNSTORED if storage < 2 else KINDS
    value = draw(st.sampled_from(kinds))
    gaps = draw(st.sampled_from(["none", "null", "missing", "both"]))
    if gaps in ("null", "both"):
        value = st.one_of(st.none(), value)
    rows = draw(sized_list(st.tuples(st.booleans() if gaps in ("missing", "both") else st.just(False), value), (0, 1, 2, 4, 9, 20, 45, 90)))
    rows = [{"id": i} if missing else {"id": i, "k": v} for i, (missing, v) in enumerate(rows)]
    take = draw(st.one_of(st.integers(0, 6), st.integers(0, 50), st.just(5000)))
    return storage, rows, take, draw(st.booleans()), draw(st.sampled_from(["list", "generator"]))


@PROP.test(sortable(), quick=4000, thorough=200000)
def sort_and_take(case, ctx):
    storage, rows, take, descending, source = case
    ds = DictSet(list(rows) if source == "list" else iter(list(rows)), storage_class=CLASSES[storage])
    args = {} if take == 5000 else {"take": take}
    got = list(ds.sort_and_take("k", descending=descending, **args))
    expected = sorted(rows, key=lambda r: (r.get("k") is not None, r.get("k")), reverse=descending)[:take]
    # ties may come in any order among themselves: their keys have to agree, and
    # the records have to be distinct ones of the input
    keys = lambda some: [(("k" in r and r["k"] is not None), r.get("k")) for r in some]
    expect_rows(keys(got), keys(expected), f"sorted by k {'descending' if descending else 'ascending'}, first {take}")
    ids = [r["id"] for r in got]
    expect_rows([rows[i] for i in ids], got, "records changed by sorting")
    expect_rows(sorted(set(ids)), sorted(ids), "a record was returned more than once")
    if len(rows) > take > 0 and len({repr(r.get("k")) for r in rows}) > 1:
        ctx.nt(CLASSES[storage].name)
    if take and len(rows) > 2 * take + 2:
        ctx.label("needs pruning")


@PROP.test(
    st.fixed_dictionaries(
        {
            "count": st.sampled_from([500, 2100, 4097, 9000, 20_001]),
            "take": st.sampled_from([1, 100, 999, 2049, 4097, 5000, 6000]),
            "descending": st.booleans(),
            "class": st.integers(0, 3),
            "key": st.sampled_from(["n", "v", "scattered", "back"]),
        }
    ),
    quick=60,
    thorough=2000,
)
def sizes(case, ctx):
    """many records, many of them taken"""
    rows = [{**r, "scattered": r["n"] * 7919 % case["count"], "back": -r["n"]} for r in bulk(case["count"])]
    take, key = case["take"], case["key"]
    got = list(DictSet(list(rows), storage_class=CLASSES[case["class"]]).sort_and_take(key, take=take, descending=case["descending"]))
    expected = sorted(rows, key=lambda r: r[key], reverse=case["descending"])[:take]
    expect_rows([len(got)], [len(expected)], f"how many of {len(rows)} records are taken")
    wrong = [(g, r) for g, r in zip([g[key] for g in got], [r[key] for r in expected]) if g != r][:2]
    expect_rows([g for g, _ in wrong], [r for _, r in wrong], f"the first keys which differ, sorted by {key}")
    expect_rows([rows[r["n"]] for r in got if rows[r["n"]] != r][:2], [], "records changed by sorting")
    expect_rows([len({r["n"] for r in got})], [len(got)], "a record was returned more than once")
    if take < len(rows):
        ctx.nt()


PROP.regress(
    "sizes",
    *[{"count": 20_001, "take": 5000, "descending": d, "class": 1, "key": k} for d in (True, False) for k in ("n", "back", "scattered")],
)
