"""C15 - distinct keeps exactly the first of every set of equal records."""
from domain import TEXT, WORD, sized_list, weighted
from harness import Property, canon, check, expect_rows
from vhyp import st

from mabel.data import STORAGE_CLASS
from mabel.data.internals.dictset import DictSet

PROP = Property(
    "C15",
    rule="a case is a list of records drawn from a small pool (equal ones, ones differing in a field name, in a type, in "
    "one value, in the order of fields), optionally the columns to compare, and a storage class; the result is compared "
    "with a quadratic reference; non-trivial = at least one record is dropped and at least one kept after it; and long sets (up to 65 thousand distinct "
    "records) where a few come again, near and far",
    assumptions=[
        "values which Python holds equal across types (1, 1.0, True) do not occur together in one column",
        "a record which lacks a field is not compared with one where that field is null (either answer is accepted)",
    ],
)

CLASSES = [STORAGE_CLASS.NO_PERSISTANCE, STORAGE_CLASS.MEMORY, STORAGE_CLASS.DISK, STORAGE_CLASS.COMPRESSED_MEMORY]
VALUES = ["1", 1, 2, "2", "a", "ab", "b", "", "c", "bc", "0,1", "None", "True", "a,b", ["a", "b"], ["a,b"], "['a', 'b']", "$$", "-1", -1]
VALUE = weighted(8, st.sampled_from(VALUES), 1, WORD, 1, TEXT)
NESTED = st.recursive(TEXT, lambda kids: st.one_of(st.lists(kids, max_size=2), st.dictionaries(WORD, kids, max_size=2)), max_leaves=4)
WIDE = ["a", "b", "c", "ab", "d", "e", "A"]
CASED = st.sampled_from(["a", "A", " a", "\u00e9", "\u00c9", "ab", "AB", "aB", "x" * 300, "x" * 299 + "y", "x" * 299 + "X"])
ROW = st.dictionaries(st.sampled_from(["a", "b", "c", "ab"]), VALUE, max_size=4)


@st.composite
def tables(draw):
    kind = draw(st.sampled_from(["free", "full", "nested", "nulls", "wide", "cased"]))
    if kind == "free":
        row = ROW
    elif kind == "wide":
        # all alike but for one of many fields
        base = draw(st.fixed_dictionaries({c: VALUE for c in WIDE}))
        row = st.tuples(st.sampled_from(WIDE), VALUE).map(lambda p: {**base, p[0]: p[1]})
    elif kind == "cased":
        row = st.dictionaries(st.sampled_from(["a", "b", "A"]), CASED, min_size=1, max_size=2)
    elif kind == "nested":
        row = st.fixed_dictionaries({"a": NESTED, "b": VALUE})
    elif kind == "nulls":
        row = st.fixed_dictionaries({"a": st.one_of(st.none(), VALUE), "b": st.one_of(st.none(), VALUE)})
    else:
        row = st.fixed_dictionaries({"a": VALUE, "b": VALUE, "c": st.sampled_from([1, 2])})
    pool = draw(st.lists(row, min_size=1, max_size=6))
    order = draw(sized_list(st.tuples(st.integers(0, len(pool) - 1), st.booleans()), (0, 1, 2, 4, 8, 16)))
    rows = []
    for i, flip in order:
        items = list(pool[i].items())
        rows.append(dict(reversed(items)) if flip else dict(items))
    columns = draw(st.one_of(st.just(()), st.lists(st.sampled_from(["a", "b", "c"]), min_size=1, max_size=3, unique=True).map(tuple)))
    if kind == "wide" and draw(st.booleans()):
        columns = tuple(draw(st.permutations(WIDE))[: draw(st.integers(3, 7))])
    return kind, rows, columns, draw(st.integers(0, 3))


@PROP.test(tables(), quick=3000, thorough=200000)
def distinct(case, ctx):
    kind, rows, columns, storage = case
    ds = DictSet(list(rows), storage_class=CLASSES[storage])
    first = ds.distinct(*columns)
    whole = list(ds.distinct())
    got = list(first)
    seen, expected = set(), []
    for row in rows:
        key = canon(row if not columns else {c: row[c] for c in columns if c in row})
        if key not in seen:
            seen.add(key)
            expected.append(row)
    expect_rows(got, expected, f"distinct{columns}")
    expect_rows(list(ds.distinct(*columns)), expected, f"distinct{columns} of the same set again")
    if not columns:
        expect_rows(whole, expected, "distinct() of the same set")
    if 1 < len(expected) < len(rows):
        ctx.nt(kind, "columns" if columns else "whole records")


@PROP.test(
    st.fixed_dictionaries(
        {
            "distinct": weighted(2, st.integers(200, 2000), 2, st.integers(2000, 20000), 1, st.sampled_from([1023, 1024, 1025, 4097, 8193, 65537])),
            "kind": st.sampled_from(["numbers", "text", "records", "lists"]),
            "again": st.lists(st.tuples(st.floats(0, 1), st.floats(0, 1)), min_size=1, max_size=12),
            "columns": st.booleans(),
        }
    ),
    quick=60,
    thorough=2500,
)
def distinct_of_many(case, ctx):
    """However many records lie between them, the second of two equal records is dropped."""
    make = {
        "numbers": lambda i: {"a": i, "b": 1},
        "text": lambda i: {"a": f"item {i}", "b": i % 7},
        "records": lambda i: {"b": i % 3, "a": {"k": [i]}},
        "lists": lambda i: {"a": [i, str(i)], "b": None},
    }[case["kind"]]
    size = case["distinct"]
    order = list(range(size))
    for which, where in case["again"]:
        # the record again, somewhere after it
        which = int(which * (size - 1))
        order.insert(order.index(which) + 1 + int(where * (len(order) - order.index(which) - 1)), which)
    rows = [make(i) for i in order]
    got = list(DictSet(iter(rows), storage_class=STORAGE_CLASS.NO_PERSISTANCE).distinct(*(["a"] if case["columns"] else [])))
    check(len(got) == size and all(g == make(i) for i, g in enumerate(got)), "distinct of many", f"{len(order)} records, {size} of them distinct: {len(got)} came back")
    ctx.nt(case["kind"])


PROP.regress(
    "distinct",
    ("free", [{"a": "1"}, {"b": "1"}, {"a": 1}], (), 1),
    ("free", [{"a": "ab", "b": "c"}, {"a": "a", "b": "bc"}], ("a", "b"), 1),
    ("free", [{"a": 1, "b": 2}, {"b": 2, "a": 1}], (), 0),
)
