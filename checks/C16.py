"""C16 - grouping puts every record in exactly one group and aggregates exactly its members."""
import datetime
from decimal import Decimal
from fractions import Fraction

from domain import FLOAT, TEXT, bulk, sized_list, weighted
from harness import Property, Violation, canon, check, same, short
from vhyp import st

from mabel.data import STORAGE_CLASS
from mabel.data.internals.dictset import DictSet

PROP = Property(
    "C16",
    rule="a case is a list of records, one to three grouping columns whose values resemble each other when put together, "
    "and a list of aggregations (MIN, MAX, SUM, COUNT, AVG, repeated, several per column, COUNT(*)) over columns with "
    "zeros, negatives, nulls and gaps; compared with a reference; non-trivial = at least two groups, one of which has "
    "two or more members",
    assumptions=[
        "a missing grouping value is a null; nulls do not take part in aggregations other than COUNT(*)",
        "sums and averages are compared as exact fractions with a relative tolerance of 1e-12",
        "values equal across types (1, 1.0, True) do not occur together in a grouping column",
    ],
)

KEYS = ["a", "ab", "b", "c", "bc", "", "1", 1, 11, "11", "None", None, "a,b", "nul", ["a"], "['a']"]
KEY = weighted(10, st.sampled_from(KEYS), 1, TEXT)
NUMBER = weighted(3, st.integers(-3, 3), 1, st.just(0), 1, st.integers(-(2**63), 2**63 - 1))
MEASURES = {
    "integers": NUMBER,
    "floats": weighted(2, st.sampled_from([0.0, -1.5, 0.1, 2.5]), 1, FLOAT.filter(lambda f: abs(f) < 1e15)),
    "numbers": st.one_of(st.integers(-5, 5), st.floats(-5, 5)),
}
TEXTUAL = {
    "text": st.one_of(TEXT, st.sampled_from(["", "a", "b"])),
    "dates": st.dates(datetime.date(2020, 1, 1), datetime.date(2020, 3, 1)),
    "booleans": st.booleans(),
}


@st.composite
def tables(draw):
    columns = draw(st.lists(st.sampled_from(["g", "h", "G"]), min_size=1, max_size=3, unique=True))
    kind = draw(st.sampled_from(sorted(MEASURES) * 2 + sorted(TEXTUAL)))
    value = {**MEASURES, **TEXTUAL}[kind]
    fields = {c: KEY for c in columns}
    optional = {}
    gaps = draw(st.booleans())
    if gaps:
        optional = {"v": st.one_of(st.none(), value), "w": NUMBER, "W": NUMBER}
    else:
        fields.update(v=value, w=NUMBER, W=NUMBER)
    if draw(st.booleans()):
        optional[columns[0]] = fields.pop(columns[0])
    pool = draw(st.lists(st.fixed_dictionaries({c: KEY for c in columns}), min_size=1, max_size=3))
    row = st.fixed_dictionaries(fields, optional=optional)
    rows = draw(sized_list(st.tuples(row, st.one_of(st.none(), st.integers(0, len(pool) - 1))), (1, 2, 4, 8, 16, 40)))
    rows = [r if p is None else {**r, **pool[p]} for r, p in rows]
    functions = ["MIN", "MAX", "COUNT"] + (["SUM", "AVG"] if kind in MEASURES else [])
    aggregation = st.one_of(
        st.tuples(st.sampled_from(functions), st.just("v")),
        st.tuples(st.sampled_from(["MIN", "MAX", "COUNT", "SUM", "AVG"]), st.sampled_from(["w", "w", "W"])),
        st.just(("COUNT", "*")),
    )
    return kind, columns, rows, draw(st.lists(aggregation, min_size=1, max_size=5)), draw(st.integers(0, 1))


def reference(columns, rows):
    groups = {}
    for row in rows:
        groups.setdefault(canon([row.get(c) for c in columns]), []).append(row)
    return groups


def close(got, exact, scale):
    if isinstance(got, bool) or not isinstance(got, (int, float, Decimal)):
        return False
    return abs(Fraction(got) - exact) <= scale * Fraction(1, 10**12)


def check_value(func, col, got, members, where):
    values = [r[col] for r in members if r.get(col) is not None] if col != "*" else members
    if func == "COUNT":
        check(got == len(values) and type(got) is int, f"COUNT({col}) {where}", got, len(values))
    elif not values:
        check(got is None, f"{func}({col}) of nothing {where}", got)
    elif func in ("MIN", "MAX"):
        expected = min(values) if func == "MIN" else max(values)
        check(got == expected and any(same(got, v) for v in values), f"{func}({col}) {where}", short(got), short(expected))
    else:
        total = sum((Fraction(v) for v in values), Fraction(0))
        scale = max(sum(abs(Fraction(v)) for v in values), Fraction(1, 10**300))
        if func == "AVG":
            total, scale = total / len(values), scale / len(values)
        check(close(got, total, scale), f"{func}({col}) {where}", short(got), float(total))


def match(columns, rows, results, verify):
    groups = reference(columns, rows)
    for result in results:
        key = canon([result.get(c) for c in columns])
        check(all(c in result for c in columns), "a group does not carry its columns", short(result))
        members = groups.pop(key, None)
        if members is None:
            raise Violation(f"a group which is not in the data, or twice: {short(result)}")
        verify(result, members)
    check(not groups, "groups are missing", short(list(groups.values())))


def nontrivial(columns, rows):
    sizes = [len(m) for m in reference(columns, rows).values()]
    return len(sizes) > 1 and max(sizes) > 1


@PROP.test(tables(), quick=4000, thorough=200000)
def aggregate(case, ctx):
    kind, columns, rows, aggregations, storage = case
    storage = [STORAGE_CLASS.NO_PERSISTANCE, STORAGE_CLASS.MEMORY][storage]
    asked = list(aggregations)
    spec = columns[0] if len(columns) == 1 else tuple(columns)
    results = list(DictSet([dict(r) for r in rows], storage_class=storage).group_by(spec).aggregate(asked))
    check(asked == list(aggregations), "the caller's list of aggregations was changed", asked)

    def verify(result, members):
        wanted = {f"{f}({c})" for f, c in aggregations} | set(columns)
        check(set(result) == wanted, "columns of the result", short(result))
        for func, col in aggregations:
            check_value(func, col, result[f"{func}({col})"], members, f"in group of {short(members, 600)}")

    match(columns, rows, results, verify)
    if nontrivial(columns, rows):
        ctx.nt(kind)
        if len({c for _, c in aggregations}) < len(set(aggregations)):
            ctx.label("several of one column")
        if any(f == "AVG" for f, _ in aggregations):
            ctx.label("AVG")


PROP.regress(
    "aggregate",
    ("integers", ["g"], [{"g": "a", "v": 0}, {"g": "a", "v": 5}, {"g": "a", "v": 0}, {"g": "a", "v": -5}], [("MIN", "v"), ("MAX", "v")], 1),
    ("integers", ["g"], [{"g": "a", "v": 1}, {"g": "a", "v": 5}], [("SUM", "v"), ("AVG", "v"), ("COUNT", "v"), ("SUM", "v")], 1),
    ("integers", ["g", "h"], [{"g": "ab", "h": "c"}, {"g": "a", "h": "bc"}], [("COUNT", "*")], 1),
    ("integers", ["g"], [{"g": None, "v": None}, {"g": "None"}, {"v": 3}], [("AVG", "v"), ("COUNT", "v"), ("MAX", "v")], 1),
)


@PROP.test(
    st.tuples(tables(), st.sampled_from(["max", "min", "sum", "average", "count", "groups"]), st.sampled_from(["text", "list", "tuple", "set"])),
    quick=1000,
    thorough=40000,
)
def shorthand(case, ctx):
    """the named methods are the aggregations they stand for"""
    (kind, columns, rows, _, _), method, way = case
    wanted = ["w", "v"] if kind in MEASURES and way != "text" else ["w"]
    asked = {"text": "w", "list": wanted, "tuple": tuple(wanted), "set": set(wanted)}[way]
    by = columns[0] if len(columns) == 1 and way == "text" else tuple(columns) if way == "tuple" else list(columns)
    group = DictSet([dict(r) for r in rows], storage_class=STORAGE_CLASS.MEMORY).group_by(by)
    if method in ("count", "groups"):
        results = list(getattr(group, method)())
    else:
        results = list(getattr(group, method)(asked))
    func = {"max": "MAX", "min": "MIN", "sum": "SUM", "average": "AVG", "count": "COUNT"}.get(method)
    wanted = ["*"] if method == "count" else wanted

    def verify(result, members):
        if func:
            for col in wanted:
                check_value(func, col, result[f"{func}({col})"], members, "shorthand")
            check(len(result) == len(columns) + len(wanted), "columns of the result", short(result))
        else:
            check(set(result) == set(columns), "groups() gives more than the groups", short(result))

    match(columns, rows, results, verify)
    if nontrivial(columns, rows):
        ctx.nt(method)


@PROP.test(
    st.fixed_dictionaries(
        {
            "count": st.sampled_from([300, 2500, 12_000]),
            "groups": st.sampled_from([1, 2, 101, 1009, 5003, 100_003]),
            "columns": st.sampled_from([("k",), ("k", "w"), ("k", "n2", "w")]),
            # long texts are told apart by where they differ
            "width": st.sampled_from([0, 0, 1030, 5000]),
            "end": st.booleans(),
            "storage": st.integers(0, 1),
        }
    ),
    quick=60,
    thorough=2000,
)
def sizes(case, ctx):
    """many records, many groups, long values"""
    count = case["count"] if not case["width"] else min(case["count"], 1200)
    rows = bulk(count, groups=case["groups"])
    pad = "long " * (case["width"] // 5)
    for row in rows:
        row["w"] = row["n"] % 3
        row["n2"] = row["n"] % 2
        if pad:
            row["k"] = pad + row["k"] if case["end"] else row["k"] + pad
    columns = list(case["columns"])
    group = DictSet(rows, storage_class=[STORAGE_CLASS.NO_PERSISTANCE, STORAGE_CLASS.MEMORY][case["storage"]]).group_by(columns)
    asked = [("SUM", "v"), ("MIN", "v"), ("MAX", "n"), ("COUNT", "*"), ("AVG", "v")]
    model = {}
    for row in rows:
        model.setdefault(tuple(row[c] for c in columns), []).append(row)
    got = list(group.aggregate(asked))
    check(len(got) == len(model), f"{len(got)} groups where there are {len(model)}")
    for result in got:
        members = model.pop(tuple(result[c] for c in columns), None)
        check(members is not None, "a group which is not in the data, or twice", short(result))
        for func, col in asked:
            check_value(func, col, result[f"{func}({col})"], members, f"of {len(members)} records")
    if 1 < len(got):
        ctx.nt()


PROP.regress(
    "sizes",
    *[
        {"count": c, "groups": g, "columns": cols, "width": w, "end": True, "storage": 1}
        for c, g, cols, w in ((12_000, 100_003, ("k",), 0), (12_000, 5003, ("k", "w"), 0), (300, 101, ("k",), 5000), (12_000, 1, ("k",), 0))
    ],
)
