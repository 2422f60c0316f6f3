"""C12 - filters given as tuples in lists keep exactly the records they describe."""
import re

from domain import TEXT, sized_list, weighted
from harness import Property, Violation, check, expect_rows, short
from vhyp import st

from mabel.data import STORAGE_CLASS
from mabel.data.internals.dictset import DictSet
from mabel.data.internals.dnf_filters import DnfFilters

PROP = Property(
    "C12",
    rule="a case is a filter in disjunctive normal form (a condition, a list of them, a list of lists) over all operators "
    "and their spellings, and a list of records with nulls and gaps; compared with a direct evaluation; non-trivial = at "
    "least two conditions, some records match and some do not",
    assumptions=["a null or missing value never matches; values which cannot be compared do not match"],
)

WORDS = st.sampled_from(["abc", "ABC", "a", "", "b c", "a\nb", "x%y", "a_b", "5"])
NUMBERS = weighted(4, st.integers(-3, 4), 1, st.sampled_from([1.5, 0.0, 2.0]), 1, st.integers(-(2**63), 2**63 - 1))
FIELDS = {
    "t": weighted(3, WORDS, 1, TEXT),
    "n": NUMBERS,
    "m": NUMBERS,
    "flag": st.booleans(),
    "tags": st.lists(st.one_of(WORDS, st.integers(0, 3)), max_size=3),
    "any": st.one_of(WORDS, NUMBERS, st.booleans(), st.lists(WORDS, max_size=2)),
    "a b": WORDS,
    "T": WORDS,
    "N": NUMBERS,
}
SCALAR = weighted(3, WORDS, 3, NUMBERS, 1, st.booleans())
EQUAL = ["=", "==", "is", "IS"]
UNEQUAL = ["!=", "<>"]
ORDER = ["<", ">", "<=", ">="]
PATTERN = st.sampled_from(["%", "a%", "%b%", "_bc", "a_b", "%\n%", "ABC", "", "x%%y", "5", "%.%"])
REGEX = st.sampled_from(["^a", "b$", "[abc]", "\\d", "^$", "a|z"])
FIELD = st.sampled_from([*FIELDS, "missing"])


def collection(values):
    return st.one_of(values.map(list), values.map(tuple), values.map(lambda v: set(v) if all(not isinstance(i, list) for i in v) else v))


MEMBERS = weighted(
    5, collection(st.lists(SCALAR, max_size=4)), 1, st.lists(st.one_of(st.lists(WORDS, max_size=2), SCALAR), max_size=3), 1, st.sampled_from(["xabcx", "", "5 a"])
)
CONDITION = weighted(
    3, st.tuples(FIELD, st.sampled_from(EQUAL + UNEQUAL), SCALAR),
    2, st.tuples(st.sampled_from(["n", "m", "t", "any"]), st.sampled_from(ORDER), SCALAR),
    2, st.tuples(st.sampled_from(["t", "n", "any", "a b", "missing", "tags", "T"]), st.sampled_from(["in", "IN", "!in", "not in", "NOT IN"]), MEMBERS),
    1, st.tuples(st.sampled_from(["t", "n", "any", "a b", "missing"]), st.sampled_from(["like", "LIKE"]), PATTERN),
    1, st.tuples(st.sampled_from(["t", "any", "a b"]), st.sampled_from(["matches", "~"]), REGEX),
    2, st.tuples(st.sampled_from(["tags", "t", "any", "missing"]), st.sampled_from(["contains", "!contains", "CONTAINS"]), SCALAR),
)
AND = st.lists(CONDITION, min_size=1, max_size=3)
FILTER = weighted(1, CONDITION, 3, AND, 5, st.lists(AND, min_size=1, max_size=3), 1, st.sampled_from([None, [], [[]]]), 1, st.lists(st.lists(CONDITION, max_size=2), min_size=1, max_size=3), 1, st.lists(st.lists(AND, min_size=1, max_size=2), min_size=1, max_size=2))


def like(value, pattern):
    value, pattern = str(value).lower(), pattern.lower()
    row = [True] + [False] * len(value)
    for ch in pattern:
        if ch == "%":
            first = row.index(True) if True in row else len(row)
            row = [i >= first for i in range(len(row))]
        else:
            row = [False] + [row[i] and (ch == "_" or ch == value[i]) for i in range(len(value))]
    return row[-1]


def holds(node, record):
    if node is None:
        return True
    if isinstance(node, list):
        if not node:
            return True
        if isinstance(node[0], tuple):
            return all(holds(n, record) for n in node)
        return any(holds(n, record) for n in node)
    field, op, other = node
    value = record.get(field)
    op = op.lower()
    if value is None:
        return False
    try:
        if op in ("=", "==", "is"):
            return value == other
        if op in UNEQUAL:
            return value != other
        if op == "<":
            return value < other
        if op == ">":
            return value > other
        if op == "<=":
            return value <= other
        if op == ">=":
            return value >= other
        if op == "in":
            return value in other
        if op in ("!in", "not in"):
            return value not in other
        if op == "like":
            return like(value, other)
        if op in ("matches", "~"):
            return re.search(other, value) is not None
        if op == "contains":
            return other in value
        if op == "!contains":
            return other not in value
    except TypeError:
        return False
    raise AssertionError(op)


def count(node):
    return 1 if isinstance(node, tuple) else sum(map(count, node or []))


def values(node, found):
    if isinstance(node, tuple):
        field, op, other = node
        if isinstance(other, (list, tuple, set)):
            found.setdefault(field, []).extend(sorted(other, key=repr) + ([other] if isinstance(other, list) else []))
        elif op.lower().endswith("contains"):
            found.setdefault(field, []).extend([[other], [other, "abc"]] if field == "tags" else [other])
        else:
            found.setdefault(field, []).append(other)
    else:
        for kid in node or []:
            values(kid, found)
    return found


@st.composite
def cases(draw):
    node = draw(FILTER)
    found = {f: v for f, v in values(node, {}).items() if v and f in FIELDS}
    used = {n: weighted(4, st.sampled_from(found[n]), 3, FIELDS[n], 1, st.none()) for n in FIELDS if n in found}
    rest = {n: v for n, v in FIELDS.items() if n not in found}
    record = st.one_of(st.fixed_dictionaries(used, optional=rest), st.fixed_dictionaries({}, optional={**rest, **used}))
    return node, draw(sized_list(record, (1, 3, 6, 10)))


@PROP.test(cases(), quick=8000, thorough=400000)
def evaluates(case, ctx):
    node, rows = case
    before, given = [dict(r) for r in rows], repr(node)
    expected = [r for r in rows if holds(node, r)]
    filters = DnfFilters(node)
    expect_rows(list(filters.filter_dictset(rows)), expected, f"filter_dictset by {node!r} of {short(rows)}")
    if node is not None:
        kept = [r for r in rows if filters(r)]
        expect_rows(kept, expected, f"records kept by {node!r} of {short(rows)}")
        expect_rows(list(DictSet(rows, storage_class=STORAGE_CLASS.MEMORY).filter(node)), expected, f"DictSet.filter by {node!r} of {short(rows)}")
    expect_rows(rows, before, "the filter changed the records")
    check(repr(node) == given, f"the filter was {given}, it is changed to {node!r}")
    if count(node) > 1 and 0 < len(expected) < len(rows):
        ctx.nt("or of ands" if isinstance(node[0], list) else "and")
    if isinstance(node, list) and [] in node:
        ctx.label("a list without conditions")


BAD = st.one_of(
    st.tuples(AND, CONDITION).map(lambda p: [p[0], p[1]]),
    st.tuples(AND, CONDITION).map(lambda p: [p[1], p[0]]),
    st.tuples(FIELD, st.sampled_from(["===", "", "like%", "=<", "between", "<<"]), SCALAR),
)


@PROP.test(BAD, quick=300, thorough=5000)
def refuses(node, ctx):
    """a mix of conditions and lists, or an unknown operator, is an error, not a guess"""
    record = {f: 1 for f in FIELDS} | {"missing": 1}
    try:
        list(DictSet([record]).filter(node))
    except Exception:
        ctx.nt()
        return
    raise Violation(f"accepted {node!r}")


@PROP.test(
    st.fixed_dictionaries(
        {
            "shape": st.sampled_from(["ors", "ands", "both", "in", "not in", "flat"]),
            "size": st.sampled_from([9, 17, 33, 65, 300, 1500]),
            "step": st.sampled_from([1, 3, 7]),
            "text": st.booleans(),
        }
    ),
    quick=100,
    thorough=3000,
)
def sizes(case, ctx):
    """long filters: every part of them counts"""
    values = [f"v{i * case['step']}" if case["text"] else i * case["step"] for i in range(case["size"])]
    node, keep = {
        "ors": lambda: ([[("n", "=", v)] for v in values], True),
        "ands": lambda: ([[("n", "!=", v) for v in values]], False),
        "flat": lambda: ([("n", "!=", v) for v in values], False),
        "both": lambda: ([[("n", "=", v), *[("n", "!=", w) for w in values[:20] if w != v]] for v in values], True),
        "in": lambda: (("n", "in", values), True),
        "not in": lambda: (("n", "not in", values), False),
    }[case["shape"]]()
    rows = [{"n": v} for v in values] + [{"n": -1}, {"n": "else"}, {"n": None}, {"n": values[0]}]
    expected = [r for r in rows if r["n"] is not None and (r["n"] in values) == keep]
    expect_rows([r for r in rows if DnfFilters(node)(r)] if case["size"] < 200 else list(DnfFilters(node).filter_dictset(rows)), expected, f"{case['shape']} of {case['size']}")
    ctx.nt(case["shape"])


PROP.regress(
    "sizes",
    *[{"shape": s, "size": n, "step": 3, "text": True} for s in ("ors", "ands", "both", "in", "not in", "flat") for n in (65, 1500)],
)
