"""Generators shared by the checks (everything drawn through hypothesis)."""
import datetime

from vhyp import st

# ---- scalars -------------------------------------------------------------

# any unicode a JSON document can carry (no lone surrogates), weighted to short
WEIRD = "\n\r\t\x00\x1f\x7f\x85\u2028\u2029\ufeff\u00e9\u00df\u0130\U0001f600\"'\\{}[],:|/%`"
TEXT = st.one_of(
    st.text(alphabet="abcxyzAB019 _-.", max_size=8),
    st.text(alphabet=st.one_of(st.sampled_from(WEIRD), st.characters(codec="utf-8")), max_size=8),
)
WORD = st.text(alphabet="abcdefgh", min_size=1, max_size=5)
INT64 = st.one_of(
    st.integers(-3, 12),
    st.integers(-(2**63), 2**63 - 1),
    st.sampled_from([2**53, 2**53 + 1, -(2**53) - 1, 2**63 - 1, -(2**63), 0]),
)
FLOAT = st.one_of(
    st.sampled_from([0.0, -0.0, 1.0, 0.1, -1.5, 1e300, 5e-324, 1e16, 123456789.123456789]),
    st.floats(allow_nan=False, allow_infinity=False),
)
SCALAR = st.one_of(st.none(), st.booleans(), INT64, FLOAT, TEXT)

FIELD = st.one_of(
    st.sampled_from(["a", "b", "c", "id", "name", "user", "value", "x.y", "_id", "A"]),
    st.text(alphabet=st.characters(codec="utf-8"), min_size=1, max_size=6),
)

JSON = st.recursive(
    SCALAR,
    lambda kids: st.one_of(
        st.lists(kids, max_size=3),
        st.dictionaries(st.one_of(FIELD, st.just("")), kids, max_size=3),
    ),
    max_leaves=6,
)
JSON_RECORD = st.dictionaries(FIELD, JSON, max_size=5)
FLAT_RECORD = st.dictionaries(FIELD, SCALAR, max_size=5)

# ---- dates ---------------------------------------------------------------

DATES = st.one_of(
    st.dates(datetime.date(1990, 1, 1), datetime.date(2035, 12, 31)),
    st.sampled_from(
        [datetime.date(2020, 2, 29), datetime.date(2021, 12, 31), datetime.date(2022, 1, 1), datetime.date(2021, 3, 28)]
    ),
)


# ---- typed columns (orso schemas) ---------------------------------------

TYPED = {
    "VARCHAR": TEXT,
    "INTEGER": INT64,
    "DOUBLE": FLOAT,
    "BOOLEAN": st.booleans(),
    "TIMESTAMP": st.datetimes(datetime.datetime(1970, 1, 2), datetime.datetime(2200, 1, 1)).map(lambda d: d.replace(fold=0)),
    "DATE": st.dates(datetime.date(1970, 1, 2), datetime.date(2200, 1, 1)),
    "ARRAY": st.lists(TEXT, max_size=3),
    "BLOB": st.binary(max_size=6),
}
COLUMN_NAMES = ["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta"]


@st.composite
def typed_table(draw, max_rows=30, min_cols=1, max_cols=5, types=tuple(TYPED), nulls=True, min_rows=0):
    """(columns, rows): columns is [(name, type, nullable)]."""
    chosen = draw(st.lists(st.sampled_from(types), min_size=min_cols, max_size=max_cols))
    names = draw(st.permutations(COLUMN_NAMES))[: len(chosen)]
    columns = [(n, t, draw(st.booleans()) if nulls else False) for n, t in zip(names, chosen)]
    row = st.fixed_dictionaries(
        {n: (st.one_of(st.none(), TYPED[t]) if nullable else TYPED[t]) for n, t, nullable in columns}
    )
    rows = draw(st.lists(row, min_size=min_rows, max_size=max_rows))
    return columns, rows


def schema_for(columns):
    return {"columns": [{"name": n, "type": t, "nullable": nullable} for n, t, nullable in columns]}


def sized_list(element, sizes=(0, 1, 2, 3, 5, 8, 13, 30, 60)):
    """Lists whose length is drawn first, so long ones are as common as short."""
    return st.sampled_from(sizes).flatmap(lambda n: st.lists(element, min_size=n, max_size=n))


def weighted(*pairs):
    """weighted(3, a, 1, b): one_of treats repeated alternatives as one, so repeat an index instead"""
    weights, strategies = pairs[0::2], pairs[1::2]
    indices = [i for i, w in enumerate(weights) for _ in range(w)]
    return st.sampled_from(indices).flatmap(lambda i: strategies[i])


def bulk(count, groups=7, width=0):
    """Many records, told apart by their number; what is in them follows from it."""
    return [
        {"n": i, "k": f"k{i * 7919 % groups}", "v": i * 31 % 101 - 50, "t": (f"{i * 2654435761 % 2**32:08x}" * (width // 8 + 1))[:width]}
        for i in range(count)
    ]
