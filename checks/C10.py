"""C10 - a reader's select and filters give what selecting and filtering each stored record gives."""
import orjson
import zstandard

from checks.C11 import Style, TREE, holds, literals, write
from checks.C12 import FILTER, holds as dnf_holds, values as dnf_values
from domain import bulk, sized_list, weighted
from harness import Property, expect_rows, short
from store import put, read
from vhyp import st

from mabel.data import STORAGE_CLASS

PROP = Property(
    "C10",
    rule="a case is a data set of several blobs, a select (everything, named fields, fields the records lack, functions, "
    "renames), and a filter (an expression or conditions in lists) which sees the selected record; what the reader "
    "returns is compared with selecting and filtering the stored records one by one; non-trivial = some but not all "
    "records are kept, from at least two blobs",
    assumptions=["the filter is applied to the record as it was selected", "JSON values"],
)

WORDS = st.sampled_from(["abc", "ABC", "a", "", "b c", "5", "2021-01-02", "x and y", "a\nb"])
NUMBERS = weighted(4, st.integers(-3, 4), 1, st.sampled_from([1.5, 0.0, 2.0]))
FIELDS = {
    "t": WORDS,
    "u": WORDS,
    "n": NUMBERS,
    "m": NUMBERS,
    "flag": st.booleans(),
    "tags": st.lists(st.one_of(WORDS, st.integers(0, 3)), max_size=3),
    "any": st.one_of(WORDS, NUMBERS, st.booleans()),
    "nested": st.fixed_dictionaries({"k": NUMBERS}),
}
RECORD = st.fixed_dictionaries({}, optional={n: weighted(6, v, 1, st.none()) for n, v in FIELDS.items()})
# how it is written, its label, its value
COLUMNS = [(f, f, (lambda f: lambda r: r.get(f))(f)) for f in FIELDS] + [
    ("missing", "missing", lambda r: r.get("missing")),
    ("UPPER(t)", "UPPER(t)", lambda r: str(r.get("t")).upper()),
    ("lower( u ) AS low", "low", lambda r: str(r.get("u")).lower()),
    ("LEFT(t, 2)", "LEFT(t,2)", lambda r: str(r.get("t"))[:2]),
    ("LEFT(UPPER(t),1) as first", "first", lambda r: str(r.get("t")).upper()[:1]),
    ("CONCAT(t,'-',n)", "CONCAT(t,'-',n)", lambda r: f"{r.get('t')}-{r.get('n')}"),
]
# fields which take the name of a field the records have
RENAMES = [(f"{a} AS {b}", b, (lambda a: lambda r: r.get(a))(a)) for a, b in (("t", "u"), ("u", "t"), ("n", "m"), ("m", "t"))] + [
    ("UPPER(t) AS t", "t", lambda r: str(r.get("t")).upper()),
    ("CONCAT(t,'-',n) as n", "n", lambda r: f"{r.get('t')}-{r.get('n')}"),
    ("LEFT(t,1) AS m", "m", lambda r: str(r.get("t"))[:1]),
]
COLUMNS += RENAMES
STAR = ("*", None, None)
PLAIN = st.sampled_from(["jsonl", "jsonl", "zstd", "json"])


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["expression", "expression", "dnf", "none"]))
    if kind == "expression":
        node = draw(TREE)
        found = literals(node, {})
    elif kind == "dnf":
        node = draw(FILTER)
        found = dnf_values(node, {})
    else:
        node, found = None, {}
    def ok(v):
        return v is None or isinstance(v, (bool, int, float, str)) or isinstance(v, list) and all(map(ok, v))
    values = {f: [v if ok(v) else str(v) for v in vs] for f, vs in found.items() if vs}
    values = {f: [v for v in vs if not isinstance(v, int) or abs(v) < 2**62] for f, vs in values.items()}
    used = st.fixed_dictionaries({f: st.one_of(st.sampled_from(v), FIELDS.get(f, WORDS)) for f, v in values.items() if v})
    row = st.tuples(RECORD, used).map(lambda p: {**p[0], **p[1]})
    select = draw(
        weighted(
            3, st.just([STAR]),
            2, st.lists(st.integers(0, len(COLUMNS) - 1), min_size=1, max_size=5, unique=True).map(lambda c: [COLUMNS[i] for i in c]),
            1, st.lists(st.integers(len(FIELDS), len(COLUMNS) - 1), min_size=1, max_size=2, unique=True).map(lambda c: [*(COLUMNS[i] for i in c), STAR]),
            2, st.lists(st.sampled_from(RENAMES), min_size=2, max_size=4, unique_by=lambda c: c[1]).map(lambda c: [STAR, *c]),
        )
    )
    # no two columns of one name
    select = list({c[1]: c for c in select}.values())
    return {
        "blobs": draw(st.lists(st.tuples(PLAIN, sized_list(row, (0, 2, 4, 8))), min_size=1, max_size=4)),
        "select": [c[0] for c in select],
        "kind": kind,
        "node": node,
        "style": draw(st.lists(st.integers(0, 59), min_size=1, max_size=8)),
        "persistence": draw(st.sampled_from([STORAGE_CLASS.NO_PERSISTANCE, STORAGE_CLASS.MEMORY, STORAGE_CLASS.DISK])),
    }


BY_TEXT = {c[0]: c for c in COLUMNS} | {"*": STAR}


def project(row, select):
    result = dict(row) if "*" in select else {}
    for text in select:
        _, label, value = BY_TEXT[text]
        if label:
            result[label] = value(row)
    return result


@PROP.test(cases(), quick=8000, thorough=250000)
def reads(case, ctx):
    root = ctx.fresh()
    rows = []
    for i, (ext, blob) in enumerate(case["blobs"]):
        data = b"".join(orjson.dumps(r) + b"\n" for r in blob)
        put(f"{root}/d/{i:02}.{'jsonl' if ext == 'json' else ext}", zstandard.compress(data) if ext == "zstd" else data)
        rows += [(i, orjson.loads(orjson.dumps(r))) for r in blob]
    star = case["select"] == ["*"]
    select = "*" if star else ", ".join(case["select"])
    projected = [(i, r if star else project(r, case["select"])) for i, r in rows]
    keep = {"none": lambda r: True, "dnf": lambda r: dnf_holds(case["node"], r), "expression": lambda r: holds(case["node"], r)}[case["kind"]]
    filters = write(case["node"], Style(case["style"])) if case["kind"] == "expression" else case["node"]
    expected = [(i, r) for i, r in projected if keep(r)]
    got = read(f"{root}/d", partitions=None, select=select, filters=filters, persistence=case["persistence"])
    expect_rows(got, [r for _, r in expected], f"select {select!r} where {filters!r} of {short([r for _, r in rows])}")
    if 0 < len(expected) < len(rows) and len({i for i, _ in expected}) > 1:
        ctx.nt(case["kind"])
        if not star:
            ctx.label("select")


@PROP.test(
    st.fixed_dictionaries(
        {
            "fields": st.sampled_from([1, 5, 17, 40, 130]),
            "star": st.booleans(),
            "functions": st.booleans(),
            "blobs": st.sampled_from([[10], [400, 400], [1] * 40, [3000]]),
            "width": st.sampled_from([0, 8, 700]),
            "ext": PLAIN,
            "keep": st.sampled_from([None, "k0 < 3", [("k0", "<", 3)], "k0 > 5 AND k0 < 9"]),
            "persistence": st.sampled_from([STORAGE_CLASS.NO_PERSISTANCE, STORAGE_CLASS.MEMORY, STORAGE_CLASS.DISK]),
        }
    ),
    quick=60,
    thorough=2000,
)
def sizes(case, ctx):
    """many fields, many records, big blobs"""
    root, rows, at = ctx.fresh(), [], 0
    count = sum(case["blobs"])
    fields = min(case["fields"], 60_000 // count)
    everything = bulk(count, width=case["width"])
    for row in everything:
        row.update({f"k{i}": row["n"] * (i + 1) % 11 for i in range(fields)})
    for i, size in enumerate(case["blobs"]):
        data = b"".join(orjson.dumps(r) + b"\n" for r in everything[at : at + size])
        put(f"{root}/d/{i:03}.{'jsonl' if case['ext'] == 'json' else case['ext']}", zstandard.compress(data) if case["ext"] == "zstd" else data)
        at += size
    select = [f"UPPER(k{i}) AS f{i}" if case["functions"] and i % 5 == 1 else f"k{i}" for i in range(fields)] + ["t"]
    for row in everything:
        if case["keep"] is not None and not (row["k0"] < 3 if "> 5" not in str(case["keep"]) else 5 < row["k0"] < 9):
            continue
        new = dict(row) if case["star"] else {}
        for i in range(fields):
            if case["functions"] and i % 5 == 1:
                new[f"f{i}"] = str(row[f"k{i}"]).upper()
            else:
                new[f"k{i}"] = row[f"k{i}"]
        rows.append({**new, "t": row["t"]})
    got = read(
        f"{root}/d", partitions=None, select=", ".join(select + ["*"] * case["star"]), filters=case["keep"], persistence=case["persistence"]
    )
    if got != rows:
        expect_rows([len(got)], [len(rows)], "how many records")
        wrong = [(g, r) for g, r in zip(got, rows) if g != r][:2]
        expect_rows([g for g, _ in wrong], [r for _, r in wrong], "the first records which differ")
    if 0 < len(rows) and fields > 1:
        ctx.nt()


PROP.regress(
    "sizes",
    *[
        {"fields": 130, "star": star, "functions": True, "blobs": [400, 400], "width": 700, "ext": ext, "keep": "k0 < 3", "persistence": STORAGE_CLASS.NO_PERSISTANCE}
        for star, ext in ((False, "jsonl"), (True, "zstd"))
    ],
)
