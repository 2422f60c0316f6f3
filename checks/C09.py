"""C09 - the same records are read from every storage format, and files which are not data or are damaged do not get in the way."""
import csv as csvlib
import io
import lzma
import zipfile
from xml.sax.saxutils import escape, quoteattr

import orjson
import zstandard

from domain import JSON_RECORD, TEXT, sized_list, typed_table, weighted
from harness import Property, Violation, check, expect_rows, same, short
from store import put
from vhyp import st

from mabel.adapters.disk import DiskReader
from mabel.data import Reader

PROP = Property(
    "C09",
    rule="a case is a list of blobs, each a list of records in one of the formats (JSON lines, one JSON document, zstd, "
    "lzma, zip of several members, csv, xml, xml lines, parquet), plus files which are not data, read back from disk; "
    "non-trivial = at least two data formats, or nested / multi-line / non-ASCII contents",
    assumptions=[
        "JSON values are those of orjson (64-bit integers, finite floats); csv files have one header with distinct names",
        "xml: elements sharing a local name under one parent have one namespace; leading / trailing whitespace in text is not data",
    ],
)


def jsonl(rows, end=b"\n"):
    return b"\n".join(orjson.dumps(r) for r in rows) + (end if rows else b"")


def zipped(members, method):
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w", method) as z:
        for name, data in members:
            z.writestr(name, data)
    return out.getvalue()


JSON_LINES = st.tuples(
    st.sampled_from(["jsonl", "zstd", "lzma", "zstd"]),
    sized_list(JSON_RECORD, (0, 1, 2, 3, 6)),
    st.sampled_from([b"\n", b"\n", b""]),
)
ONE_JSON = st.tuples(st.just("json"), sized_list(JSON_RECORD, (1,)), st.sampled_from([b"", b"\n"]))
ZIPPED = st.tuples(
    st.just("zip"),
    st.lists(weighted(2, JSON_LINES, 1, ONE_JSON), min_size=1, max_size=3),
    st.sampled_from([zipfile.ZIP_DEFLATED, zipfile.ZIP_STORED, zipfile.ZIP_LZMA]),
)
# zip files have folders too, and names have dots
MEMBERS = ["", "", "part.", "export/", "v1.2/", "a b/c.json.d/x-"]
NOISE = st.sets(
    st.sampled_from(
        ["readme.md", "noext", "a.bak", "frame.manifest", "x.idx", "zz.avro", "b0000.jsonl.tmp", "c.JSONLX", "frame.complete", ".hidden"]
    ),
    max_size=3,
)


def bytes_of(ext, rows, end):
    if ext == "jsonl" or ext == "json":
        return jsonl(rows, end)
    if ext == "zstd":
        return zstandard.compress(jsonl(rows, end))
    if ext == "lzma":
        return lzma.compress(jsonl(rows, end))
    raise AssertionError(ext)


def read_all(root, **kwargs):
    reader = Reader(dataset=root, partitions=None, inner_reader=DiskReader, **kwargs)
    return [r if isinstance(r, dict) else (r.as_dict() if hasattr(r, "as_dict") else r) for r in iter(reader)]


def nested(rows):
    return any(isinstance(v, (list, dict)) or (isinstance(v, str) and not v.isascii()) for r in rows for v in r.values())


@PROP.test(
    st.fixed_dictionaries(
        {"blobs": st.lists(weighted(4, JSON_LINES, 1, ONE_JSON, 2, ZIPPED), min_size=1, max_size=5), "noise": NOISE}
    ),
    quick=1600,
)
def json_family(case, ctx):
    root = ctx.fresh()
    expected = []
    for n, blob in enumerate(case["blobs"]):
        if blob[0] == "zip":
            members = []
            for m, (ext, rows, end) in enumerate(blob[1]):
                folder = MEMBERS[(len(rows) + m) % len(MEMBERS)]
                members.append((f"{folder}m{m}.{ext}", bytes_of(ext, rows, end)))
                expected += rows
            members.append(("notes.unknown", b"not data"))
            put(f"{root}/b{n:04d}.zip", zipped(members, blob[2]))
        else:
            ext, rows, end = blob
            put(f"{root}/b{n:04d}.{ext}", bytes_of(ext, rows, end))
            expected += rows
    for name in case["noise"]:
        put(f"{root}/{name}", b'{"noise":1}\n')
    expect_rows(read_all(root), expected, "records read differ from the records in the files")
    if len(expected) > 1 and (len({b[0] for b in case["blobs"]}) > 1 or nested(expected)):
        ctx.nt()
    for blob in case["blobs"]:
        ctx.label(blob[0])


@PROP.test(
    st.tuples(
        st.sampled_from(["jsonl", "zstd", "lzma", "json"]),
        sized_list(JSON_RECORD, (1, 2, 5)),
        st.sampled_from(["{}", ".{}"]),
        st.booleans(),
        st.sampled_from(["txt", "json", "csv", "jsonl", "zip", "parquet"]),
    ),
    quick=240,
)
def override_format(case, ctx):
    """the caller knows better what the files contain than their names do"""
    fmt, rows, spelling, upper, name = case
    if fmt == "json":
        rows = rows[:1]
    root = ctx.fresh()
    put(f"{root}/a.{name}", bytes_of(fmt, rows, b"\n"))
    text = spelling.format(fmt)
    got = read_all(root, override_format=text.upper() if upper else text)
    expect_rows(got, rows, f"{name} file read as {fmt}")
    if name != fmt and len(rows) > 1:
        ctx.nt()


# ---- csv ------------------------------------------------------------------

CELL = st.one_of(TEXT, st.text(alphabet='ab,"\n\r;\' \u2028\x0b\x0c\x85', max_size=6))
HEADER = st.lists(st.one_of(st.text(alphabet="abcXY _-1", min_size=1, max_size=5), CELL.filter(bool)), min_size=1, max_size=4, unique=True)


@st.composite
def csv_files(draw):
    header = draw(HEADER)
    rows = draw(st.lists(st.lists(CELL, min_size=len(header), max_size=len(header)), max_size=6))
    return header, rows, draw(st.sampled_from(["\n", "\r\n"])), draw(st.sampled_from(["csv", "csv", "zip", "minimal"]))


@PROP.test(csv_files(), quick=800)
def csv(case, ctx):
    header, rows, terminator, ext = case
    root = ctx.fresh()
    out = io.StringIO(newline="")
    quoting = csvlib.QUOTE_ALL
    if ext == "minimal":
        # as most programs write it
        ext, quoting = "csv", csvlib.QUOTE_MINIMAL
    writer = csvlib.writer(out, lineterminator=terminator, quoting=quoting)
    writer.writerow(header)
    writer.writerows(rows)
    data = out.getvalue().encode("utf8")
    put(f"{root}/a.{ext}", zipped([("inner.csv", data)], zipfile.ZIP_DEFLATED) if ext == "zip" else data)
    expected = [dict(zip(header, row)) for row in rows]
    expect_rows(read_all(root), expected, "csv rows read differ from those written")
    if rows and any(c for r in rows for c in r if any(x in c for x in ',"\n\r')):
        ctx.nt("needs quoting")


PROP.regress("csv", (["a", "b"], [["x\ny", "1"], ["\u2028", "\x0b"]], "\n", "csv"))

# ---- parquet -----------------------------------------------------------------


@PROP.test(st.tuples(typed_table(max_rows=12, min_rows=1), st.integers(1, 4), st.sampled_from([1, 2, 5, 1000])), quick=240)
def parquet(case, ctx):
    import pyarrow
    import pyarrow.parquet

    (columns, rows), blobs, group = case
    types = {
        "VARCHAR": pyarrow.string(), "INTEGER": pyarrow.int64(), "DOUBLE": pyarrow.float64(), "BOOLEAN": pyarrow.bool_(),
        "TIMESTAMP": pyarrow.timestamp("us"), "DATE": pyarrow.date32(), "ARRAY": pyarrow.list_(pyarrow.string()), "BLOB": pyarrow.binary(),
    }
    schema = pyarrow.schema([(n, types[t]) for n, t, _ in columns])
    root = ctx.fresh()
    for b in range(blobs):
        table = pyarrow.Table.from_pylist(rows[b::blobs], schema=schema)
        pyarrow.parquet.write_table(table, f"{root}/b{b}.parquet", row_group_size=group)
    expected = [r for b in range(blobs) for r in rows[b::blobs]]
    expect_rows(read_all(root), expected, "parquet rows differ")
    if len(rows) > 1:
        ctx.nt()
        if len(rows) // blobs > group:
            ctx.label("several row groups")


# ---- long files ----------------------------------------------------------------

LONG = ["jsonl", "zstd", "lzma", "zip", "json", "csv", "xml", "lxml", "txt", "parquet"]


@PROP.test(st.tuples(st.sampled_from(LONG), st.sampled_from([300, 3000, 20000]), st.sampled_from([0, 3, 90, 700])), quick=60, thorough=400)
def long_files(case, ctx):
    """files larger than anything read at once, and tables with more rows than a batch has"""
    ext, count, width = case
    if count * width > 4_000_000:
        count = 4_000_000 // width
    root = ctx.fresh()
    # each row differs, so none compresses away and none can stand in for another
    rows = [{"n": i, "t": (f"{i * 2654435761 % 2**32:08x}" * (width // 8 + 1))[:width]} for i in range(count)]
    expected = rows
    if ext == "json":
        expected = [{"rows": rows}]
        data = orjson.dumps(expected[0])
    elif ext == "zip":
        data = zipped([("m.jsonl", jsonl(rows))], zipfile.ZIP_DEFLATED)
    elif ext == "csv":
        data = ("n,t\n" + "".join(f"{r['n']},{r['t']}\n" for r in rows)).encode()
        expected = [{"n": str(r["n"]), "t": r["t"]} for r in rows]
    elif ext in ("xml", "lxml"):
        items = [f"<r><n>{r['n']}</n><t>x{r['t']}</t></r>" for r in rows]
        values = [{"n": str(r["n"]), "t": "x" + r["t"]} for r in rows]
        data = ("<d>" + "".join(items) + "</d>" if ext == "xml" else "\n".join(items)).encode()
        expected = [{"d": {"r": values}}] if ext == "xml" else [{"r": v} for v in values]
    elif ext == "txt":
        data = "\n".join(r["t"] for r in rows).encode()
        expected = [data]
    elif ext == "parquet":
        import pyarrow
        import pyarrow.parquet

        out = io.BytesIO()
        pyarrow.parquet.write_table(pyarrow.Table.from_pylist(rows), out, row_group_size=999)
        data = out.getvalue()
    else:
        data = {"jsonl": lambda x: x, "zstd": zstandard.compress, "lzma": lambda x: lzma.compress(x, preset=0)}[ext](jsonl(rows))
    put(f"{root}/a.{ext}", data)
    got = read_all(root)
    if got != expected:
        expect_rows(got[:10], expected[:10], f"long {ext} file")
        check(len(got) == len(expected), f"a long {ext} file has {len(expected)} records, {len(got)} were read")
        check(False, f"the records read from a long {ext} file are not those in it")
    if len(data) > 65536:
        ctx.nt(ext)
    if len(data) > 1 << 20:
        ctx.label("more than a megabyte")


PROP.regress("long_files", *[(ext, 20000, 90) for ext in LONG], ("csv", 20, 140_000), ("jsonl", 5, 1_100_000), ("zstd", 5, 1_100_000))


@PROP.test(
    st.tuples(
        st.sampled_from(["jsonl", "zstd", "lzma", "zip", "csv", "lxml"]),
        # bytes in a line, with its end; those in front of all lines
        st.sampled_from([32, 64, 64, 1024, 65536]),
        st.sampled_from([0, 0, 1, 63]),
        st.sampled_from(["x", "\u00e9", "\u20ac", "\U0001f600"]),
        st.sampled_from([b"\n", b"\n", b"\r\n"]),
    ),
    quick=40,
    thorough=600,
)
def aligned(case, ctx):
    """lines, or characters, which end just where a chunk of a file could"""
    ext, size, first, letter, end = case
    root = ctx.fresh()
    rows, lines = [], []
    for n in range(300_000 // size + 3):
        n = f"{n:06d}"
        room = (first if n == "000000" and first > 40 else size) - len(end)
        make = {"csv": lambda t: f"{n},{t}", "lxml": lambda t: f"<r><n>{n}</n><t>{t}</t></r>"}.get(ext, lambda t: f'{{"n":"{n}","t":"{t}"}}')
        room -= len(make(""))
        if room < 2:
            return
        text = letter * (room // len(letter.encode()) - (room % len(letter.encode()) == 0 and letter != "x"))
        text += "y" * (room - len(text.encode()))
        lines.append(make(text).encode() + end)
        row = {"n": n, "t": text}
        rows.append({"r": row} if ext == "lxml" else row)
    data = b"".join(lines)
    if ext == "csv":
        data = b"n" + b"n" * (size - 3 - len(end)) + b",t" + end + data
        rows = [{"n" * (size - 2 - len(end)): r["n"], "t": r["t"]} for r in rows]
    pack = {"zstd": zstandard.compress, "lzma": lambda d: lzma.compress(d, preset=0), "zip": lambda d: zipped([("m.jsonl", d)], zipfile.ZIP_DEFLATED)}
    put(f"{root}/a.{ext}", pack.get(ext, lambda d: d)(data))
    got = read_all(root)
    wrong = [(g, r) for g, r in zip(got, rows) if g != r][:2]
    expect_rows([g for g, _ in wrong], [r for _, r in wrong], f"the first records which differ of a {ext} file of {size}-byte lines")
    check(len(got) == len(rows), f"{len(got)} of {len(rows)} records of a {ext} file of {size}-byte lines")
    ctx.nt(ext)


PROP.regress("aligned", *[(ext, size, 0, "x", b"\n") for ext in ("jsonl", "zstd", "lzma", "zip", "csv", "lxml") for size in (64, 65536)])


# ---- xml -----------------------------------------------------------------------

TAG = st.sampled_from(["a", "b", "c", "item", "name", "x-1"])
ATTRS = st.dictionaries(st.sampled_from(["id", "k", "v", "n:ns"]), st.text(alphabet="ab <&>\"'\u00e9", max_size=4), max_size=2)
BODY = st.text(alphabet="ab1 <&>\"'\u00e9.\U0001f600", max_size=6)
ELEMENT = st.recursive(
    st.tuples(TAG, ATTRS, BODY, st.just(())),
    lambda kids: st.tuples(TAG, ATTRS, BODY, st.lists(kids, max_size=4).map(tuple)),
    max_leaves=8,
)


def to_xml(element, prefix, root=True):
    tag, attrs, text, kids = element
    declared = ' xmlns:n="urn:n"' if root else ""
    tag = prefix + tag
    inside = escape(text) + "".join(to_xml(k, prefix, False) for k in kids)
    return f"<{tag}{declared}" + "".join(f" {k}={quoteattr(v)}" for k, v in attrs.items()) + f">{inside}</{tag}>"


def to_value(element):
    tag, attrs, text, kids = element
    if not attrs and not kids:
        return text.strip() if text else None
    value = {}
    for kid in kids:
        value.setdefault(kid[0], []).append(to_value(kid))
    value = {k: v[0] if len(v) == 1 else v for k, v in value.items()}
    value.update({"@" + k.split(":")[-1]: v for k, v in attrs.items()})
    if text.strip():
        value["#text"] = text.strip()
    return value


@PROP.test(
    st.tuples(st.sampled_from(["xml", "lxml", "lxml"]), st.lists(ELEMENT, min_size=1, max_size=3), st.sampled_from(["", "", "n:"])),
    quick=1200,
)
def xml(case, ctx):
    ext, documents, prefix = case
    if ext == "xml":
        documents = documents[:1]
    root = ctx.fresh()
    put(f"{root}/a.{ext}", "\n".join(to_xml(d, prefix) for d in documents).encode("utf8"))
    expected = [{d[0]: to_value(d)} for d in documents]
    expect_rows(read_all(root), expected, "documents read differ from those in the file")
    if any(d[3] for d in documents):
        ctx.nt("children")


# ---- damaged blobs ------------------------------------------------------------------

DAMAGE = st.sampled_from(["none", "none", "truncate", "garbage", "empty", "bad line"])


@PROP.test(
    st.lists(
        st.tuples(
            st.sampled_from(["jsonl", "zstd", "lzma", "zip", "json", "parquet", "csv"]),
            sized_list(JSON_RECORD, (1, 2, 4, 7)),
            DAMAGE,
            st.integers(0, 200),
        ),
        min_size=2,
        max_size=6,
    ),
    quick=800,
)
def damaged(case, ctx):
    """a blob which cannot be read costs nothing of the other blobs, and gives nothing it does not contain"""
    import pyarrow
    import pyarrow.parquet

    root = ctx.fresh()
    model = []
    for n, (ext, rows, damage, where) in enumerate(case):
        rows = [{"b": n, "r": i, "v": r} for i, r in enumerate(rows)]
        if ext == "parquet":
            rows = [{"b": r["b"], "r": r["r"]} for r in rows]
            out = io.BytesIO()
            pyarrow.parquet.write_table(pyarrow.Table.from_pylist(rows), out)
            data = out.getvalue()
        elif ext == "zip":
            data = zipped([("m.jsonl", jsonl(rows))], zipfile.ZIP_DEFLATED)
        elif ext == "json":
            rows = rows[:1]
            data = jsonl(rows)
        elif ext == "csv":
            # text of another encoding is the only damage which can be told from data
            damage = "bad text" if damage != "none" else damage
            rows = [{"b": str(n), "r": str(i), "v": "caf\u00e9 & th\u00e9"} for i in range(len(rows))]
            data = "".join(f"{r['b']},{r['r']},{r['v']}\n" for r in [{"b": "b", "r": "r", "v": "v"}, *rows]).encode("latin1" if damage == "bad text" else "utf8")
        else:
            lines = jsonl(rows)
            if damage == "bad line":
                parts = lines.splitlines(keepends=True)
                parts.insert(where % (len(parts) + 1), b'{"b": 1, "broken\n')
                lines = b"".join(parts)
            data = {"jsonl": lambda x: x, "zstd": zstandard.compress, "lzma": lzma.compress}[ext](lines)
        if damage == "truncate":
            data = data[: where % len(data)]
        elif damage == "garbage":
            data = b"\x00\xff{garbage" + data
        elif damage == "empty":
            data = b""
        intact = damage == "none" or (damage == "bad line" and ext in ("zip", "json", "parquet"))
        put(f"{root}/b{n:04d}.{ext}", data)
        model.append((rows, intact))
    got = read_all(root)
    at = 0
    for n, (rows, intact) in enumerate(model):
        mine = []
        while at < len(got) and isinstance(got[at], dict) and str(got[at].get("b")) == str(n):
            mine.append(got[at])
            at += 1
        if intact:
            expect_rows(mine, rows, f"blob {n} is intact but was not read whole")
        else:
            ok = len(mine) <= len(rows) and all(any(same(m, r) for r in rows) for m in mine)
            check(ok, "a damaged blob gave records it does not contain", short(mine), short(rows))
            check(len({m["r"] for m in mine}) == len(mine), "a damaged blob gave a record twice", short(mine))
    if at != len(got):
        raise Violation(f"records out of nowhere: {short(got[at:])}")
    if any(not i for _, i in model) and any(i for _, i in model):
        ctx.nt()
