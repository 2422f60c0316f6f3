"""C27 - tables drawn from a set show its values and nothing else: no markup leaks in, no value under the wrong header."""
import contextlib
import sys
import types
from html.parser import HTMLParser

from domain import FIELD, INT64, TEXT, sized_list, weighted
from harness import Property, Violation, check, expect_rows, short
from vhyp import st

from mabel.data import STORAGE_CLASS
from mabel.data.internals.dictset import DictSet

PROP = Property(
    "C27",
    rule="a case is a list of records with differing fields and values full of markup characters, a limit and a storage "
    "class, rendered as HTML (parsed back with Python's html.parser) and as text (cut back into cells); non-trivial = at "
    "least two records, with different fields or with markup characters in a value",
    assumptions=[
        "the order of columns is not specified; nested values are shown in some readable form (only checked not to add markup)",
        "the text table is given printable single-width values without line breaks",
    ],
)

MARKUP = st.text(alphabet="<>&\"'$a;/= #x", max_size=10)
SPECIAL = st.sampled_from(["<b>", "</td>", "&lt;", "&amp;", "' onload='x", '" x="', "<script>alert(1)</script>", "&#39;", "-->", "</table>", "&"])
VALUE = weighted(3, MARKUP, 2, SPECIAL, 1, INT64, 1, st.sampled_from([None, True, 1.5, ""]), 1, TEXT.map(lambda t: t.replace("\x00", "").replace("\r", "")))
NESTED = st.one_of(st.lists(st.one_of(MARKUP, st.integers(0, 9)), max_size=3), st.dictionaries(st.sampled_from(["k", "<i>"]), VALUE, max_size=2))
NAME = weighted(4, st.sampled_from(["a", "b", "c", "<th>", "x&y", "'q'"]), 1, FIELD.filter(lambda f: f.isprintable()))
ROW = st.dictionaries(NAME, weighted(5, VALUE, 1, NESTED), max_size=4)


@contextlib.contextmanager
def notebook(running):
    """as in a notebook, or not: gives what is displayed"""
    shown = []
    shell, display = types.ModuleType("IPython"), types.ModuleType("IPython.display")
    shell.get_ipython = lambda: object() if running else None
    display.HTML = lambda data=None, **_: data
    display.display = lambda *objects, **_: shown.extend(objects)
    shell.display = display
    before = {name: sys.modules.get(name) for name in ("IPython", "IPython.display")}

    def forget():
        # whether this is a notebook is asked once a process
        try:
            from mabel.utils.ipython import is_running_from_ipython

            is_running_from_ipython.cache_clear()
        except (ImportError, AttributeError):
            pass

    forget()
    sys.modules.update({"IPython": shell, "IPython.display": display})
    try:
        yield shown
    finally:
        for name, module in before.items():
            sys.modules.pop(name, None)
            if module is not None:
                sys.modules[name] = module
        forget()


def drawn(ds, limit, as_html):
    """the table, without a limit the one the set is shown as"""
    if limit is not None:
        return ds.to_html_table(limit) if as_html else ds.to_ascii_table(limit)
    with notebook(as_html) as shown:
        result = repr(ds)
    if not as_html:
        return result
    check(len(shown) == 1 and result == "", f"a notebook is shown {len(shown)} things, and", result)
    return shown[0]


CASES = st.fixed_dictionaries(
    {
        "rows": sized_list(ROW, (0, 1, 2, 3, 6, 8)),
        "limit": st.sampled_from([1, 2, 5, 5, 100, None]),
        "class": st.sampled_from([STORAGE_CLASS.NO_PERSISTANCE, STORAGE_CLASS.MEMORY, STORAGE_CLASS.DISK, STORAGE_CLASS.COMPRESSED_MEMORY]),
    }
)


class Page(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.tags = []
        self.rows = []
        self.titles = []
        self.inside = None
        self.footer = ""

    def handle_starttag(self, tag, attrs):
        self.tags.append((tag, sorted(name for name, _ in attrs)))
        if tag == "tr":
            self.rows.append([])
            self.titles.append([])
        if tag in ("td", "th"):
            self.rows[-1].append("")
            self.titles[-1].append(dict(attrs).get("title"))
            self.inside = tag
        else:
            self.inside = None

    def handle_endtag(self, tag):
        self.inside = None

    def handle_data(self, data):
        if self.inside:
            self.rows[-1][-1] += data
        else:
            self.footer += data

    def handle_comment(self, data):
        self.tags.append(("comment", [data]))

    def handle_decl(self, data):
        self.tags.append(("decl", [data]))

    def handle_pi(self, data):
        self.tags.append(("pi", [data]))


ALLOWED = {"table": [["class"]], "thead": [["class"]], "tbody": [[]], "tr": [[]], "th": [[]], "td": [["style", "title"]], "p": [[]]}


@PROP.test(CASES, quick=4000, thorough=150000)
def html(case, ctx):
    rows = [dict(r) for r in case["rows"]]
    shown = rows[: 10 if case["limit"] is None else case["limit"]]
    page = Page()
    text = drawn(DictSet(list(rows), storage_class=case["class"]), case["limit"], True)
    page.feed(text)
    page.close()
    for tag, attrs in page.tags:
        if tag not in ALLOWED or attrs not in ALLOWED[tag]:
            raise Violation(f"markup leaked from the data: <{tag} {attrs}> | {short(text)}")
    check([t for t, _ in page.tags].count("table") == 1, "not one table", short(text))
    check(page.footer.strip() == "" or "rows x" in page.footer, "text outside the table's cells", short(page.footer))
    if not shown:
        return
    names = list(dict.fromkeys(k for r in shown for k in r))
    header = page.rows[0]
    check(sorted(header) == sorted(names), "the headers are not the fields", header, names)
    check(len(page.rows) == len(shown) + 1, "the number of rows", len(page.rows) - 1, len(shown))
    for row, cells, titles in zip(shown, page.rows[1:], page.titles[1:]):
        check(len(cells) == len(header), "the number of cells", short(cells), header)
        for name, cell, title in zip(header, cells, titles):
            value = row.get(name, "")
            if not isinstance(value, (list, tuple, set, dict)):
                check(cell == str(value), f"cell of {name!r}", repr(cell), repr(value))
                check((title or "") == str(value), f"title of {name!r}", repr(title), repr(value))
            elif not isinstance(value, dict):
                check(all(str(v) in cell for v in value), f"cell of {name!r} lacks an item", repr(cell), short(value))
    if len(shown) > 1 and any("<" in str(v) or "&" in str(v) or "'" in str(v) for r in shown for v in r.values()):
        ctx.nt("markup in values")


class Thing:
    """of no kind which is known, and shown by its text"""

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text

    __repr__ = __str__


TEXTUAL = st.one_of(MARKUP, SPECIAL)
OBJECT = st.one_of(
    TEXTUAL.map(str.encode), TEXTUAL.map(Thing), TEXTUAL.map(Exception), TEXTUAL.map(lambda t: (t, 1)), TEXTUAL.map(lambda t: {t}), TEXTUAL.map(lambda t: frozenset([t])),
    TEXTUAL.map(lambda t: [Thing(t)]), TEXTUAL.map(lambda t: {"k": Thing(t)}), TEXTUAL.map(lambda t: [t.encode()]), st.dates(), st.decimals(allow_nan=False), INT64,
)


@PROP.test(
    st.tuples(sized_list(st.dictionaries(NAME, OBJECT, max_size=3), (1, 2, 3)), st.sampled_from([1, 5, None]), st.sampled_from([STORAGE_CLASS.NO_PERSISTANCE, STORAGE_CLASS.MEMORY])),
    quick=800,
    thorough=30000,
)
def objects(case, ctx):
    """values of any kind, such as the bytes in a parquet file, are shown as their text"""
    rows, limit, storage = case
    html({"rows": rows, "limit": limit, "class": storage}, ctx)


PROP.regress("objects", ([{"a": b"<script>"}], 5, STORAGE_CLASS.MEMORY), ([{"a": Thing("<b>")}], 5, STORAGE_CLASS.MEMORY))


PLAIN = weighted(3, st.text(alphabet="abXY 019.,", max_size=8), 1, st.tuples(st.sampled_from(["x", "ab "]), st.integers(10, 120)).map(lambda c: c[0] * c[1]), 1, INT64, 1, st.sampled_from([None, True, 1.5, "", "\u00e9t\u00e9"]))
PLAIN_ROW = st.dictionaries(st.sampled_from(["a", "b", "c", "a long name", "a name which is longer than its values are", "z"]), PLAIN, max_size=4)


@PROP.test(st.tuples(sized_list(PLAIN_ROW, (0, 1, 2, 3, 6, 8)), st.sampled_from([1, 2, 5, 100, None]), CASES.map(lambda c: c["class"])), quick=2000, thorough=80000)
def text(case, ctx):
    rows, limit, storage = case
    shown = rows[: 10 if limit is None else limit]
    lines = drawn(DictSet([dict(r) for r in rows], storage_class=storage), limit, False).split("\n")
    while lines and lines[-1] == "":
        lines.pop()
    check(len(lines) == len(shown) + 4, "the number of lines", len(lines), len(shown))
    check(len({len(line) for line in lines}) == 1, "the lines are not of one length", short(lines))
    top = lines[0]
    cuts = [i for i, c in enumerate(top) if c in "\u250c\u252c\u2510"]
    cells = lambda line: [line[a + 1 : b].strip() for a, b in zip(cuts, cuts[1:])]
    for line in [lines[1]] + lines[3:-1]:
        check(all(line[c] == "\u2502" for c in cuts), "a cell is not under its header", short(lines))
    names = list(dict.fromkeys(k for r in shown for k in r))
    if not names:
        return
    header = cells(lines[1])
    check(sorted(header) == sorted(names), "the headers are not the fields", header, names)
    for row, line in zip(shown, lines[3:-1]):
        expect_rows(cells(line), [str(row.get(n, "")).strip() for n in header], "a row's cells")
    if len(shown) > 1 and len({tuple(r) for r in shown}) > 1:
        ctx.nt("differing fields")


PROP.regress("text", ([{"a": 1}, {"b": "wide value"}], 5, STORAGE_CLASS.MEMORY))
PROP.regress("html", {"rows": [{"a": [1, 2]}], "limit": 5, "class": STORAGE_CLASS.MEMORY})


def many(count, width, columns):
    """records told apart by their number, in which the last character of each text is markup"""
    return [{"n": i, **{f"c{c}": ("&lt;" * width)[:width] + f"<{(i + c) * 7919 % 1000}>" for c in range(columns)}} for i in range(count)]


LARGE = st.tuples(st.sampled_from([12, 60, 120]), st.sampled_from([0, 8, 300]), st.sampled_from([1, 3, 20]))


@PROP.test(st.tuples(LARGE, st.sampled_from([11, 51, 101, 1000, None]), CASES.map(lambda c: c["class"]), st.booleans()), quick=40, thorough=1500)
def sizes(case, ctx):
    """many rows and columns, long values"""
    (count, width, columns), limit, storage, as_html = case
    if not as_html:
        width, columns = min(width, 40), min(columns, 12)
    rows = many(count, width, columns)
    if as_html:
        html({"rows": rows, "limit": limit, "class": storage}, ctx)
    else:
        text((rows, limit, storage), ctx)
    ctx.nt("html" if as_html else "text")


PROP.regress(
    "sizes",
    *[((240, 300, 10), 1000, STORAGE_CLASS.MEMORY, True), ((12, 0, 3), 11, STORAGE_CLASS.MEMORY, True), ((240, 40, 12), 1000, STORAGE_CLASS.MEMORY, False)],
)
