"""C22 - the functions of a select give, for every record, what their names say."""
import datetime
import hashlib
import math
import re
from fractions import Fraction

import orjson
from orso.cityhash import CityHash64

from checks.C11 import Style, write_text
from domain import TEXT, sized_list, weighted
from harness import Property, Violation, check, same, short
from store import put, read
from vhyp import st

from mabel.data.readers.internals.inline_evaluator import Evaluator

PROP = Property(
    "C22",
    rule="a case is a list of columns (fields, literals, calls of every function nested up to three deep, aliases, quoted "
    "names, any case and spacing) and records with nulls, gaps, dates, datetimes, large integers and lists; every value "
    "and column name is compared with a direct evaluation; non-trivial = a nested call, or two records with different results",
    assumptions=[
        "text functions work on Python's text of the value; a function which can't be applied to a value gives null",
        "date functions take dates, datetimes and ISO text; MID counts from zero; BETWEEN excludes its bounds",
        "a quoted date is a datetime",
    ],
)

TEXTS = weighted(3, st.sampled_from(["abc", "ABC", "", "a b", "x, y", "(z", "it's", " pad ", "AS", "\u00e9\u00df", "12", "-3", "1.5", "true", "False", "\n x\t\n", "\u00a0pad\u2003", "\x0bv\x0c"]), 1, TEXT)
INTS = weighted(5, st.integers(-5, 12), 2, st.integers(-(2**63), 2**63 - 1), 1, st.sampled_from([2**53 + 1, 1346604539923853313]))
FLOATS = st.one_of(
    st.sampled_from([0.0, 1.5, -1.5, 2.567, 0.5, 2.5, 1e10, -0.4, 1.0]), st.floats(-1e6, 1e6), st.floats(allow_nan=False, allow_infinity=False)
)
MOMENTS = st.datetimes(datetime.datetime(1900, 1, 1), datetime.datetime(2100, 1, 1)).map(lambda d: d.replace(microsecond=0, fold=0))
DAYS = st.dates(datetime.date(1900, 1, 1), datetime.date(2100, 1, 1))
EDGES = st.sampled_from([datetime.datetime(2020, 2, 29, 23, 59, 59), datetime.datetime(2021, 1, 3), datetime.datetime(2020, 12, 31, 12), datetime.datetime(2021, 3, 31), datetime.datetime(2018, 12, 31), datetime.datetime(2024, 10, 1), datetime.datetime(9999, 12, 31, 1), datetime.datetime(1, 1, 1)])
ISO = st.one_of(MOMENTS, EDGES).flatmap(
    lambda d: st.sampled_from([d.isoformat(), d.isoformat(" "), d.isoformat()[:16], d.isoformat()[:10], d.isoformat() + "Z", d.isoformat() + ".123456"])
)
FIELDS = {
    "t": TEXTS,
    "n": INTS,
    "f": FLOATS,
    "b": st.booleans(),
    "d": weighted(2, MOMENTS, 1, EDGES, 2, DAYS, 2, ISO),
    "e": weighted(2, MOMENTS, 2, DAYS, 2, ISO),
    "s": st.one_of(st.lists(st.integers(-3, 3), max_size=4), st.lists(st.sampled_from(["b", "a", "", "c"]), max_size=4)),
    "first name": TEXTS,
    "any": st.one_of(TEXTS, INTS, FLOATS, st.booleans(), MOMENTS, DAYS, st.lists(st.integers(0, 3), max_size=2)),
    "num": weighted(2, INTS, 1, FLOATS, 1, st.sampled_from(["12", "-7", "1346604539923853313", "2.75", "abc", "", "1e3", "inf", "-Infinity", "1e400", "nan", "3.14159265358979", "1e-20", "-0.99999999999999"])),
}
RECORD = st.fixed_dictionaries({}, optional={f: weighted(8, v, 1, st.none()) for f, v in FIELDS.items()})


def moment(value):
    if type(value) is datetime.date:
        return datetime.datetime(value.year, value.month, value.day)
    if isinstance(value, datetime.datetime):
        return value
    if isinstance(value, str):
        found = re.fullmatch(r"(\d{4})-(\d\d)-(\d\d)(?:[T ](\d\d):(\d\d)(?::(\d\d)(?:\.\d+)?)?)?Z?", value)
        try:
            return datetime.datetime(*(int(g or 0) for g in found.groups())) if found else None
        except ValueError:
            return None
    return None


def dated(function):
    return lambda v: None if moment(v) is None else function(moment(v))


def whole(value):
    """the whole part of a number or of the text of one"""
    if value is None:
        return None
    if isinstance(value, str):
        value = Fraction(value.strip()) if re.fullmatch(r"-?\d+", value.strip()) else Fraction(float(value))
    return math.trunc(Fraction(value))


def joined(*values):
    if len(values) == 1 and isinstance(values[0], list):
        return ", ".join(str(v) for v in values[0])
    return "".join(str(v) for v in values)


def add_days(day, count):
    if isinstance(day, str):
        day = moment(day)
    return day + datetime.timedelta(count) if isinstance(day, datetime.date) else None


def days_between(a, b):
    a, b = moment(a), moment(b)
    return None if a is None or b is None else math.floor(Fraction(int((b - a) // datetime.timedelta(seconds=1)), 86400))


# name: what it takes, what it gives, the function
FUNCTIONS = {
    "YEAR": (["date"], "num", dated(lambda d: d.year)),
    "MONTH": (["date"], "num", dated(lambda d: d.month)),
    "DAY": (["date"], "num", dated(lambda d: d.day)),
    "HOUR": (["date"], "num", dated(lambda d: d.hour)),
    "MINUTE": (["date"], "num", dated(lambda d: d.minute)),
    "SECOND": (["date"], "num", dated(lambda d: d.second)),
    "QUARTER": (["date"], "num", dated(lambda d: (d.month + 2) // 3)),
    "WEEK": (["date"], "num", dated(lambda d: d.isocalendar()[1])),
    "DATE": (["date"], "date", dated(lambda d: d.date())),
    "TIME": (["date"], "time", dated(lambda d: d.time())),
    "ADDDAYS": (["date", "small"], "date", add_days),
    "DAYSDIFF": (["date", "date"], "num", days_between),
    "UCASE": (["any"], "text", lambda v: str(v).upper()),
    "UPPER": (["any"], "text", lambda v: str(v).upper()),
    "LCASE": (["any"], "text", lambda v: str(v).lower()),
    "LOWER": (["any"], "text", lambda v: str(v).lower()),
    "TRIM": (["text"], "text", lambda v: str(v).strip()),
    "LEN": (["sized"], "num", lambda v: sum(1 for _ in v)),
    "STRING": (["any"], "text", lambda v: joined(v)),
    "LEFT": (["any", "count"], "text", lambda v, n: "".join(ch for i, ch in enumerate(str(v)) if i < n)),
    "RIGHT": (["any", "count"], "text", lambda v, n: "".join(ch for i, ch in enumerate(str(v)) if i >= len(str(v)) - n)),
    "MID": (["any", "count", "count"], "text", lambda v, s, n: "".join(ch for i, ch in enumerate(str(v)) if s <= i < s + n)),
    "CONCAT": (["any", "any"], "text", joined),
    "ROUND": (["num", "places"], "num", lambda v, *n: round(v, *n)),
    "TRUNC": (["numeral"], "num", whole),
    "INTEGER": (["numeral"], "num", whole),
    "DOUBLE": (["numeral"], "num", lambda v: None if v is None else float(v)),
    "BOOLEAN": (["bool"], "bool", lambda v: str(v).lower() != "false"),
    "ISNONE": (["any"], "bool", lambda v: v is None),
    "HASH": (["any"], "text", lambda v: format(CityHash64(str(v)), "X")),
    "MD5": (["any"], "text", lambda v: hashlib.md5(str(v).encode()).hexdigest()),
    "BETWEEN": (["num", "num", "num"], "bool", lambda v, low, high: v > low and v < high),
    "SORT": (["list"], "list", lambda v: sorted(v)),
}


# an expression: ("field", name) | ("lit", value) | ("call", name, expressions)
LITERALS = {
    "text": st.sampled_from(["abc", "", "x, y", "(z", "it's", " pad ", "A as B", 'say "hi"', "UPPER", ")"]),
    "num": st.one_of(st.integers(-9, 9), st.sampled_from([1.5, -0.5, 2.25])),
    "date": st.sampled_from([datetime.datetime(2021, 1, 2), datetime.datetime(2020, 2, 29, 10, 11, 12), datetime.datetime(1999, 12, 31, 23, 59)]),
    "small": st.integers(-400, 400),
    "count": st.integers(0, 6),
    "places": st.integers(0, 3),
    "bool": st.booleans(),
}
OF_KIND = {
    "text": ["t", "first name", "missing"], "num": ["n", "f"], "date": ["d", "e"], "bool": ["b"], "list": ["s"], "sized": ["t", "s", "first name", "any"],
    "numeral": ["num", "n", "f"], "any": list(FIELDS) + ["missing"], "small": [], "count": [], "places": [],
}


def expressions(kind, depth):
    options = [st.sampled_from(OF_KIND[kind]).map(lambda f: ("field", f))] * 3 if OF_KIND[kind] else []
    if kind in LITERALS:
        options += [LITERALS[kind].map(lambda v: ("lit", v))]
    if kind in ("any", "sized"):
        options += [LITERALS["text"].map(lambda v: ("lit", v))]
    if kind == "any":
        options += [LITERALS["num"].map(lambda v: ("lit", v)), st.just(("lit", None)), LITERALS["date"].map(lambda v: ("lit", v))]
    if depth:
        names = [n for n, (_, gives, _) in FUNCTIONS.items() if gives == kind or kind == "any" or kind == "sized" and gives in ("text", "list")]
        if names:
            options += [st.sampled_from(names).flatmap(lambda n: call(n, depth - 1))] * 3
    return st.integers(0, len(options) - 1).flatmap(lambda i: options[i])


def call(name, depth):
    if name == "CONCAT":
        # any number of things
        return st.integers(1, 5).flatmap(lambda n: st.tuples(st.just("call"), st.just(name), st.tuples(*[expressions("any", depth)] * n)))
    if name == "ROUND":
        return st.integers(1, 2).flatmap(lambda n: st.tuples(st.just("call"), st.just(name), st.tuples(*[expressions(k, depth) for k in ("num", "places")[:n]])))
    return st.tuples(st.just("call"), st.just(name), st.tuples(*[expressions(k, depth) for k in FUNCTIONS[name][0]]))


COLUMN = weighted(
    6, st.sampled_from(sorted(FUNCTIONS)).flatmap(lambda n: st.integers(0, 2).flatmap(lambda d: call(n, d))),
    2, st.sampled_from([*FIELDS, "missing"]).map(lambda f: ("field", f)),
    1, st.sampled_from(["text", "num", "date", "bool"]).flatmap(lambda k: LITERALS[k]).map(lambda v: ("lit", v)),
)
ALIAS = weighted(2, st.none(), 1, st.sampled_from(["x", "y1", "total", "has", "my col"]))


def evaluate(e, record):
    if e[0] == "field":
        return record.get(e[1])
    if e[0] == "lit":
        return e[1]
    values = [evaluate(a, record) for a in e[2]]
    try:
        return FUNCTIONS[e[1]][2](*values)
    except (TypeError, ValueError, OverflowError):
        return None


def tokens(e, style):
    """how an expression is written: its text and the name of its column"""
    if e[0] == "field":
        quoted = "`" + e[1] + "`"
        if not e[1].isidentifier() or style.pick([0, 0, 0, 1]):
            return quoted, quoted
        return e[1], e[1]
    if e[0] == "lit":
        v = e[1]
        if isinstance(v, str):
            text = write_text(v, style)
        elif isinstance(v, datetime.datetime):
            text = "'" + v.isoformat(style.pick(["T", " "])) + "'"
        elif v is None or isinstance(v, bool):
            text = style.keyword("NULL" if v is None else str(v).upper())
        else:
            text = repr(v)
        return text, text
    parts = [tokens(a, style) for a in e[2]]
    text = style.keyword(e[1]) + style.maybe() + "(" + ("," + style.maybe()).join(style.maybe() + t for t, _ in parts) + style.maybe() + ")"
    return text, f"{e[1]}({','.join(n for _, n in parts)})"


def depth(e):
    return 1 + max((depth(a) for a in e[2]), default=0) if e[0] == "call" else 0


@st.composite
def cases(draw):
    items = draw(st.lists(st.tuples(COLUMN, ALIAS), min_size=1, max_size=4))
    return items, draw(st.booleans()), draw(sized_list(RECORD, (1, 2, 4))), draw(st.lists(st.integers(0, 59), min_size=1, max_size=10))


def agree(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or math.isnan(a) and math.isnan(b)
    return same(a, b)


@PROP.test(cases(), quick=12000, thorough=500000)
def evaluates(case, ctx):
    items, star, records, choices = case
    style = Style(choices)
    written, columns = [], {}
    for e, alias in items:
        text, label = tokens(e, style)
        label = label.strip("`") if e[0] == "field" else label
        if alias:
            text += style.space() + style.keyword("AS") + style.space() + (f"`{alias}`" if " " in alias else alias)
        columns[alias or label] = e
        written.append(text)
    if star:
        written.insert(style.pick(range(len(written) + 1)), "*")
    select = ("," + style.maybe()).join(written)
    expected = []
    for r in records:
        row = dict(r) if star else {}
        row.update({label: evaluate(e, r) for label, e in columns.items()})
        expected.append(row)
    before = [dict(r) for r in records]
    evaluator = Evaluator(select)
    for _ in range(2):
        for r, want in zip(records, expected):
            got = evaluator(r)
            if not (got.keys() == want.keys() and all(agree(got[k], want[k]) for k in want)):
                raise Violation(f"select {select!r} of {short(r)} | got={short(got)} | expected={short(want)}")
    check(same(before, records), "evaluating changed the records")
    if all(d for d in [max(depth(e) for e, _ in items) > 1]) or len({repr([w[k] for k in columns]) for w in expected}) > 1:
        ctx.nt()
    for e, _ in items:
        if e[0] == "call":
            ctx.label(e[1])


def json_only(value):
    return value.isoformat() if isinstance(value, (datetime.date, datetime.datetime)) else value


@PROP.test(cases(), quick=1500, thorough=60000)
def reads(case, ctx):
    """through a reader, over records stored as JSON: no record is lost to a value a function can't take"""
    items, star, records, choices = case
    style = Style(choices)
    records = [{k: json_only(v) for k, v in r.items()} for r in records]
    written, columns = [], {}
    for e, alias in items:
        text, label = tokens(e, style)
        columns[alias or (label.strip("`") if e[0] == "field" else label)] = e
        written.append(text + (f" AS `{alias}`" if alias else ""))
    select = ", ".join(written + ["*"] * star)
    root = ctx.fresh()
    put(f"{root}/d/a.jsonl", b"".join(orjson.dumps(r) + b"\n" for r in records))
    got = read(f"{root}/d", partitions=None, select=select)
    want = [{**(r if star else {}), **{label: evaluate(e, r) for label, e in columns.items()}} for r in records]
    if not (len(got) == len(want) and all(g.keys() == w.keys() and all(agree(g[k], w[k]) for k in w) for g, w in zip(got, want))):
        raise Violation(f"reading with select {select!r} of {short(records)} | got={short(got)} | expected={short(want)}")
    if len(records) > 1 and any(e[0] == "call" for e, _ in items):
        ctx.nt()


@PROP.test(st.tuples(st.integers(1, 20), st.integers(0, 5)), quick=30, thorough=200)
def changing(case, ctx):
    """NOW and RANDOM are evaluated for each record"""
    count, start = case
    rows = [Evaluator("RANDOM() AS r, NOW() AS n, *")({"i": i}) for i in range(count)]
    for row in rows:
        check(0 <= row["r"] < 1 and isinstance(row["r"], float), "RANDOM()", row["r"])
    check(all(a["n"] <= b["n"] for a, b in zip(rows, rows[1:])), "NOW() went back", short(rows))
    check(abs(rows[-1]["n"] - datetime.datetime.now()) < datetime.timedelta(seconds=60), "NOW()", rows[-1]["n"])
    if count > 12:
        check(len({r["r"] for r in rows}) > 3, "RANDOM() repeats itself", short(rows))
        ctx.nt()
