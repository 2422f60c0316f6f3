"""C23 - dates, durations and ranges of hours are understood exactly, however they are given."""
import datetime
import os
import re
import time

import numpy
import pandas

from domain import weighted
from harness import Property, check, frozen, same
from vhyp import st

from mabel.utils.dates import date_range, parse_delta, parse_iso

os.environ["TZ"] = "UTC"
time.tzset()

PROP = Property(
    "C23",
    rule="a case is a moment in one of the ways it can be given (ISO text of every length, separators, fractions and "
    "offsets; dates, datetimes, timestamps, numpy and pandas values), a duration written in parts, a range between two "
    "moments, or text with a few characters changed; non-trivial = text with a time, a value which is refused, a duration "
    "of several parts or a range of several hours over a change of day",
    assumptions=[
        "offsets are ignored and fractions of seconds dropped from text, as documented; numbers are seconds since 1970 (UTC here)",
        "text is up to 33 characters long, what comes after the seconds is not looked at; text which only differs in what Python takes as a number (1_0, ' 1') is not judged",
        "durations are written in the order days, hours, minutes, seconds; what follows them is not looked at",
    ],
)
MIN, MAX = datetime.datetime(1000, 1, 1), datetime.datetime(9999, 12, 31, 23, 59, 59)
MOMENT = weighted(
    3,
    st.datetimes(MIN, MAX),
    3,
    st.datetimes(datetime.datetime(1969, 12, 30), datetime.datetime(2038, 1, 20)),
    1,
    st.sampled_from(
        [
            datetime.datetime(2020, 2, 29),
            datetime.datetime(2000, 2, 29, 23, 59, 59, 999999),
            datetime.datetime(1970, 1, 1),
            datetime.datetime(2021, 12, 31, 23, 59),
            datetime.datetime(2021, 10, 10, 10, 10, 10),
        ]
    ),
).map(lambda d: d.replace(fold=0))

OFFSET = st.sampled_from(["+0000", "+00:00", "+01:00", "+0530", "-05:00", "-0800", "+13", "-11"])


@st.composite
def written(draw):
    """(text, the moment it stands for)"""
    moment = draw(MOMENT)
    sep = draw(st.sampled_from("--:"))
    t = draw(st.sampled_from("T "))
    c = draw(weighted(5, st.just(":"), 1, st.just("-")))
    text = f"{moment.year:04d}{sep}{moment.month:02d}{sep}{moment.day:02d}"
    length = draw(st.sampled_from(["day", "minute", "second", "second", "fraction", "fraction"]))
    if length == "day":
        return text + draw(st.sampled_from(["", "", "Z"])), moment.replace(hour=0, minute=0, second=0, microsecond=0)
    text += f"{t}{moment.hour:02d}{c}{moment.minute:02d}"
    expected = moment.replace(second=0, microsecond=0)
    if length != "minute":
        text += f"{c}{moment.second:02d}"
        expected = moment.replace(microsecond=0)
    if length == "fraction":
        text += "." + (f"{moment.microsecond:06d}" + draw(st.sampled_from(["000", "789", "999"])))[: draw(st.integers(1, 8))]
    tail = draw(weighted(2, st.just(""), 1, st.just("Z"), 2, OFFSET))
    if tail[:1] == "-" and c == "-":
        tail = ""
    if len(text + tail) > 33:
        text = text[: 33 - len(tail)]
    return text + tail, expected


@PROP.test(written(), quick=6000, thorough=400000)
def text(case, ctx):
    value, expected = case
    check(same(parse_iso(value), expected), f"parse_iso({value!r}) gave", parse_iso(value), "expected", expected)
    if len(value) > 11:
        ctx.nt("time")


ODD = st.sampled_from(list("0123456789-:T Z+./,x\u0661\u00b2\x00") + ["", "00", "--"])


@st.composite
def spoilt(draw):
    value = draw(written())[0]
    for _ in range(draw(st.integers(1, 3))):
        at = draw(st.integers(0, len(value)))
        width = draw(st.sampled_from([0, 1, 1, 1, 2]))
        value = value[:at] + draw(ODD) + value[at + width :]
    return value


WELL = re.compile(r"(\d{4})[-:](\d\d)[-:](\d\d)(?:[T ](\d\d)[-:](\d\d)(?:[-:](\d\d)(?:\.[\d]+)?)?)?", re.ASCII)
TAIL = re.compile(r"Z?|\+.{0,6}|-[\d:]{0,5}", re.ASCII | re.DOTALL)


@PROP.test(weighted(8, spoilt(), 1, st.text(max_size=40)), quick=6000, thorough=400000)
def other_text(value, ctx):
    result = parse_iso(value)
    check(result is None or type(result) is datetime.datetime, f"parse_iso({value!r}) gave", repr(result))
    if re.search(r"[\s_+]", value[:19].replace(value[10:11], "?", 1) if len(value) > 10 else value) or not value.isascii():
        return
    head = WELL.match(value)
    if head and value[13:14] == ":" and value[16:17] == "-":
        return  # an offset, or seconds
    if not head:
        check(result is None, f"parse_iso({value!r}) gave", result)
        ctx.nt("refused")
        return
    try:
        numbers = [int(g) for g in head.groups() if g]
        expected = datetime.datetime(*numbers)
    except ValueError:
        # a day or hour which does not exist
        if TAIL.fullmatch(value, head.end()) and (len(numbers) == 6 or head.end() in (10, 16)) and len(value) <= 28:
            check(result is None, f"parse_iso({value!r}) gave", result)
            ctx.nt("no such moment")
        return
    if head.end() in (10, 16) and head.end() == len(value) or head.end() == 19 == len(value) or (head.end() > 20 and head.end() == len(value) <= 33):
        check(same(result, expected), f"parse_iso({value!r}) gave", result, "expected", expected)


UNITS = {
    "ns": 0, "us": 0, "ms": 0, "s": 0, "m": 1, "h": 2, "D": 3,
}


def as_object(moment, kind):
    """(value, expected)"""
    whole = moment.replace(microsecond=0)
    if kind == "datetime":
        return moment, moment
    if kind == "aware":
        aware = moment.replace(tzinfo=datetime.timezone(datetime.timedelta(hours=3)))
        return aware, aware
    if kind == "date":
        return moment.date(), datetime.datetime(moment.year, moment.month, moment.day)
    if kind == "int":
        return int((whole - datetime.datetime(1970, 1, 1)).total_seconds()), whole
    if kind == "float":
        return (whole - datetime.datetime(1970, 1, 1)).total_seconds() + 0.5, whole.replace(microsecond=500000)
    if kind == "pandas":
        return pandas.Timestamp(moment), moment
    unit = kind
    expected = moment
    if unit in ("s", "m", "h", "D"):
        expected = whole
    if unit in ("m", "h", "D"):
        expected = expected.replace(second=0)
    if unit in ("h", "D"):
        expected = expected.replace(minute=0)
    if unit == "D":
        expected = expected.replace(hour=0)
    if unit == "ms":
        expected = moment.replace(microsecond=moment.microsecond // 1000 * 1000)
    value = numpy.datetime64(expected, "us").astype(f"datetime64[{unit}]")
    return value, expected


KINDS = ["datetime", "aware", "date", "int", "float", "pandas", *UNITS]
OBJECT = st.tuples(
    st.datetimes(datetime.datetime(1700, 1, 1), datetime.datetime(2250, 1, 1)).map(lambda d: d.replace(fold=0)),
    st.sampled_from(KINDS),
)


@PROP.test(OBJECT, quick=3000, thorough=200000)
def objects(case, ctx):
    value, expected = as_object(*case)
    result = parse_iso(value)
    check(type(result) is datetime.datetime and result == expected and result.tzinfo == expected.tzinfo, f"parse_iso({value!r}) gave", repr(result), "expected", expected)
    ctx.nt(case[1])


NOT_DATES = st.one_of(
    st.none(),
    st.booleans(),
    st.binary(max_size=12),
    st.just(b"2021-01-02"),
    st.lists(st.integers(), max_size=3),
    st.dictionaries(st.text(max_size=2), st.integers(), max_size=2),
    st.sampled_from([float("inf"), float("-inf"), float("nan"), 1e300, -1e300, 10**30, -(10**30), 1e17, 10**17, numpy.datetime64("NaT"), numpy.datetime64("NaT", "ns"), datetime.time(3), datetime.timedelta(3)]),
    st.integers(10**13, 10**40).flatmap(lambda n: st.sampled_from([n, -n, float(n)])),
)


@PROP.test(NOT_DATES, quick=1000, thorough=20000)
def no_dates(value, ctx):
    check(parse_iso(value) is None, f"parse_iso({value!r}) gave", repr(parse_iso(value)))
    ctx.nt()


PART = st.one_of(st.none(), st.integers(-400, 400), st.integers(-100000, 100000))


@st.composite
def durations(draw):
    parts = [draw(PART) for _ in range(4)]
    text = ""
    for part, unit in zip(parts, "dhms"):
        if part is not None:
            number = str(part)
            if draw(st.integers(0, 5)) == 0:
                number = number[:1].replace("-", "-0") + number[1:] if part < 0 else "0" + number
            text += number + draw(st.sampled_from([unit, unit.upper()]))
    tail = draw(weighted(4, st.just(""), 1, st.sampled_from([" ", " 1x", "x", " 5d", "-", ".5h", "5"])))
    return parts, text + tail


@PROP.test(durations(), quick=3000, thorough=200000)
def duration(case, ctx):
    parts, text = case
    d, h, m, s = [p or 0 for p in parts]
    expected = datetime.timedelta(seconds=((d * 24 + h) * 60 + m) * 60 + s)
    check(parse_delta(text) == expected, f"parse_delta({text!r}) gave", repr(parse_delta(text)), "expected", repr(expected))
    if sum(p is not None for p in parts) > 1:
        ctx.nt("several parts")


@PROP.test(st.text(max_size=8), quick=500, thorough=20000)
def no_duration(text, ctx):
    if not re.match(r"-?\d+[dhms]", text, re.IGNORECASE):
        check(parse_delta(text) == datetime.timedelta(), f"parse_delta({text!r}) gave", repr(parse_delta(text)))
        ctx.nt("none")


FORMS = ["datetime", "date", "day text", "iso", "minute text", "none"]


@st.composite
def ranges(draw):
    start = draw(MOMENT)
    try:
        end = start + draw(weighted(5, st.timedeltas(datetime.timedelta(hours=-30), datetime.timedelta(days=5)), 1, st.timedeltas(datetime.timedelta(), datetime.timedelta(days=40))))
    except OverflowError:
        end = start
    if not MIN <= end <= MAX:
        end = start
    return start, end, draw(st.sampled_from(FORMS)), draw(st.sampled_from(FORMS))


def as_bound(moment, form, last, now):
    """(the value given, the first or last hour it stands for)"""
    hour = moment.replace(minute=0, second=0, microsecond=0)
    day = hour.replace(hour=23 if last else 0)
    if form == "datetime":
        return moment, hour
    if form == "iso":
        return moment.isoformat(), hour
    if form == "minute text":
        return moment.strftime("%Y-%m-%d %H:%M"), hour
    if form == "date":
        return moment.date(), day
    if form == "day text":
        return moment.strftime("%Y-%m-%d"), day
    return None, now.replace(minute=0, second=0, microsecond=0)


@PROP.test(ranges(), quick=2500, thorough=60000)
def hours(case, ctx):
    start, end, start_form, end_form = case
    now = start if end_form == "none" else end
    first_given, first = as_bound(start, start_form, False, now)
    last_given, last = as_bound(end, end_form, True, now)
    if (last - first) > datetime.timedelta(days=60):
        return
    expected, hour = [], first
    while hour <= last:
        expected.append(hour)
        if hour >= datetime.datetime(9999, 12, 31, 23):
            break
        hour += datetime.timedelta(hours=1)

    def thawed(value):
        # the frozen clock comes with its own datetime and date
        if isinstance(value, datetime.datetime):
            return datetime.datetime(*value.timetuple()[:6], value.microsecond)
        return datetime.date(*value.timetuple()[:3]) if isinstance(value, datetime.date) else value

    def run():
        try:
            return list(date_range(thawed(first_given), thawed(last_given)))
        except ValueError as exc:
            return str(exc)

    if "none" in (start_form, end_form):
        if not datetime.datetime(1975, 1, 1) < now < datetime.datetime(2200, 1, 1):
            return
        with frozen(now, case):
            result = run()
    else:
        result = run()
    what = f"date_range({first_given!r}, {last_given!r})" + (f" at {now}" if "none" in (start_form, end_form) else "")
    if last < first:
        check(isinstance(result, str), f"{what} gave", result)
        ctx.nt("backwards")
        return
    check(not isinstance(result, str), f"{what} raised", result)
    check(result == expected, f"{what} gave {len(result)} hours from", *result[:2], "to", *result[-2:], "expected", len(expected), *expected[:1], *expected[-1:])
    if len({h.date() for h in expected}) > 1:
        ctx.nt("several days")


PROP.regress("no_dates", *[float("inf"), 1e300, 10**30])
PROP.regress("objects", (datetime.datetime(2021, 3, 2, 3, 4, 5), "ns"))
PROP.regress("text", ("2021-03-02T03:04-05:00", datetime.datetime(2021, 3, 2, 3, 4)))
