"""C06 - a read covers exactly the requested time range (and the freshness limit's step back)."""
import datetime
import math

import orjson

from domain import sized_list, weighted
from harness import Property, check, expect_rows, frozen
from store import put, read
from vhyp import st

from mabel.adapters.disk import DiskReader
from mabel.data import Reader
from mabel.errors import DataNotFoundError, InvalidCombinationError

PROP = Property(
    "C06",
    rule="a case is a set of moments holding data, laid out under one partition scheme (daily, hourly, monthly, "
    "placeholders in the dataset name ...), next to other datasets with similar names and files that are not data, and "
    "a read range (either end omitted, given as date / datetime / text, possibly reversed, or one date with a freshness "
    "limit) under a frozen clock; non-trivial = some but not all of the data is in the range, or the read stepped back",
    assumptions=[
        "a range end given without a time covers that whole day; an omitted end is the current hour",
        "ranges are naive UTC times between 2019 and 2023",
    ],
)

NOW = datetime.datetime(2021, 3, 2, 15, 20, 5)
SCHEMES = {
    "default": ("ds", ["year_{yyyy}/month_{mm}/day_{dd}"]),
    "split": ("ds", ["{yyyy}", "{mm}", "{dd}"]),
    "short": ("ds", ["{yyyy}/{mm}/{dd}"]),
    "hourly": ("ds", ["year_{yyyy}/month_{mm}/day_{dd}/{HH}"]),
    "by hour": ("ds", ["year_{yyyy}/month_{mm}/day_{dd}/by_hour/hour={HH}"]),
    "monthly": ("ds", ["y{yyyy}m{mm}"]),
    "yearly": ("ds", ["{yyyy}"]),
    "in the name": ("ds/{yyyy}/sub_{mm}-{dd}", None),
    "name and list": ("ds/{yyyy}", ["m{mm}d{dd}"]),
}


def around(moment):
    hours = st.one_of(
        st.integers(-30, 30), st.integers(-30, 30).map(lambda d: d * 24), st.sampled_from([0, 1, -1, 24, -24, -365 * 24, 365 * 24])
    )
    return hours.map(lambda h: moment + datetime.timedelta(hours=h))


MOMENT = st.one_of(
    around(NOW.replace(minute=0, second=0)),
    around(datetime.datetime(2020, 2, 29, 23, 0)),
    around(datetime.datetime(2021, 1, 1, 0, 0)),
)
SPELL = st.sampled_from(["date", "text", "datetime", "minutes", "seconds", "T"])


def spell(moment, how):
    """what the caller passes for this moment"""
    # built here, while the clock is frozen, so they are of the types the frozen clock uses
    moment = datetime.datetime(*moment.timetuple()[:6])
    if how == "date":
        return datetime.date(moment.year, moment.month, moment.day)
    if how == "text":
        return moment.date().isoformat()
    if how == "datetime":
        return moment
    return moment.strftime({"minutes": "%Y-%m-%d %H:%M", "seconds": "%Y-%m-%d %H:%M:%S", "T": "%Y-%m-%dT%H:%M:%SZ"}[how])


def render(pattern, moment):
    for mark, fmt in (("yyyy", "%Y"), ("mm", "%m"), ("dd", "%d"), ("HH", "%H")):
        pattern = pattern.replace("{" + mark + "}", moment.strftime(fmt))
    return pattern


def folder(root, scheme, moment):
    name, parts = SCHEMES[scheme]
    return f"{root}/" + render("/".join([name] + (parts or [])), moment)


def lay_out(root, scheme, moments):
    """path -> rows; one blob per moment, several moments may share a folder"""
    data = {}
    for i, moment in enumerate(sorted(set(moments))):
        path = folder(root, scheme, moment)
        put(f"{path}/blob-{i:03}.jsonl", orjson.dumps({"n": i}) + b"\n")
        data.setdefault(path, []).append({"n": i})
        # neighbours which are not this dataset's data
        if i % 3 == 0:
            put(f"{path}/notes.tmp", b"not data")
            put(f"{path}/BACKOUT/bad.jsonl", orjson.dumps({"n": "backout"}) + b"\n")
        if i % 3 == 1:
            other = path.replace(f"{root}/ds", f"{root}/ds2", 1)
            put(f"{other}/x.jsonl", orjson.dumps({"n": "other dataset"}) + b"\n")
            put(f"{path}/blob.manifest", b"{}")
    return data


@PROP.test(
    st.fixed_dictionaries(
        {
            "scheme": st.sampled_from(sorted(SCHEMES)),
            "data": sized_list(MOMENT, (1, 2, 4, 8, 16)),
            "start": weighted(1, st.none(), 5, st.tuples(MOMENT, SPELL)),
            "end": weighted(1, st.none(), 5, st.tuples(MOMENT, SPELL)),
            "near": st.booleans(),
        }
    ),
    quick=1200,
    thorough=40000,
)
def date_range(case, ctx):
    root = ctx.fresh()
    moments = list(case["data"])
    # data at and beside the ends of the range, where mistakes show
    if case["near"]:
        for end in (case["start"], case["end"]):
            if end:
                for delta in (-24, -1, 0, 1, 24):
                    moments.append(end[0] + datetime.timedelta(hours=delta))
                moments.append(end[0].replace(hour=0))
                moments.append(end[0].replace(hour=23))
    data = lay_out(root, case["scheme"], moments)

    current = NOW.replace(minute=0, second=0)
    ends = []
    kwargs = {}
    for name in ("start", "end"):
        if case[name] is None:
            ends.append((current, True))
        else:
            timed = case[name][1] not in ("date", "text")
            ends.append((case[name][0] if timed else datetime.datetime.combine(case[name][0].date(), datetime.time.min), timed))
    if ends[0][0] <= ends[1][0]:
        (start, _), (end, timed) = ends
    else:
        (end, timed), (start, _) = ends
    start = start.replace(minute=0, second=0)
    end = end.replace(minute=0, second=0) if timed else end.replace(hour=23)
    wanted = set()
    hour = start
    while hour <= end:
        wanted.add(folder(root, case["scheme"], hour))
        hour += datetime.timedelta(hours=1)
    expected = [row for path, rows in data.items() if path in wanted for row in rows]

    name, parts = SCHEMES[case["scheme"]]
    with frozen(NOW, case):
        for end_name in ("start", "end"):
            if case[end_name] is not None:
                kwargs[f"{end_name}_date"] = spell(*case[end_name])
        got = read(f"{root}/{name}", partitions=parts, **kwargs)
    expect_rows(got, expected, f"range {start}..{end} under '{case['scheme']}'", ordered=False)
    if 0 < len(expected) < sum(map(len, data.values())):
        ctx.nt(case["scheme"])
    if ends[0][0] > ends[1][0]:
        ctx.label("reversed")
    if case["start"] is None or case["end"] is None:
        ctx.label("an end omitted")


LIMITS = {
    "": 0, "1d": 1, "2d": 2, "3d": 3, "10d": 10, "24h": 1, "23h": 23 / 24, "36h": 1.5, "1d12h": 1.5, "47h59m": 47.99 / 24,
    "48h": 2, "1440m": 1, "1439m59s": 1439.99 / 1440, "172800s": 2, "12h": 0.5, "90m": 0.0625,
}


@PROP.test(
    st.fixed_dictionaries(
        {
            "scheme": st.sampled_from(["default", "short", "in the name"]),
            "ages": st.sets(st.sampled_from([0, 1, 2, 3, 4, 5, 9, 10, 11]), max_size=4),
            "future": st.booleans(),
            "framed": st.sampled_from(["none", "complete", "incomplete newest"]),
            "limit": st.sampled_from(sorted(LIMITS)),
            "on": st.sampled_from([None, "date", "text"]),
        }
    ),
    quick=1200,
    thorough=20000,
)
def freshness(case, ctx):
    """With a freshness limit, the newest day with data at most that old is read, otherwise nothing."""
    root = ctx.fresh()
    base = NOW.date()
    by_age = {}
    newest = min(case["ages"], default=None)
    for age in sorted(case["ages"]) + ([-1] if case["future"] else []):
        moment = datetime.datetime.combine(base - datetime.timedelta(days=age), datetime.time(1))
        path = folder(root, case["scheme"], moment)
        rows = [{"age": age, "n": n} for n in range(2)]
        if case["framed"] == "none":
            target = path
        else:
            target = f"{path}/as_at_20200101-000000"
            if not (case["framed"] == "incomplete newest" and age == newest):
                put(f"{target}/frame.complete")
        put(f"{target}/a.jsonl", b"".join(orjson.dumps(r) + b"\n" for r in rows))
        if case["framed"] == "incomplete newest" and age == newest:
            continue
        by_age[age] = rows
    days = math.floor(LIMITS[case["limit"]])
    candidates = [age for age in sorted(by_age) if 0 <= age <= days]
    expected = by_age[candidates[0]] if candidates else None
    name, parts = SCHEMES[case["scheme"]]
    with frozen(NOW, case):
        kwargs = {} if case["on"] is None else {"start_date": spell(NOW, case["on"]), "end_date": spell(NOW, case["on"])}
        if case["limit"]:
            kwargs["freshness_limit"] = case["limit"]
        try:
            got = [dict(r) for r in Reader(inner_reader=DiskReader, dataset=f"{root}/{name}", partitions=parts, **kwargs)]
        except DataNotFoundError:
            got = None
    if expected is None:
        check(got is None, f"nothing within {case['limit'] or 'no limit'} but rows were returned", got)
    else:
        check(got is not None, f"data aged {candidates[0]} days is within {case['limit'] or 'no limit'}, none was found")
        expect_rows(got, expected, f"the newest data within {case['limit']}")
    if candidates and candidates[0] > 0:
        ctx.nt("stepped back")
    elif by_age and not candidates:
        ctx.nt("too old")


HOURS = st.sampled_from([0, 9, 10, 11, 12, 14, 15, 16, 23])


@PROP.test(
    st.fixed_dictionaries(
        {
            "scheme": st.sampled_from(["hourly", "by hour"]),
            "data": sized_list(st.tuples(st.sampled_from([0, 1, 1, 2, 3, 4]), HOURS), (0, 1, 2, 4, 8)),
            "limit": st.sampled_from(["1d", "2d", "3d"]),
            # nothing, a whole day, or an hour of it
            "on": st.one_of(st.sampled_from([None, "date"]), st.tuples(HOURS, st.booleans())),
        }
    ),
    quick=600,
    thorough=10000,
)
def freshness_by_the_hour(case, ctx):
    """The read steps back to the same hour of the days before, and no others."""
    root = ctx.fresh()
    today = datetime.datetime(NOW.year, NOW.month, NOW.day)
    by_place = {}
    for i, (age, hour) in enumerate(case["data"]):
        moment = today - datetime.timedelta(days=age) + datetime.timedelta(hours=hour)
        row = {"n": i}
        put(f"{folder(root, case['scheme'], moment)}/b{i}.jsonl", orjson.dumps(row) + b"\n")
        by_place.setdefault((age, hour), []).append(row)
    name, parts = SCHEMES[case["scheme"]]
    on = case["on"]
    with frozen(NOW, case):
        if on is None:
            first = last = NOW.hour
            kwargs = {}
        elif on == "date":
            first, last = 0, 23
            kwargs = {"start_date": NOW.date().isoformat(), "end_date": datetime.date(*NOW.timetuple()[:3])}
        else:
            first = last = on[0]
            moment = datetime.datetime(*(today + datetime.timedelta(hours=first)).timetuple()[:6])
            kwargs = dict.fromkeys(("start_date", "end_date"), moment.strftime("%Y-%m-%d %H:%M") if on[1] else moment)
        expected = None
        for age in range(int(case["limit"][:-1]) + 1):
            found = [r for (a, h), rows in by_place.items() if a == age and first <= h <= last for r in rows]
            if found:
                expected = found
                break
        try:
            got = [dict(r) for r in Reader(inner_reader=DiskReader, dataset=f"{root}/{name}", partitions=parts, freshness_limit=case["limit"], **kwargs)]
        except DataNotFoundError:
            got = None
    if expected is None:
        check(got is None, f"nothing from {first}:00 to {last}:00 within {case['limit']} but rows were returned", got)
    else:
        check(got is not None, f"{expected} is within {case['limit']}, nothing was found")
        expect_rows(got, expected, f"from {first}:00 to {last}:00, {age} days ago", ordered=False)
        if age > 0:
            ctx.nt("stepped back")
            if len(expected) < sum(len(rows) for (a, _), rows in by_place.items() if a == age):
                ctx.label("some of the day's hours")


@PROP.test(st.tuples(st.sampled_from(["1d", "12h"]), st.integers(1, 50)), quick=40, thorough=200)
def freshness_needs_one_date(case, ctx):
    root = ctx.fresh()
    limit, hours = case
    try:
        Reader(
            inner_reader=DiskReader, dataset=f"{root}/ds", freshness_limit=limit, start_date=NOW,
            end_date=NOW + datetime.timedelta(hours=hours),
        )
        check(False, "a freshness limit was accepted with a range of dates")
    except InvalidCombinationError:
        ctx.nt()
