"""C13 - what a DictSet returns does not depend on how it is stored, nor on what was asked of it before."""
import statistics
from collections import Counter

from domain import JSON_RECORD, bulk, sized_list, weighted
from harness import Property, Violation, canon, check, expect_rows, same, short
from vhyp import st

from mabel.data import STORAGE_CLASS
from mabel.data.internals.dictset import DictSet

PROP = Property(
    "C13",
    rule="a case is a list of records, a storage class and a history of questions asked of one DictSet (iterate, take, "
    "first, keys, filter in three forms, select, statistics, get_items, types ... and chains of set-returning "
    "operations); every answer is compared with one computed on the plain list; non-trivial = at least two records and "
    "two questions, or more records than one internal batch",
    assumptions=[
        "records are JSON values (the persisted classes store JSON); a DictSet over a generator answers one question only",
        "two iterations over the same persisted set are not interleaved (known finding), as collect_set iterates too",
        "get_items is compared regardless of order and with distinct positions within range",
    ],
)

CLASSES = [STORAGE_CLASS.NO_PERSISTANCE, STORAGE_CLASS.MEMORY, STORAGE_CLASS.DISK, STORAGE_CLASS.COMPRESSED_MEMORY]
COLS = ["a", "b", "n", "zz"]
# values of several types in one field
MIX = weighted(3, st.sampled_from([1, 2.5, None]), 1, st.sampled_from(["x", True, [1], {}]))
ROW = weighted(
    3,
    st.fixed_dictionaries({}, optional={"a": st.sampled_from(["x", "y", "", None]), "b": st.integers(-2, 3), "n": st.integers(-(2**63), 2**63 - 1), "mix": MIX}),
    1,
    JSON_RECORD,
)


def predicate(value):
    return lambda r: r.get("b") == value


STEP = weighted(
    1, st.tuples(st.just("filter call"), st.integers(-2, 3)),
    1, st.tuples(st.just("filter text"), st.integers(-2, 3)),
    1, st.tuples(st.just("filter dnf"), st.integers(-2, 3)),
    1, st.tuples(st.just("select"), st.lists(st.sampled_from(COLS), min_size=1, max_size=3, unique=True)),
    1, st.tuples(st.just("take"), st.sampled_from([0, 1, 2, 5, 1000])),
)
QUESTION = weighted(
    2, st.tuples(st.just("list"), st.just(0)),
    1, st.tuples(st.just("collect_list"), st.just(0)),
    1, st.tuples(st.just("collect column"), st.sampled_from(COLS)),
    1, st.tuples(st.just("keys"), st.sampled_from([0, 0, 1, 3])),
    1, st.tuples(st.just("first"), st.just(0)),
    1, st.tuples(st.just("count"), st.just(0)),
    1, st.tuples(st.just("itake"), st.sampled_from([0, 1, 2, 3, 5, 1000])),
    1, st.tuples(st.just("partial"), st.sampled_from([0, 1, 2, 3])),
    1, st.tuples(st.just("statistics"), st.sampled_from(["n", "b"])),
    1, st.tuples(st.just("types"), st.just(0)),
    1, st.tuples(st.just("get_items"), st.lists(st.integers(0, 10**6), max_size=5)),
    1, st.tuples(st.just("hash"), st.just(0)),
    1, st.tuples(st.just("pandas"), st.just(0)),
    2, st.tuples(st.just("distinct"), st.sampled_from([(), ("a",), ("b", "a"), ("zz",)])),
    1, st.tuples(st.just("groups"), st.sampled_from(["a", "b"])),
    1, st.tuples(st.just("sorted"), st.sampled_from([1, 3, 1000])),
    1, st.tuples(st.just("collections"), st.sampled_from(["a", "b"])),
    4, st.tuples(st.just("chain"), st.lists(STEP, min_size=1, max_size=3)),
)


def apply_step(ds, rows, step):
    kind, arg = step
    if kind == "filter call":
        return ds.filter(predicate(arg)), [r for r in rows if predicate(arg)(r)]
    if kind == "filter text":
        text = "a = 'x'" if arg < 0 else "a != 'x'"
        return ds.filter(text), [r for r in rows if (r.get("a") == "x") == (arg < 0)]
    if kind == "filter dnf":
        return ds.filter([("b", "==", arg)]), [r for r in rows if r.get("b") == arg]
    if kind == "select":
        return ds.select(arg), [{c: r.get(c) for c in arg} for r in rows]
    return ds.take(arg), rows[:arg]


def type_of(values):
    names = sorted({type(v).__name__ for v in values if v is not None})
    if not names:
        return "empty"
    if len(names) == 1:
        return names[0]
    return "numeric" if names == ["float", "int"] else "mixed"


def ask(ds, rows, question, countable, ctx):
    kind, arg = question
    if kind == "list":
        expect_rows(list(ds), rows, "iterating")
    elif kind == "collect_list":
        expect_rows(ds.collect_list(), rows, "collect_list()")
    elif kind == "collect column":
        expect_rows(ds.collect_list(arg), [r[arg] for r in rows if arg in r], f"collect_list({arg})")
    elif kind == "keys":
        seen = list(dict.fromkeys(k for r in (rows[:arg] if arg else rows) for k in r))
        expect_rows(list(ds.keys(arg)), seen, f"keys({arg})")
    elif kind == "first":
        got = ds.first()
        check(same(got, rows[0] if rows else None), "first()", short(got), short(rows[:1]))
    elif kind == "count":
        got = ds.count()
        check(got == (len(rows) if countable else -1), "count()", got, len(rows))
    elif kind == "itake":
        expect_rows(list(ds.itake(arg)), rows[:arg], f"itake({arg})")
    elif kind == "partial":
        iterator = iter(ds)
        got = [r for _, r in zip(range(arg), iterator)]
        expect_rows(got, rows[:arg], f"the first {arg} of an iteration")
    elif kind == "statistics":
        values = [r[arg] for r in rows if arg in r]
        if len(values) >= 2 and all(type(v) is int for v in values):
            check(ds.max(arg) == max(values) and ds.min(arg) == min(values), "min / max", short(values))
            check(ds.sum(arg) == sum(values), "sum", short(values))
            check(ds.min_max(arg) == (min(values), max(values)), "min_max", short(values))
            check(ds.mean(arg) == statistics.mean(values), "mean", short(values))
            check(ds.variance(arg) == statistics.variance(values), "variance", short(values))
            check(ds.standard_deviation(arg) == statistics.stdev(values), "standard_deviation", short(values))
            ctx.label("statistics")
    elif kind == "types":
        top = rows[:100]
        expected = {k: type_of([r.get(k) for r in top]) for r in top for k in r}
        got = ds.types()
        check(got == expected, "types()", short(got), short(expected))
    elif kind == "get_items":
        if rows:
            places = sorted({p % len(rows) for p in arg})
            expect_rows(list(ds.get_items(*places)), [rows[p] for p in places], f"get_items{tuple(places)}", ordered=False)
    elif kind == "hash":
        other = DictSet(list(rows), storage_class=STORAGE_CLASS.MEMORY)
        check(hash(ds) == hash(other), "hash differs between storage classes")
    elif kind == "distinct":
        seen = {}
        for r in rows:
            seen.setdefault(canon({c: r[c] for c in arg if c in r} if arg else r), r)
        expect_rows(list(ds.distinct(*arg)), list(seen.values()), f"distinct{arg}")
    elif kind == "groups":
        counts = Counter(canon(r.get(arg)) for r in rows)
        got = list(ds.group_by(arg).count())
        check(Counter({canon(g[arg]): g["COUNT(*)"] for g in got}) == counts and len(got) == len(counts), f"groups by {arg}", short(got), short(counts))
    elif kind == "sorted":
        numbers = sorted((r for r in rows if type(r.get("n")) is int), key=lambda r: r["n"])
        others = [r for r in rows if r.get("n") is None]
        if len(numbers) + len(others) == len(rows):
            expect_rows([r.get("n") for r in ds.sort_and_take("n", take=arg)], [r.get("n") for r in (others + numbers)[:arg]], f"sort_and_take of {arg}")
    elif kind == "collections":
        if all(isinstance(r.get(arg), (str, int, type(None))) for r in rows):
            sets = ds.collect_set(arg)
            wanted = Counter(r.get(arg) for r in rows)
            check(sets.count() == wanted and len(sets) == len(wanted), f"collections by {arg}", short(sets.count()), short(wanted))
    elif kind == "pandas":
        frame = ds.to_pandas()
        check(len(frame) == len(rows), "rows of to_pandas()", len(frame), len(rows))
        names = list(dict.fromkeys(k for r in rows for k in r))
        check(sorted(frame.columns) == sorted(names), "columns of to_pandas()", list(frame.columns), names)
        for name in names:
            values = [r.get(name) for r in rows]
            # pandas has its own idea of columns with gaps or of several types
            if {type(v) for v in values} in ({int}, {str}, {bool}):
                got = frame[name].tolist()
                check(same(got, values), f"column {name!r} of to_pandas()", short(got), short(values))
    elif kind == "chain":
        for step in arg:
            ds, rows = apply_step(ds, rows, step)
        got = list(ds)
        expect_rows(got, rows, f"chain {arg}")
        if arg[-1][0] == "select":
            check(all(list(r) == list(rows[0]) for r in got), f"the fields of {arg} are in another order", short(got))


@PROP.test(
    st.tuples(
        sized_list(ROW, (2, 3, 6, 12)),
        st.integers(0, 4),
        st.lists(QUESTION.filter(lambda q: q[0] not in ("list", "partial", "collections")), min_size=1, max_size=3),
    ),
    quick=800,
)
def undisturbed(case, ctx):
    """questions asked of a set in memory during an iteration do not disturb it"""
    rows, done, questions = case
    ds = DictSet(list(rows))
    iter(ds)
    got = [next(ds) for _ in range(min(done, len(rows)))]
    for question in questions:
        ask(ds, rows, question, True, ctx)
        if len(got) < len(rows):
            got.append(next(ds))
    got.extend(iter(lambda: next(ds, None), None))
    expect_rows(got, rows, f"iterating while asking {questions}")
    if 0 < done < len(rows):
        ctx.nt()


CASES = st.fixed_dictionaries(
    {
        "rows": sized_list(ROW, (0, 1, 2, 3, 6, 12)),
        "repeat": st.sampled_from([1] * 12 + [60, 125, 251]),
        "class": st.integers(0, 3),
        "questions": st.lists(QUESTION, min_size=1, max_size=6),
        "source": st.sampled_from(["list", "list", "generator"]),
    }
)


@PROP.test(CASES, quick=4000)
def history(case, ctx):
    rows = [dict(r) for _ in range(case["repeat"]) for r in case["rows"]]
    storage = CLASSES[case["class"]]
    source = list(rows) if case["source"] == "list" else (r for r in list(rows))
    ds = DictSet(source, storage_class=storage)
    if storage != STORAGE_CLASS.NO_PERSISTANCE and case["source"] == "list":
        # what is stored is the set's own
        source.reverse()
        del source[1:]
    stored = storage != STORAGE_CLASS.NO_PERSISTANCE or case["source"] == "list"
    questions = case["questions"] if stored else case["questions"][:1]
    for question in questions:
        if question[0] == "statistics" and not stored:
            continue
        ask(ds, rows, question, stored, ctx)
    if stored:
        expect_rows(list(ds), rows, "iterating at the end")
    if (len(rows) > 1 and len(questions) > 1) or len(rows) > 250:
        ctx.nt(storage.name)
    if len(rows) > 250:
        ctx.label("more than a batch")


PROP.regress(
    "history",
    {"rows": [{"a": 1}, {}], "repeat": 1, "class": 2, "questions": [("list", 0), ("list", 0), ("first", 0), ("get_items", [0, 1])], "source": "list"},
    {"rows": [], "repeat": 1, "class": 2, "questions": [("list", 0)], "source": "list"},
    {"rows": [{"a": None}, {"b": 1}], "repeat": 1, "class": 1, "questions": [("types", 0), ("itake", 0), ("get_items", [1]), ("list", 0), ("list", 0)], "source": "list"},
    {"rows": [{"b": 1}, {"b": 2}], "repeat": 1, "class": 0, "questions": [("get_items", [1])], "source": "generator"},
)


@PROP.test(
    st.tuples(st.integers(1, 3), st.sampled_from([(40, 600_000), (7, 4_000_000), (120_000, 10), (3000, 7000)]), st.integers(0, 10**6)),
    quick=12,
    thorough=120,
)
def large(case, ctx):
    """sets larger than what is written, or compressed, at once"""
    storage, (count, width), seed = case
    make = lambda i: {"n": i, "t": (f"{(i + seed) * 2654435761 % 2**32:08x}" * (width // 8 + 1))[:width]}
    ds = DictSet((make(i) for i in range(count)), storage_class=CLASSES[storage])
    check(ds.count() == count, "count()", ds.count(), count)
    for turn in (1, 2):
        total = 0
        for i, got in enumerate(ds):
            if got != make(i):
                raise Violation(f"record {i} of {count}, {width} wide, in {CLASSES[storage].name} is {short(got)}")
            total += 1
        check(total == count, f"iterating (turn {turn}) gave {total} of {count} records")
    places = sorted({seed % count, 0, count - 1, count // 2})
    got = list(ds.get_items(*places))
    check(len(got) == len(places) and all(any(g == make(p) for g in got) for p in places), "get_items", places, short(got))
    ctx.nt(CLASSES[storage].name)


@PROP.test(
    st.fixed_dictionaries(
        {
            "count": st.sampled_from([249, 250, 251, 999, 1000, 1001, 4096, 5000, 5001, 7777, 12_000]),
            "class": st.integers(0, 3),
            # in ten thousandths of the set
            "places": st.lists(st.integers(0, 9999), min_size=1, max_size=40),
            "take": st.sampled_from([1, 249, 251, 999, 1000, 1001, 4097, 100_000]),
            "k": st.integers(0, 6),
        }
    ),
    quick=100,
    thorough=3000,
)
def sizes(case, ctx):
    """sets of thousands of records"""
    rows = bulk(case["count"])
    ds = DictSet(list(rows), storage_class=CLASSES[case["class"]])

    def agree(got, expected, what):
        got = list(got)
        if got != expected:
            at = next((i for i, (g, e) in enumerate(zip(got, expected)) if g != e), min(len(got), len(expected)))
            raise Violation(f"{what}: {len(got)} records where {len(expected)} are right, at {at}: {short(got[at : at + 2])} where {short(expected[at : at + 2])} are")

    for turn in (1, 2):
        check(ds.count() == len(rows), "count()", ds.count(), len(rows))
        agree(ds, rows, "iterating")
        places = sorted({p * len(rows) // 10_000 for p in case["places"]})
        agree(sorted(ds.get_items(*places), key=lambda r: r["n"]), [rows[p] for p in places], f"get_items{tuple(places)}")
        for apart in (250, 1000, 1024, 2000, 2048, 4000, 8000, 8192):
            if apart < len(rows):
                agree(sorted(ds.get_items(places[0] % (len(rows) - apart), places[0] % (len(rows) - apart) + apart), key=lambda r: r["n"]),
                      [rows[places[0] % (len(rows) - apart) + a] for a in (0, apart)], f"get_items {apart} apart")
        agree(ds.take(case["take"]), rows[: case["take"]], f"take({case['take']})")
        agree(ds.itake(case["take"]), rows[: case["take"]], f"itake({case['take']})")
        k = f"k{case['k']}"
        agree(ds.filter(lambda r: r["k"] == k), [r for r in rows if r["k"] == k], "filter")
        agree(ds.filter(f"k <> '{k}'"), [r for r in rows if r["k"] != k], "filter by text")
        agree(ds.filter([("k", "!=", k)]), [r for r in rows if r["k"] != k], "filter by tuples")
        agree(ds.select(["n", "v"]), [{"n": r["n"], "v": r["v"]} for r in rows], "select")
        agree(ds.collect_list("n"), list(range(len(rows))), "collect_list")
        agree(ds.distinct("v"), rows[:101], "distinct")
        values = [r["v"] for r in rows]
        got = [ds.sum("v"), ds.min_max("v"), ds.mean("v"), ds.variance("v")]
        check(same(got, [sum(values), (min(values), max(values)), statistics.mean(values), statistics.variance(values)]), "statistics", got)
        check(ds.first() == rows[0], "first()")
        check(list(ds.keys()) == ["n", "k", "v", "t"], "keys()")
    ctx.nt(CLASSES[case["class"]].name)


PROP.regress(
    "sizes",
    *[{"count": 12_000, "class": c, "places": [0, 3125, 3126, 4000, 9999], "take": 4097, "k": 3} for c in range(4)],
)


@PROP.test(st.nothing(), quick=0)
def nested_iteration(case, ctx):
    """pairs of the same set"""
    storage, rows = case
    ds = DictSet(list(rows), storage_class=CLASSES[storage])
    pairs = [(a["n"], b["n"]) for a in ds for b in ds]
    check(pairs == [(a["n"], b["n"]) for a in rows for b in rows], "nested iteration", short(pairs))


PROP.known("nested-iteration", "nested_iteration", (1, [{"n": 1}, {"n": 2}]))
