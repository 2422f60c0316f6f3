"""C19 - the hash of a DictSet identifies its contents: not their order, not how they are stored."""
import copy

from domain import JSON_RECORD, sized_list, weighted
from harness import Property, canon, check, short
from vhyp import st

from mabel.data import STORAGE_CLASS
from mabel.data.internals.dictset import DictSet

PROP = Property(
    "C19",
    rule="a case is a list of records (also copies), a permutation of them, permutations of their fields at every depth, two storage classes and one "
    "change (a value, a field name, a record or copies of it added or removed); the hash has to survive the permutations and not the "
    "change; non-trivial = at least two records and a change was made",
    assumptions=[
        "records are JSON objects with text keys",
        "a 64-bit collision does not occur among the generated cases",
    ],
)

CLASSES = [STORAGE_CLASS.NO_PERSISTANCE, STORAGE_CLASS.MEMORY, STORAGE_CLASS.DISK, STORAGE_CLASS.COMPRESSED_MEMORY]


def alike(value, which):
    """another value, of which the text, truth or number is the same, or nearly so"""
    options = [str(value), [value], {"value": value}]
    if isinstance(value, str):
        options = [value + " ", value.swapcase(), value[::-1], [value]] + ([None] if value in ("", "None") else [])
        options += [int(value)] if value.lstrip("-").isdecimal() and value.isascii() else []
    elif isinstance(value, (bool, type(None))):
        options = [str(value), int(bool(value)), not value, ""]
    elif isinstance(value, (int, float)):
        options = [str(value), -value, value + 1, bool(value), float(value) if isinstance(value, int) and abs(value) < 2**50 else repr(value)]
    elif isinstance(value, list):
        options = [value[::-1], value + [None], str(value), value[:-1]]
    elif isinstance(value, dict):
        options = [list(value), str(value), {**value, "": None}, dict(list(value.items())[1:])]
    return options[which % len(options)]


def set_hash(rows, storage, source):
    data = [dict(r) for r in rows]
    ds = DictSet(iter(data) if source == "generator" else data, storage_class=CLASSES[storage])
    first = hash(ds)
    if source != "generator" or CLASSES[storage] != STORAGE_CLASS.NO_PERSISTANCE:
        check(hash(ds) == first, "the hash of a set is another one the second time", short(rows))
    return first


def turned(value):
    """the same with the fields the other way round, at every depth"""
    if isinstance(value, dict):
        return {k: turned(v) for k, v in reversed(value.items())}
    return [turned(v) for v in value] if isinstance(value, list) else value


@PROP.test(
    st.fixed_dictionaries(
        {
            "rows": sized_list(JSON_RECORD, (0, 1, 2, 3, 6, 12)),
            "copies": weighted(2, st.just([]), 1, st.lists(st.integers(0, 5), max_size=4)),
            "order": st.lists(st.integers(0, 50), min_size=16, max_size=16),
            "flip": st.lists(st.booleans(), min_size=16, max_size=16),
            "classes": st.tuples(st.integers(0, 3), st.integers(0, 3)),
            "source": st.sampled_from(["list", "generator"]),
            "change": st.sampled_from(["value", "alike", "alike", "rename", "add", "copy", "copies", "remove", "new field", "drop field"]),
            "where": st.tuples(st.integers(0, 11), st.integers(0, 4)),
        }
    ),
    quick=2400,
    thorough=200000,
)
def identity(case, ctx):
    rows = [copy.deepcopy(r) for r in case["rows"]]
    rows += [copy.deepcopy(rows[i % len(rows)]) for i in case["copies"] if rows]
    first = set_hash(rows, case["classes"][0], case["source"])
    shuffled = [r for _, r in sorted(zip(case["order"], rows), key=lambda p: p[0])]
    shuffled = [turned(r) if flip else r for r, flip in zip(shuffled, case["flip"])]
    check(set_hash(shuffled, case["classes"][1], "list") == first, "the hash depends on order or storage", short(rows), short(shuffled))

    changed = copy.deepcopy(rows)
    at, field = case["where"]
    kind = case["change"]
    if kind == "add":
        changed.append({"__added__": at})
    elif changed:
        row = changed[at % len(changed)]
        keys = list(row)
        if kind == "remove":
            changed.remove(row)
        elif kind == "copy":
            changed.append(copy.deepcopy(row))
        elif kind == "copies":
            changed += [copy.deepcopy(row) for _ in range(2 * (field + 1))]
        elif kind == "new field":
            row["__new__"] = field
        elif keys:
            key = keys[field % len(keys)]
            if kind == "value":
                row[key] = "__changed__"
            elif kind == "alike":
                row[key] = alike(row[key], at)
            elif kind == "rename":
                row["__renamed__"] = row.pop(key)
            else:
                del row[key]
    count = lambda some: sorted(map(canon, some), key=repr)
    if count(changed) == count(rows):
        return
    check(set_hash(changed, case["classes"][1], "list") != first, f"the hash did not change with the contents ({kind})", short(rows), short(changed))
    if len(rows) > 1:
        ctx.nt(kind)


@PROP.test(
    st.fixed_dictionaries(
        {
            "rows": st.sampled_from([1, 2, 300, 2500]),
            "width": st.sampled_from([0, 100, 5000, 70000]),
            "copies": st.sampled_from([0, 0, 1, 2, 3]),
            "at": st.floats(0, 1),
            "in row": st.floats(0, 1),
            "classes": st.tuples(st.integers(0, 3), st.integers(0, 3)),
        }
    ),
    quick=60,
    thorough=2000,
)
def long_contents(case, ctx):
    """one character of a long record, one record of many"""
    count = case["rows"] if case["width"] < 5000 else min(case["rows"], 20)
    rows = [{"n": i, "t": (f"{i * 2654435761 % 2**32:08x}" * (case["width"] // 8 + 1))[: case["width"]], "last": [i]} for i in range(count)]
    index = int(case["at"] * (count - 1))
    rows += [dict(rows[index]) for _ in range(case["copies"])]
    first = set_hash(rows, case["classes"][0], "generator")
    if case["copies"]:
        # one copy less, or more, and another record instead of it
        for other in (rows[:-1], rows + rows[-1:], rows[:-1] + rows[:1] * (index > 0)):
            if len(other) != len(rows) or index > 0:
                check(set_hash(other, case["classes"][1], "list") != first, f"the hash did not change with the copies of a record among {count}")
    check(set_hash(rows[::-1], case["classes"][1], "list") == first, "the hash depends on order or storage")
    row = rows[index]
    if row["t"]:
        at = int(case["in row"] * (len(row["t"]) - 1))
        row["t"] = row["t"][:at] + "X" + row["t"][at + 1:]
    else:
        row["last"] = ["X"]
    check(set_hash(rows, case["classes"][1], "list") != first, "the hash did not change with one character of the contents")
    ctx.nt(f"{count} records", f"{case['width']} wide")


PROP.regress(
    "long_contents",
    *[{"rows": 2500, "width": 0, "copies": c, "at": 0.6, "in row": 0, "classes": (1, 1)} for c in (1, 2, 3)],
)


@PROP.test(
    st.fixed_dictionaries(
        {
            "rows": st.tuples(st.sampled_from([4096, 8192, 10_000, 16_384, 20_000, 32_768, 50_000, 65_536, 100_000]), st.integers(-2, 300)),
            "at": st.lists(st.floats(0, 1), min_size=1, max_size=3),
            "from end": st.integers(1, 40),
            "class": st.sampled_from([0, 0, 0, 1]),
        }
    ),
    quick=24,
    thorough=1500,
    cpu_limit=120,
)
def many(case, ctx):
    """one record of very many, wherever it is"""
    count = sum(case["rows"])
    rows = [{"n": i} for i in range(count)]
    answer = lambda some: hash(DictSet(some, storage_class=CLASSES[case["class"]]))
    first = answer(rows)
    check(answer(rows[::-1]) == first, "the hash depends on the order of many records", count)
    places = {int(at * (count - 1)) for at in case["at"]} | {0, count - case["from end"]}
    for place in sorted(places):
        changed = rows[:place] + [{"n": -1}] + rows[place + 1:]
        check(answer(changed) != first, f"the hash of {count} records did not change with record {place}")
    check(answer(rows[:-1]) != first, f"the hash of {count} records did not change with the last one left out")
    ctx.nt("many records")


PROP.regress("many", *[{"rows": (n, d), "at": [0.5], "from end": 1, "class": 0} for n, d in ((4096, 0), (20_000, 0), (65_536, 1), (100_000, 7))])
