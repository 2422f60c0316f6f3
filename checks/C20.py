"""C20 - collections put every record in the collection of its value, and nothing anywhere else."""
from domain import TEXT, bulk, sized_list, weighted
from harness import Property, canon, check, expect_rows, multiset, short
from vhyp import st

from mabel.data import STORAGE_CLASS
from mabel.data.internals.dictset import DictSet

PROP = Property(
    "C20",
    rule="a case is a list of flat records, the column to collect by (values, nulls and gaps), whether to remove "
    "duplicates, and a storage class; the collections, their counts, aggregates, items and selections are compared "
    "with a plain dictionary of lists; non-trivial = at least two collections, one with two or more members",
    assumptions=["the values collected by are scalars which are not equal across types (1, 1.0, True), others are JSON values"],
)

CLASSES = [STORAGE_CLASS.NO_PERSISTANCE, STORAGE_CLASS.MEMORY, STORAGE_CLASS.DISK, STORAGE_CLASS.COMPRESSED_MEMORY]
KEY = weighted(8, st.sampled_from(["a", "b", "", "1", 1, 0, 2, None, "ab"]), 1, TEXT)
ROW = st.fixed_dictionaries(
    {"w": st.sampled_from(["x", "y", ""])}, optional={"v": st.one_of(st.none(), st.integers(-3, 3)), "l": st.sampled_from([[], [1], {}, {"x": [1]}, 1, 1.0, True, None])}
)
ROW = weighted(4, st.tuples(ROW, KEY).map(lambda p: {**p[0], "k": p[1]}), 1, ROW, 1, st.fixed_dictionaries({}, optional={"k": KEY}))


@PROP.test(
    st.fixed_dictionaries(
        {
            "pool": sized_list(ROW, (1, 3, 5, 8)),
            "order": sized_list(st.integers(0, 7), (0, 1, 3, 6, 9, 16)),
            "dedupe": st.booleans(),
            "class": st.integers(0, 3),
            "some": st.lists(KEY, min_size=1, max_size=4, unique_by=repr),
        }
    ),
    quick=3000,
    thorough=200000,
)
def collections(case, ctx):
    rows = [dict(case["pool"][i % len(case["pool"])]) for i in case["order"]]
    before = [dict(r) for r in rows]
    cs = DictSet(rows, storage_class=CLASSES[case["class"]]).collect_set("k", dedupe=case["dedupe"])
    check(rows == before, "collecting changed the records", short(rows))
    model = {}
    for row in before:
        rest = {k: v for k, v in row.items() if k != "k"}
        members = model.setdefault(row.get("k"), [])
        if not case["dedupe"] or canon(rest) not in map(canon, members):
            members.append(rest)
    check(len(cs) == len(model), "number of collections", len(cs), len(model))
    sizes = {k: len(v) for k, v in model.items()}
    check(multiset(cs.count().items()) == multiset(sizes.items()), "counts", short(cs.count()), short(sizes))
    expect_rows([(k, r) for k, r in cs.items()], [(k, r) for k, v in model.items() for r in v], "items", ordered=False)
    for key, members in model.items():
        expect_rows([r for k, r in cs.items() if k == key], members, f"items of {key!r}")
    applied = cs.apply(lambda items: sorted(map(repr, map(canon, items))))
    check(applied == {k: sorted(map(repr, map(canon, v))) for k, v in model.items()}, "apply", short(applied))
    summed = cs.aggregate("v", sum)
    check(summed == {k: sum(r["v"] for r in v if r.get("v") is not None) for k, v in model.items()}, "aggregate", short(summed))
    seen = cs.aggregate("v", list)
    given = {k: [r["v"] for r in v if r.get("v") is not None] for k, v in model.items()}
    check(seen == given, "aggregated values", short(seen), short(given))
    for key in case["some"] + list(model):
        members = model.get(key, [])
        check((key in cs) == (key in model), "contains", key)
        if key is not None:
            check(cs.count(key) == len(members), "count of one", key, cs.count(key))
        sub = cs[key]
        check(len(sub) == len(members), "size of one", key)
        expect_rows(sub["v"], [r["v"] for r in members if "v" in r], f"column of {key!r}")
        expect_rows(sub["w", "v"], [{"w": r.get("w"), "v": r.get("v")} for r in members], f"columns of {key!r}")
        check(all(list(r) == ["w", "v"] for r in sub["w", "v"]), f"the order of the columns of {key!r}")
    chosen = cs[tuple(case["some"])]
    expected = {k: model[k] for k in case["some"] if k in model}
    expect_rows([(k, r) for k, r in chosen.items()], [(k, r) for k, v in expected.items() for r in v], "a selection of collections", ordered=False)
    if len(model) > 1 and max(sizes.values()) > 1:
        ctx.nt("dedupe" if case["dedupe"] else "all", CLASSES[case["class"]].name)


@PROP.test(
    st.fixed_dictionaries(
        {
            "count": st.sampled_from([600, 2500, 9000]),
            "groups": st.sampled_from([1, 3, 101, 1009, 5003]),
            "dedupe": st.booleans(),
            "copies": st.booleans(),
            "class": st.integers(0, 3),
        }
    ),
    quick=60,
    thorough=2000,
)
def sizes(case, ctx):
    """many records in one collection, many collections"""
    rows = bulk(case["count"], groups=case["groups"])
    if case["copies"]:
        rows += [dict(r) for r in rows[::2]]
    cs = DictSet([dict(r) for r in rows], storage_class=CLASSES[case["class"]]).collect_set("k", dedupe=case["dedupe"])
    model = {}
    for row in rows[: case["count"]] if case["dedupe"] else rows:
        model.setdefault(row["k"], []).append({c: row[c] for c in ("n", "v", "t")})
    sizes = {k: len(v) for k, v in model.items()}
    check(len(cs) == len(model), "number of collections", len(cs), len(model))
    check(dict(cs.count()) == sizes, "counts", short(cs.count()))
    check(cs.aggregate("v", sum) == {k: sum(r["v"] for r in v) for k, v in model.items()}, "aggregate")
    check(cs.aggregate("n", list) == {k: [r["n"] for r in v] for k, v in model.items()}, "aggregated values")
    check(cs.apply(len) == sizes, "apply")
    key = max(sizes, key=sizes.get)
    check(cs.count(key) == sizes[key], "count of one", cs.count(key), sizes[key])
    check(list(cs[key]["n"]) == [r["n"] for r in model[key]], "column of one")
    check([r["n"] for k, r in cs.items() if k == key] == [r["n"] for r in model[key]], "items of one")
    check(sum(1 for _ in cs.items()) == sum(sizes.values()), "items")
    if sizes[key] > 1:
        ctx.nt()


PROP.regress(
    "sizes", *[{"count": 9000, "groups": g, "dedupe": d, "copies": True, "class": 1} for g, d in ((1, False), (1, True), (3, False), (5003, False))]
)
