"""C17 - a SQL statement returns what its clauses say, applied one after the other to the stored records."""
import re
from fractions import Fraction

import orjson

from checks.C11 import NAMES, Style, holds, write, write_text, TWISTS, twin, twisted
from domain import bulk, sized_list, weighted
from harness import Property, Violation, canon, check, expect_rows, short
from store import put
from vhyp import st

from mabel import SqlReader
from mabel.adapters.disk import DiskReader
from mabel.data import STORAGE_CLASS

PROP = Property(
    "C17",
    rule="a case is a data set of several blobs and a statement (columns, functions, aliases, DISTINCT, WHERE, GROUP BY, "
    "aggregations, HAVING, ORDER BY, LIMIT, subqueries; text which looks like SQL; comments, case and spacing at random); "
    "the result is compared with a direct evaluation of the clauses; non-trivial = at least three clauses or a subquery, "
    "and some records come back but not all of those stored",
    assumptions=[
        "without ORDER BY groups come in any order; records which sort the same come in any order",
        "aliases do not repeat the names of columns; one column is sorted by; nulls sort first",
        "aggregating no records at all without GROUP BY is not specified (mabel returns no record)",
        "an ORDER BY without LIMIT is limited to 10,000 records by mabel: compared up to that",
        "sums and averages are compared to nine decimal places",
    ],
)

WORDS = st.sampled_from(["abc", "ABC", "a", "b", "", "b c", "x from y", "a, b", "(z", "group by t", "a  b", "--c", "it's", "limit 1", 'say "as"', "select", "/* t */", ")"])
NUMBERS = st.integers(-3, 4)
KINDS = {"t": "text", "u": "text", "n": "num", "m": "num", "flag": "bool", "first name": "text", "b--c": "num", "/* d */ e": "text"}
VALUES = {"text": WORDS, "num": NUMBERS, "bool": st.booleans(), "dec": st.integers(-6, 8)}
RECORD = st.fixed_dictionaries({}, optional={f: weighted(7, VALUES[k], 1, st.none()) for f, k in KINDS.items()})
RELATIONS = {"text": ["=", "!=", "<>", "<", ">="], "num": ["=", "!=", "<", ">", "<=", ">="], "bool": ["=", "!="], "dec": ["<", ">", "="]}

# functions of a column: the text which calls it, its kind and what it gives
CALLS = {
    "UPPER({})": ("text", lambda v: str(v).upper()),
    "LEFT({},1)": ("text", lambda v: str(v)[:1]),
    "CONCAT({},'(-  as b')": ("text", lambda v: f"{v}(-  as b"),
    "MID({},1,2)": ("text", lambda v: str(v)[1:][:2]),
}


def quote(name, style):
    return f"`{name}`" if not name.isidentifier() or style.pick([0, 0, 0, 1]) else name


# an expression is ("field", name), ("call", template, name) or ("agg", function, expression | "*")
def kind_of(e, kinds):
    if e[0] == "field":
        return kinds[e[1]]
    if e[0] == "call":
        return CALLS[e[1]][0]
    if e[1] == "COUNT":
        return "num"
    return "dec" if e[1] in ("SUM", "AVG") else kind_of(e[2], kinds)


def label_of(e):
    """the name of its column, which is also how it is referred to in conditions"""
    if e[0] == "field":
        return e[1]
    if e[0] == "call":
        return e[1].format(e[2] if e[2].isidentifier() else f"`{e[2]}`")
    return f"{e[1]}({e[2] if e[2] == '*' else label_of(e[2]) if e[2][0] == 'call' or e[2][1].isidentifier() else '`' + e[2][1] + '`'})"


def value_of(e, row):
    if e[0] == "field":
        return row.get(e[1])
    return CALLS[e[1]][1](row.get(e[2]))


def write_expression(e, style):
    if e[0] == "field":
        return quote(e[1], style)
    return label_of(e).replace("(", style.pick(["(", "(", "( "]), 1) if e[0] == "agg" else label_of(e)


# ---------------------------------------------------------------- generating


def fields_of(kinds, allowed=("text", "num", "bool", "dec")):
    return [("field", f) for f, k in kinds.items() if k in allowed]


def calls_on(kinds):
    return [("call", c, f) for f, k in kinds.items() if k == "text" for c in CALLS]


def condition(options, kinds):
    """conditions on the expressions, as the trees of C11"""

    def on(e):
        kind = kind_of(e, kinds)
        name = label_of(e)
        values = VALUES[kind]
        choices = [st.tuples(st.just("rel"), st.sampled_from(RELATIONS[kind]), st.just(name), values)] * 2
        choices.append(st.tuples(st.just("is"), st.sampled_from(["IS", "IS NOT"]), st.just(name), st.none()))
        if kind in ("text", "num"):
            choices.append(st.tuples(st.just("in"), st.just("IN"), st.just(name), st.lists(values, min_size=1, max_size=3)))
        if kind == "text":
            choices.append(st.tuples(st.just("text"), st.sampled_from(["LIKE", "NOT LIKE"]), st.just(name), st.sampled_from(["a%", "%b", "_", "% %", "%,%", "%(%"])))
        return st.integers(0, len(choices) - 1).flatmap(lambda i: choices[i])

    return st.sampled_from(options).flatmap(on)


def tree(options, kinds):
    leaf = condition(options, kinds)
    return st.recursive(leaf, lambda kids: st.one_of(st.tuples(st.sampled_from(["AND", "OR"]), kids, kids), st.tuples(st.just("NOT"), kids)), max_leaves=3)


ALIASES = ["a1", "total", "limits", "my col", "Selected", "a2", "by_1"]


def as_stored(q):
    """the records are in the order they're stored in, so which ones are the first is known"""
    return q is None or q["order"] is None and q["group"] is None and as_stored(q["from"])


@st.composite
def queries(draw, depth=0):
    inner = None
    kinds = dict(KINDS)
    if depth < 4 and draw(st.integers(0, 3 if depth == 0 else 2)) == 0:
        inner, kinds = draw(queries(depth + 1))
    q = {"from": inner, "where": None, "group": None, "having": None, "order": None, "desc": None, "limit": None, "distinct": False, "star": False}
    fields, calls = fields_of(kinds), calls_on(kinds)
    shape = draw(st.sampled_from(["plain", "plain", "plain", "group", "group", "aggregate"]))
    aliases = [a for a in ALIASES if a not in kinds]
    if draw(st.integers(0, 2)) > 0:
        q["where"] = draw(tree(fields * 3 + calls, kinds))

    def named(expressions, every=False):
        items = []
        for e in expressions:
            wants = every or depth and e[0] != "field" or draw(st.integers(0, 2)) == 0
            items.append((e, aliases.pop(0) if wants and aliases else None))
        return items

    if shape == "plain":
        chosen = draw(st.lists(st.sampled_from(fields * 3 + calls), min_size=1, max_size=3, unique=True))
        q["star"] = draw(st.integers(0, 3)) == 0
        if q["star"]:
            chosen = [e for e in chosen if e[0] == "call"][:1] if draw(st.booleans()) else []
        q["items"] = named(chosen)
        if draw(st.integers(0, 7)) == 0 and chosen:
            # the same column twice, under two names
            q["items"] += [(chosen[0], aliases.pop(0))] if aliases else []
        exact = "dec" not in kinds.values()
        q["distinct"] = exact and draw(st.integers(0, 3)) == 0
        if draw(st.integers(0, 5)) == 0:
            q["having"] = draw(tree(fields * 2 + calls, kinds))
        sortable = [e for e, _ in q["items"]] if q["distinct"] and not q["star"] else fields * 2 + calls
        sortable = [e for e in sortable if not q["distinct"] or q["star"] or all(a is None for x, a in q["items"] if x == e)]
        sortable = sortable + [("field", a) for _, a in q["items"] if a]
    else:
        columns = fields_of(kinds, ("text", "num", "bool"))
        q["group"] = []
        if shape == "group":
            q["group"] = draw(st.lists(st.sampled_from(columns * 2 + calls), min_size=1, max_size=2, unique=True)) if columns else []
        numbers = fields_of(kinds, ("num", "dec"))
        measures = [("agg", f, e) for e in numbers for f in ("SUM", "AVG", "MIN", "MAX", "COUNT")]
        measures += [("agg", f, e) for e in fields_of(kinds, ("text",)) + calls for f in ("MIN", "MAX", "COUNT")]
        measures += [("agg", "COUNT", "*")] * max(len(measures) // 3, 1)
        chosen = draw(st.lists(st.sampled_from(measures), min_size=0 if q["group"] else 1, max_size=3, unique=True))
        keys = draw(st.lists(st.sampled_from(q["group"]), max_size=2, unique=True)) if q["group"] else []
        if not chosen and not keys:
            keys = q["group"][:1]
        q["items"] = named(draw(st.permutations(keys + chosen)))
        sortable = [e for e in q["group"] + measures if kind_of(e, kinds) != "bool"][:12] + [("field", a) for _, a in q["items"] if a]
        if draw(st.integers(0, 2)) == 0:
            q["having"] = draw(tree(q["group"] + chosen + draw(st.lists(st.sampled_from(measures), min_size=1, max_size=2)), kinds))
        if not q["group"]:
            sortable = []
    out = {}
    if q["star"]:
        out.update(kinds)
    for e, alias in q["items"]:
        name = alias or label_of(e)
        out[name] = kind_of(e, kinds)
    q["kinds"] = out
    sortable = [e for e in sortable if e[0] != "field" or e[1] in kinds or e[1] in out]
    if sortable and draw(st.integers(0, 1)):
        q["order"] = draw(st.sampled_from(sortable))
        q["desc"] = draw(st.sampled_from([None, "ASC", "DESC", "DESC"]))
    if draw(st.integers(0, 2)) == 0 and (not depth or as_stored(q)):
        q["limit"] = draw(st.integers(0, 6))
    if depth:
        return q, {n: k for n, k in out.items() if n[-1] != ")"} or {"t": "text"}
    return q


@st.composite
def cases(draw):
    return {
        "query": draw(queries()),
        "blobs": draw(st.lists(sized_list(RECORD, (0, 2, 4, 8, 16)), min_size=1, max_size=3)),
        "style": draw(st.lists(st.integers(0, 59), min_size=1, max_size=12)),
        "persistence": draw(st.sampled_from([STORAGE_CLASS.NO_PERSISTANCE, STORAGE_CLASS.NO_PERSISTANCE, STORAGE_CLASS.MEMORY, STORAGE_CLASS.DISK])),
    }


# ---------------------------------------------------------------- writing it


def gap(style):
    return style.pick([" ", " ", " ", "\n", "  ", " -- it's a comment, from x\n", " /* group by\n 'y */ "])


def statement(q, dataset, style):
    items = ["*"] if q["star"] else []
    for e, alias in q["items"]:
        items.append(write_expression(e, style) + (style.space() + style.keyword("AS") + " " + quote(alias, style) if alias else ""))
    if q["star"] and style.pick([0, 1]):
        items = items[1:] + items[:1]
    text = style.keyword("SELECT") + gap(style)
    if q["distinct"]:
        text += style.keyword("DISTINCT") + gap(style)
    text += ("," + style.maybe()).join(items) + gap(style) + style.keyword("FROM") + gap(style)
    if q["from"]:
        text += "(" + style.maybe() + statement(q["from"], dataset, style) + style.maybe() + ")"
    else:
        text += dataset
    if q["where"]:
        text += gap(style) + style.keyword("WHERE") + gap(style) + write(q["where"], style)
    if q["group"]:
        text += gap(style) + style.keyword("GROUP BY") + gap(style) + ("," + style.maybe()).join(write_expression(e, style) for e in q["group"])
    if q["having"]:
        text += gap(style) + style.keyword("HAVING") + gap(style) + write(q["having"], style)
    if q["order"]:
        text += gap(style) + style.keyword("ORDER BY") + gap(style) + write_expression(q["order"], style)
        if q["desc"]:
            text += gap(style) + style.keyword(q["desc"])
    if q["limit"] is not None:
        text += gap(style) + style.keyword("LIMIT") + gap(style) + str(q["limit"])
    return text


# ---------------------------------------------------------------- the oracle


class Unspecified(Exception):
    pass


def aggregate(e, members):
    if e[2] == "*":
        return len(members)
    values = [v for v in (value_of(e[2], r) for r in members) if v is not None]
    if e[1] == "COUNT":
        return len(values)
    if not values:
        return None
    if e[1] in ("MIN", "MAX"):
        return min(values) if e[1] == "MIN" else max(values)
    total = sum(map(Fraction, values))
    return total / len(values) if e[1] == "AVG" else total


class With(dict):
    """a record, and the functions of its fields when they are asked for"""

    def get(self, name, default=None):
        if name not in self and name.endswith(")"):
            for c, (_, function) in CALLS.items():
                head, tail = c.split("{}")
                if name.startswith(head) and name.endswith(tail):
                    return function(dict.get(self, name[len(head): len(name) - len(tail)].strip("`")))
        return dict.get(self, name, default)


def evaluate(q, source):
    """[(record, what it sorts by)], and whether the order is known"""
    ordered = True
    if q["from"]:
        rows, ordered = evaluate(q["from"], source)
        source = [r for r, _ in rows]
    rows = [r for r in source if q["where"] is None or holds(q["where"], With(r))]
    found = []
    if q["group"] is None:
        for r in rows:
            if q["having"] is not None and not holds(q["having"], With(r)):
                continue
            out = dict(r) if q["star"] else {}
            for e, alias in q["items"]:
                out[alias or label_of(e)] = value_of(e, r)
            found.append((out, r))
        if q["distinct"]:
            seen, kept = set(), []
            for out, r in found:
                if canon(out) not in seen:
                    seen.add(canon(out))
                    kept.append((out, r))
            found = kept
    else:
        ordered = False
        groups = {}
        for r in rows:
            groups.setdefault(canon([value_of(e, r) for e in q["group"]]), []).append(r)
        if not q["group"] and not groups:
            raise Unspecified()
        for members in groups.values():
            r = Group(members, q)
            if q["having"] is not None and not holds(q["having"], r):
                continue
            found.append(({alias or label_of(e): r.value(e) for e, alias in q["items"]}, r))
    keyed = []
    for out, r in found:
        key = None
        if q["order"]:
            e = q["order"]
            if e[0] == "field" and e[1] in out:
                key = out[e[1]]
            else:
                key = r.value(e) if isinstance(r, Group) else value_of(e, r)
        keyed.append((out, (key is not None, key)))
    if q["order"]:
        ordered = False
        keyed.sort(key=lambda p: p[1], reverse=q["desc"] == "DESC")
    if q["limit"] is not None and q["from"] is None and ordered:
        keyed = keyed[: q["limit"]]
    elif q["limit"] is not None and ordered:
        keyed = keyed[: q["limit"]]
    return keyed, ordered


class Group(dict):
    def __init__(self, members, q):
        super().__init__()
        self.members, self.q = members, q

    def value(self, e):
        return aggregate(e, self.members) if e[0] == "agg" else value_of(e, self.members[0])

    def get(self, name, default=None):
        for e, alias in self.q["items"]:
            if alias == name:
                return self.value(e)
        for f in ("SUM", "AVG", "MIN", "MAX", "COUNT"):
            if name.startswith(f + "("):
                inner = name[len(f) + 1: -1]
                if inner == "*":
                    return len(self.members)
                rows = [{"x": With(r).get(inner.strip("`") if inner[0] == "`" else inner)} for r in self.members]
                return aggregate(("agg", f, ("field", "x")), rows)
        return With(self.members[0]).get(name)


def plain(value, kind):
    if kind == "dec" and value is not None and not isinstance(value, bool):
        return round(float(value), 9)
    return value


def normal(row, kinds):
    return canon({k: plain(v, kinds.get(k)) for k, v in row.items()})


@PROP.test(cases(), quick=7000, thorough=250000)
def answers(case, ctx):
    answer(case, ctx, ctx.fresh())


def answer(case, ctx, root, dataset="d"):
    q, style = case["query"], Style(case["style"])
    stored = []
    for i, blob in enumerate(case["blobs"]):
        put(f"{root}/{dataset}/{i:02}.jsonl", b"".join(orjson.dumps(r) + b"\n" for r in blob))
        stored += blob
    text = statement(q, root + style.pick(["/", "."]) + dataset, style)
    try:
        expected, ordered = evaluate(q, stored)
    except Unspecified:
        ctx.label("aggregate of nothing")
        return
    reader = SqlReader(text, inner_reader=DiskReader, raw_path=True, persistence=case["persistence"])
    got = [dict(r) for r in iter(reader)]
    where = f"{text!r} on {short(stored)}"
    kinds = q["kinds"]
    if ordered:
        want = [normal(r, kinds) for r, _ in expected]
        if [normal(r, kinds) for r in got] != want:
            raise Violation(f"result of {where} | got={short(got)} | expected={short([r for r, _ in expected])}")
    else:
        total = len(expected) if q["limit"] is None else min(q["limit"], len(expected))
        check(len(got) == total, f"number of records from {where}", f"got={short(got)}", f"expected {total} of {short([r for r, _ in expected])}")
        # records which sort the same come in any order (all of them, when there is no order)
        at = 0
        while at < total:
            upto = at
            while upto < len(expected) and (not q["order"] or expected[upto][1] == expected[at][1]):
                upto += 1
            candidates = [normal(r, kinds) for r, _ in expected[at:upto]]
            for row in got[at: min(upto, total)]:
                if normal(row, kinds) not in candidates:
                    raise Violation(f"result of {where} | got={short(got)} | expected={short([r for r, _ in expected])} | at {short(row)}")
                candidates.remove(normal(row, kinds))
            at = upto
    clauses = sum(bool(q[c]) for c in ("where", "group", "having", "order", "distinct")) + (q["limit"] is not None)
    if clauses > 2 or q["from"]:
        if got and len(got) < len(stored):
            ctx.nt()
    for clause in ("from", "where", "group", "having", "order", "distinct", "limit"):
        if q[clause]:
            ctx.label("subquery" if clause == "from" else clause)
    depth, inner = 0, q["from"]
    while inner:
        depth, inner = depth + 1, inner["from"]
    if depth > 1:
        ctx.label(f"{depth} subqueries deep")


def twin_query(q, twist):
    return {**q, **{c: twin(q[c], twist) for c in ("where", "having") if q[c]}, "from": q["from"] and twin_query(q["from"], twist)}


@PROP.test(st.tuples(cases().filter(lambda c: c["query"]["where"] or c["query"]["from"]), st.integers(0, len(TWISTS) - 1)), quick=800, thorough=40000)
def twins(case, ctx):
    """statements which are nearly the same, one after the other"""
    case, twist = case
    blobs = case["blobs"] + [[{k: twisted(v, twist) if isinstance(v, str) else v for k, v in r.items()} for r in blob] for blob in case["blobs"]]
    root = ctx.fresh()
    for query in (case["query"], twin_query(case["query"], twist), case["query"]):
        answer({**case, "query": query, "blobs": blobs}, ctx, root)


def renamed(part, pattern, names):
    """a part of a query, with the fields called otherwise (texts in it may change as well, the records have them all)"""
    if isinstance(part, str):
        return pattern.sub(lambda match: names[match[0]], part)
    if isinstance(part, dict):
        return {k if k in ("from", "where", "group", "having", "order", "distinct", "limit", "star", "items", "desc", "kinds") else renamed(k, pattern, names): renamed(v, pattern, names) for k, v in part.items()}
    return type(part)(renamed(p, pattern, names) for p in part) if isinstance(part, (list, tuple)) else part


@PROP.test(st.tuples(cases(), NAMES.filter(lambda names: not {n.lower() for n in names} & {a.lower() for a in ALIASES})), quick=1500, thorough=60000)
def called(case, ctx):
    """what the columns, and the dataset, are called makes no difference"""
    case, names = case
    *names, dataset = names
    names = dict(zip(("t", "u", "n", "m", "flag"), names))
    pattern = re.compile(r"(?<![\w`'/])(t|u|n|m|flag)(?![\w`'])")
    blobs = [[{names.get(k, k): v for k, v in r.items()} for r in blob] for blob in case["blobs"]]
    answer({**case, "query": renamed(case["query"], pattern, names), "blobs": blobs}, ctx, ctx.fresh(), dataset)


@st.composite
def towers(draw):
    """subqueries of subqueries of a few small values, where leaving something out on any of the levels shows in the result"""
    kinds = {"n": "num", "m": "num"}
    q = None
    levels = draw(st.integers(2, 4))
    for level in range(levels):
        names = list(kinds)
        chosen = draw(st.permutations(names))[: draw(st.sampled_from([1, 2, 3, 3]))]
        below, q = q, {"from": q, "where": None, "group": None, "having": None, "order": None, "desc": None, "limit": None, "distinct": False, "star": False}
        alias = f"a{level}"
        shape = draw(st.sampled_from(["plain"] * 6 + ["group"] * 2 + ["aggregate"] * (3 if level == levels - 1 else 0)))
        if draw(st.integers(0, 3)) == 0:
            q["where"] = ("rel", draw(st.sampled_from(["!=", "<", ">="])), draw(st.sampled_from(names)), draw(st.integers(0, 2)))
        if shape == "plain":
            q["distinct"] = draw(st.integers(0, 2)) > 0
            q["items"] = [(("field", f), alias if i == 0 and draw(st.integers(0, 3)) == 0 else None) for i, f in enumerate(chosen)]
            if as_stored(below) and draw(st.integers(0, 3)) == 0:
                q["limit"] = draw(st.integers(1, 6))
        else:
            q["group"] = [("field", f) for f in chosen[:1]] if shape == "group" else []
            agg = ("agg", draw(st.sampled_from(["COUNT", "MIN", "MAX"])), ("field", chosen[-1]))
            q["items"] = [(e, None) for e in q["group"]] + [(agg, alias)]
        kinds = q["kinds"] = {a or label_of(e): "num" for e, a in q["items"]}
        if draw(st.integers(0, 4)) == 0 and q["limit"] is None and not q["group"] == []:
            q["order"], q["desc"] = ("field", draw(st.sampled_from(list(kinds)))), draw(st.sampled_from([None, "ASC", "DESC"]))
    small = st.fixed_dictionaries({"n": st.integers(0, 2), "m": st.integers(0, 1)})
    return {
        "query": q,
        "blobs": draw(st.lists(sized_list(small, (2, 4, 8)), min_size=1, max_size=2)),
        "style": draw(st.lists(st.integers(0, 59), min_size=1, max_size=12)),
        "persistence": STORAGE_CLASS.NO_PERSISTANCE,
    }


@PROP.test(towers(), quick=1500, thorough=60000)
def nested(case, ctx):
    """every level of a statement has its say"""
    answer(case, ctx, ctx.fresh())


def by_key(rows, key):
    groups = {}
    for row in rows:
        groups.setdefault(row[key], []).append(row)
    return groups


# (statement, its result from the stored records, ordered)
LONG_STATEMENTS = [
    ("SELECT * FROM {d}", lambda rows, s: rows, True),
    ("SELECT n, t FROM {d} ORDER BY n DESC", lambda rows, s: [{"n": r["n"], "t": r["t"]} for r in rows[::-1]][:10_000], True),
    ("SELECT n FROM {d} ORDER BY back LIMIT {s}", lambda rows, s: [{"n": r["n"]} for r in rows[::-1]][:s], True),
    ("SELECT n FROM {d} WHERE v > 10 LIMIT {s}", lambda rows, s: [{"n": r["n"]} for r in rows if r["v"] > 10][:s], True),
    ("SELECT DISTINCT v FROM {d}", lambda rows, s: [{"v": v} for v in by_key(rows, "v")], False),
    ("SELECT DISTINCT back FROM {d} ORDER BY back DESC LIMIT {s}", lambda rows, s: [{"back": r["back"]} for r in rows][:s], True),
    (
        "SELECT k, COUNT(*), SUM(v), MAX(n) FROM {d} GROUP BY k",
        lambda rows, s: [
            {"k": k, "COUNT(*)": len(g), "SUM(v)": sum(r["v"] for r in g), "MAX(n)": g[-1]["n"]} for k, g in by_key(rows, "k").items()
        ],
        False,
    ),
    (
        "SELECT k, MIN(n) AS first FROM {d} WHERE v <> 0 GROUP BY k HAVING COUNT(*) >= 2 ORDER BY first LIMIT {s}",
        lambda rows, s: [{"k": k, "first": g[0]["n"]} for k, g in by_key([r for r in rows if r["v"]], "k").items() if len(g) > 1][:s],
        True,
    ),
    (
        "SELECT COUNT(*), MIN(back), MAX(back), AVG(n) FROM {d}",
        lambda rows, s: [{"COUNT(*)": len(rows), "MIN(back)": -len(rows) + 1, "MAX(back)": 0, "AVG(n)": (len(rows) - 1) / 2}],
        True,
    ),
    ("SELECT n FROM (SELECT n, v FROM {d} WHERE v > -20) WHERE v < 20", lambda rows, s: [{"n": r["n"]} for r in rows if -20 < r["v"] < 20], True),
    ("SELECT COUNT(*) FROM (SELECT k FROM {d} GROUP BY k)", lambda rows, s: [{"COUNT(*)": len(by_key(rows, "k"))}], True),
    (
        "SELECT n FROM {d} WHERE n IN (" + ", ".join(str(i * 3) for i in range(2000)) + ")",
        lambda rows, s: [{"n": r["n"]} for r in rows if r["n"] % 3 == 0 and r["n"] < 6000],
        True,
    ),
    (
        "SELECT n FROM {d} WHERE " + " OR ".join(f"n = {i * 3}" for i in range(110)),
        lambda rows, s: [{"n": r["n"]} for r in rows if r["n"] % 3 == 0 and r["n"] < 330],
        True,
    ),
    (
        "SELECT " + ", ".join(f"n AS n{i}" for i in range(60)) + " FROM {d} LIMIT {s}",
        lambda rows, s: [{f"n{i}": r["n"] for i in range(60)} for r in rows[: min(s, 3000)]] if s <= 3000 else None,
        True,
    ),
]


@PROP.test(
    st.fixed_dictionaries(
        {
            "blobs": st.sampled_from([[600], [50] * 40, [2, 4000], [5003, 4000]]),
            "groups": st.sampled_from([3, 1009, 100_003]),
            "statement": st.integers(0, len(LONG_STATEMENTS) - 1),
            "limit": st.sampled_from([1, 101, 1001, 2050, 5001, 100_000]),
            "persistence": st.sampled_from([STORAGE_CLASS.NO_PERSISTANCE, STORAGE_CLASS.MEMORY, STORAGE_CLASS.DISK, STORAGE_CLASS.COMPRESSED_MEMORY]),
        }
    ),
    quick=60,
    thorough=3000,
)
def sizes(case, ctx):
    """thousands of records, groups and words"""
    root = ctx.fresh()
    rows = [{**r, "back": -r["n"]} for r in bulk(sum(case["blobs"]), groups=case["groups"], width=8)]
    template, evaluate_it, ordered = LONG_STATEMENTS[case["statement"]]
    want = evaluate_it(rows, case["limit"])
    if want is None:
        return
    at = 0
    for i, count in enumerate(case["blobs"]):
        put(f"{root}/d/{i:03}.jsonl", b"".join(orjson.dumps(r) + b"\n" for r in rows[at : at + count]))
        at += count
    text = template.format(d=f"{root}/d", s=case["limit"])
    got = [dict(r) for r in iter(SqlReader(text, inner_reader=DiskReader, raw_path=True, persistence=case["persistence"]))]
    got = [{k: float(v) if k.startswith(("AVG", "SUM")) else v for k, v in r.items()} for r in got]
    where = f"{short(text)} on {len(rows)} records"
    check(len(got) == len(want), f"{len(got)} records instead of {len(want)} from {where}")
    if not ordered:
        got, want = sorted(got, key=repr), sorted(({k: float(v) if k.startswith("SUM") else v for k, v in r.items()} for r in want), key=repr)
    wrong = [(g, w) for g, w in zip(got, want) if g != w][:2]
    expect_rows([g for g, _ in wrong], [w for _, w in wrong], f"the first records which differ, from {where}")
    ctx.nt()


PROP.regress(
    "sizes",
    *[
        {"blobs": [5003, 4000], "groups": 100_003, "statement": i, "limit": 3000, "persistence": STORAGE_CLASS.MEMORY}
        for i in range(len(LONG_STATEMENTS))
    ],
)


BROKEN = st.sampled_from(
    ["", "SELECT", "FROM {d}", "SELECT * {d}", "SELECT n FROM", "SELECT n FROM {d} x y", "SELECT n FROM (SELECT n FROM {d}", "SELECT n FROM (SELECT n FROM {d}) x",
     "SELECT n FROM {d} ORDER BY n DESC m", "SELECT n FROM {d} LIMIT x", "SELECT n FROM {d} WHERE n", "SELECT n FROM {d} WHERE n = 1 m = 2", "x SELECT n FROM {d}",
     "SELECT n, COUNT(*) FROM {d} GROUP BY t", "SELECT t, MAX(n) FROM {d}", "SELECT n FROM {d}; DROP {d}", "SELECT n AS FROM {d}", "SELECT UPPER(t FROM {d}",
     "SELECT n FROM {d} GROUP BY n HAVING COUNT(*)", "SELECT n FROM {d} ORDER BY n ASC DESC, t", "DELETE FROM {d}", "SELECT n FROM {d} ORDER BY n, t"]
)


@PROP.test(st.tuples(BROKEN, st.lists(st.integers(0, 59), min_size=1, max_size=6)), quick=150, thorough=2000)
def refuses(case, ctx):
    template, choices = case
    style = Style(choices)
    root = ctx.fresh()
    put(f"{root}/d/1.jsonl", b'{"n": 1, "t": "a"}\n')
    words = template.format(d=f"{root}.d").split(" ")
    text = "".join(style.keyword(w) + style.pick([" ", " ", "\n", "  "]) for w in words) if root not in template else template
    text = template.format(d=f"{root}.d")
    text = text if style.pick([0, 1]) else text.replace(" ", style.pick(["  ", "\n", "\t"]))
    try:
        rows = list(SqlReader(text, inner_reader=DiskReader, raw_path=True))
    except BaseException as exc:
        check(isinstance(exc, Exception) or type(exc).__module__.startswith("mabel"), f"{text!r} ended with", repr(exc))
        check(not isinstance(exc, (MemoryError, RecursionError)), f"{text!r} ended with", repr(exc))
        ctx.nt()
        return
    raise Violation(f"the malformed statement {text!r} was not refused, it gave {short(rows)}")
