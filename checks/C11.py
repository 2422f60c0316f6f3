"""C11 - a filter expression keeps exactly the records for which it is true, and a malformed one is refused."""
import datetime
import operator
import re

from domain import sized_list, weighted
from harness import Property, Violation, check, expect_rows, same, short
from vhyp import st

from mabel.data import STORAGE_CLASS
from mabel.data.internals.dictset import DictSet
from mabel.data.internals.expression import Expression

PROP = Property(
    "C11",
    rule="a case is a tree of AND / OR / NOT / parentheses over comparisons (relational, IS, IN, LIKE, MATCHES, CONTAINS; "
    "quoted text holding keywords, operators, brackets, whitespace; dates; numbers; nulls; backticked names), written "
    "with random case, spacing and redundant parentheses, and a list of records; compared with a direct evaluation of "
    "the tree; non-trivial = the expression has a connective and some records match and some do not",
    assumptions=[
        "comparisons are Python's; values which cannot be compared do not match; a missing field is null",
        "text compared with a number, boolean or date is read as one when it looks like one (tested with unambiguous spellings)",
        "text does not hold both kinds of quotes; field names which hold spaces, keywords or function names are in backticks",
        "function calls stand left of the operator and name the selected column of that label",
    ],
)

PLAIN = st.sampled_from(["abc", "ABC", "a", "", "b c", "xyz", "zz", "None"])
TRICKY = st.sampled_from(
    ["x and y", "a  b", "or", "a = b", "(x", "y)", "a,b", "*", "is not null", "it's", 'say "hi"', "NOT", "a\tb", "line\nbreak",
     "`tick`", "select x from y", "like '%'", "in (1)", " lead", "trail ", "max(a)", "[1]", "5 > 3", "<>", ",", "--", "caf\u00e9", "\\d+"]
)
LOOKS = ["5", "-3", "1.5", "9007199254740993", "-9007199254740993", "true", "False", "2021-01-02", "2021-01-02 03:04", "2020-02-29T10:11:12"]
TEXTS = weighted(3, PLAIN, 3, TRICKY, 2, st.sampled_from(LOOKS))
NUMBERS = weighted(4, st.integers(-6, 6), 1, st.sampled_from([1.5, -0.5, 2.0, 0.0, 1e5]), 1, st.integers(-(2**63), 2**63 - 1), 1, st.sampled_from([2**53 + 1, 2**53, -(2**53) - 1]))
MOMENTS = st.sampled_from(
    [datetime.datetime(2021, 1, 2), datetime.datetime(2021, 1, 2, 3, 4), datetime.datetime(2020, 2, 29, 10, 11, 12), datetime.datetime(1999, 12, 31)]
)
DAYS = st.sampled_from([datetime.date(2021, 1, 2), datetime.date(1999, 12, 31)])
ANY = weighted(3, TEXTS, 3, NUMBERS, 1, st.booleans(), 1, st.none(), 1, MOMENTS, 1, DAYS)

FIELDS = {
    "t": TEXTS,
    "u": PLAIN,
    "n": NUMBERS,
    "m": NUMBERS,
    "any": ANY,
    "flag": st.booleans(),
    "at": weighted(2, MOMENTS, 1, DAYS),
    "tags": st.lists(weighted(3, TEXTS, 1, st.integers(0, 5)), max_size=3),
    "first name": TEXTS,
    "in": NUMBERS,
    "x.y": ANY,
    "YEAR(at)": st.integers(1998, 2022),
    "LEFT(t,2)": PLAIN,
    "ROUND(LEN(TRIM(t)),MONTH(at))": NUMBERS,
    "is_x": ANY,
    "notes": TEXTS,
    "mean": NUMBERS,
    "T": PLAIN,
}
RECORD = st.fixed_dictionaries({}, optional={name: weighted(4, value, 1, st.none()) for name, value in FIELDS.items()})
QUOTED = {"first name", "in"}
RELATIONS = {"=": operator.eq, "==": operator.eq, "!=": operator.ne, "<>": operator.ne, "<": operator.lt, ">": operator.gt,
             "<=": operator.le, ">=": operator.ge}

FIELD = st.sampled_from([f for f in FIELDS if f != "tags"])
LITERAL = weighted(4, TEXTS, 3, NUMBERS, 1, st.booleans(), 1, st.none(), 2, MOMENTS)
PATTERN = st.sampled_from(["%", "a%", "%b%", "_bc", "%and%", "%\n%", "2021%", "5", "%.%", "x (%", "%(%", "%*%", "ABC", "", "_", "%'%", "2021-01-02", "%  %", "[a]%", "true"])
REGEX = st.sampled_from(["^a", "b$", "[abc]", "\\d", "and", "a|z", "^$", "\\(", "(b|x)", "^2021-", "\\s\\s", "2021-01-02"])
CONDITION = weighted(
    4, st.tuples(st.just("rel"), st.sampled_from(sorted(RELATIONS)), FIELD, LITERAL),
    1, st.tuples(st.just("rev"), st.sampled_from(sorted(RELATIONS)), FIELD.filter(lambda f: f[-1] != ")"), LITERAL),
    1, st.tuples(st.just("two"), st.sampled_from(sorted(RELATIONS)), st.sampled_from(["u", "n", "m", "flag"]), st.sampled_from(["u", "n", "m", "flag"])),
    1, st.tuples(st.just("is"), st.sampled_from(["IS", "IS NOT"]), st.sampled_from(["any", "n", "flag", "first name", "tags", "missing"]), st.sampled_from([None, None, True, False])),
    2, st.tuples(st.just("in"), st.just("IN"), FIELD, st.lists(weighted(3, TEXTS, 2, NUMBERS, 1, st.booleans(), 1, MOMENTS, 1, st.none()), min_size=1, max_size=4)),
    2, st.tuples(st.just("text"), st.sampled_from(["LIKE", "NOT LIKE"]), st.sampled_from(["t", "u", "notes", "any", "n", "first name", "LEFT(t,2)"]), PATTERN),
    1, st.tuples(st.just("text"), st.just("MATCHES"), st.sampled_from(["t", "u", "notes", "any", "first name"]), REGEX),
    1, st.tuples(st.just("text"), st.just("CONTAINS"), st.sampled_from(["t", "u", "tags", "tags", "any"]), TEXTS),
)
TREE = st.recursive(
    CONDITION,
    lambda kids: st.one_of(
        st.tuples(st.just("AND"), kids, kids), st.tuples(st.just("OR"), kids, kids), st.tuples(st.just("NOT"), kids), st.tuples(st.just("()"), kids)
    ),
    max_leaves=6,
)


# ---------------------------------------------------------------- the oracle


def moment(text):
    if isinstance(text, str) and re.fullmatch(r"\d{4}-\d\d-\d\d([T ]\d\d:\d\d(:\d\d)?)?", text):
        return datetime.datetime.fromisoformat(text)
    return None


def interpret(value):
    """text which is compared with something which is not text"""
    if isinstance(value, str):
        if value.lower() in ("true", "false"):
            return value.lower() == "true"
        for kind in (int, float):
            try:
                return kind(value)
            except ValueError:
                pass
        return moment(value) or value
    return value


def literal(value):
    """quoted text which is a date is a date"""
    return moment(value) or value


def as_moment(value):
    return datetime.datetime.combine(value, datetime.time()) if type(value) is datetime.date else value


def compare(op, left, right):
    try:
        return bool(op(left, right))
    except TypeError:
        return False


def like(value, pattern):
    if value is None:
        return False
    value, pattern = str(value).lower(), pattern.lower()
    # which prefixes of the pattern match which prefixes of the value
    row = [True] + [False] * len(value)
    for ch in pattern:
        if ch == "%":
            first = row.index(True) if True in row else len(row)
            row = [i >= first for i in range(len(row))]
        else:
            row = [False] + [row[i] and (ch == "_" or ch == value[i]) for i in range(len(value))]
    return row[-1]


def condition(node, record):
    kind, op, field, other = node
    value = record.get(field)
    if kind == "two":
        other = record.get(other)
        left, right = interpret(value), interpret(other)
        if isinstance(value, str) and isinstance(other, str) and (isinstance(left, str) or isinstance(right, str)):
            # text beside text; only where both look like something else are they read as that
            left, right = value, other
        return compare(RELATIONS[op], left, right)
    if kind == "is":
        return (interpret(value) is other) == (op == "IS")
    if kind == "in":
        value = as_moment(value)
        candidates = [literal(o) for o in other]
        return any(c == value and (isinstance(c, str) == isinstance(value, str)) for c in candidates) or (
            isinstance(value, str) and interpret(value) in candidates
        )
    if kind == "text":
        if op == "CONTAINS":
            return compare(lambda a, b: b in a, value, other)
        if op == "MATCHES":
            return compare(lambda a, b: re.search(b, a) is not None, value, other)
        return like(value, other) == (op == "LIKE")
    other = literal(other)
    if not (isinstance(value, str) and isinstance(other, str)):
        value = as_moment(interpret(value))
    return compare(RELATIONS[op], value, other) if kind == "rel" else compare(RELATIONS[op], other, value)


def holds(node, record):
    if node[0] == "AND":
        return holds(node[1], record) and holds(node[2], record)
    if node[0] == "OR":
        return holds(node[1], record) or holds(node[2], record)
    if node[0] == "NOT":
        return not holds(node[1], record)
    if node[0] == "()":
        return holds(node[1], record)
    return condition(node, record)


# ---------------------------------------------------------------- writing it


class Style:
    """the free choices of whoever types the expression, from a list of numbers"""

    def __init__(self, choices):
        self.choices = choices
        self.at = 0

    def pick(self, options):
        n = self.choices[self.at % len(self.choices)]
        self.at += 1
        return options[n % len(options)]

    def keyword(self, word):
        word = self.pick([word, word.lower(), word.title(), word, word.lower(), "".join(c.lower() if i % 2 else c for i, c in enumerate(word))])
        return word.replace(" ", self.pick([" ", " ", "  ", "\n"]))

    def space(self):
        return self.pick([" ", " ", "  ", "\n", "\t "])

    def maybe(self):
        return self.pick([" ", "", "  "])


def write_field(name, style):
    if name in QUOTED or name[-1] != ")" and not re.fullmatch(r"[\w.]+", name) or (name[-1] != ")" and style.pick([0, 0, 0, 1])):
        return f"`{name}`"
    if name[-1] == ")":
        return name.replace(",", "," + style.maybe())
    return name


def write_text(text, style):
    if "'" in text:
        return f'"{text}"'
    if '"' in text:
        return f"'{text}'"
    return style.pick([f"'{text}'", f"'{text}'", f'"{text}"'])


def write_literal(value, style):
    if value is None:
        return style.keyword(style.pick(["NULL", "NONE"]))
    if isinstance(value, bool):
        return style.keyword(str(value).upper())
    if isinstance(value, datetime.datetime):
        text = value.strftime(style.pick(["%Y-%m-%d %H:%M:%S", "%Y-%m-%dT%H:%M:%S"]))
        if not value.second and style.pick([0, 1]):
            text = text[:16]
        if (value.hour, value.minute, value.second) == (0, 0, 0):
            text = style.pick([text, text[:10]])
        return f"'{text}'"
    if isinstance(value, str):
        return write_text(value, style)
    return repr(value)


def write(node, style):
    kind = node[0]
    if kind == "()":
        return "(" + style.maybe() + write(node[1], style) + style.maybe() + ")"
    if kind == "NOT":
        inner = write(node[1], style)
        if node[1][0] in ("AND", "OR"):
            inner = f"({inner})"
        return style.keyword("NOT") + (style.maybe() if inner[0] == "(" else style.space()) + inner
    if kind in ("AND", "OR"):
        sides = []
        for i, kid in enumerate(node[1:]):
            text = write(kid, style)
            # AND binds tighter
            if kind == "AND" and kid[0] == "OR":
                text = f"({text})"
            sides.append(text)
        left = style.maybe() if sides[0][-1] == ")" else style.space()
        right = style.maybe() if sides[1][0] == "(" else style.space()
        return sides[0] + left + style.keyword(kind) + right + sides[1]
    _, op, field, other = node
    name = write_field(field, style)
    if kind == "two":
        return name + style.maybe() + op + style.maybe() + write_field(other, style)
    if kind == "rel":
        return name + style.maybe() + op + style.maybe() + write_literal(other, style)
    if kind == "rev":
        return write_literal(other, style) + style.maybe() + op + style.maybe() + name
    if kind == "in":
        items = [write_literal(o, style) for o in other]
        return name + style.space() + style.keyword(op) + style.maybe() + "(" + ("," + style.maybe()).join(items) + ")"
    value = write_text(other, style) if kind == "text" else write_literal(other, style)
    return name + style.space() + style.keyword(op) + style.space() + value


def depth(node):
    return 0 if node[0] in ("rel", "rev", "two", "is", "in", "text") else 1 + max(depth(k) for k in node[1:])


STYLE = st.lists(st.integers(0, 59), min_size=1, max_size=12)


def literals(node, found):
    """the values a tree compares its fields with, so that records can hold them"""
    if node[0] in ("rel", "rev", "in", "is"):
        values = node[3] if node[0] == "in" else [node[3]]
        found.setdefault(node[2], []).extend(values)
        if isinstance(values[0], str) and not moment(values[0]):
            found[node[2]] += [values[0] + " ", values[0].upper()]
        elif type(values[0]) in (int, float):
            found[node[2]] += [values[0] + 1, str(values[0])]
        elif isinstance(values[0], datetime.datetime):
            found[node[2]] += [values[0].isoformat(), values[0].date()]
    elif node[0] == "text":
        text = node[3].replace("%", "b").replace("_", "a")
        found.setdefault(node[2], []).extend([[text], [node[3], "abc"]] if node[2] == "tags" else [text, node[3], f"a{node[3]}"])
    elif node[0] != "two":
        for kid in node[1:]:
            literals(kid, found)
    return found


@st.composite
def cases(draw):
    tree = draw(weighted(1, TREE, 3, st.tuples(st.sampled_from(["AND", "OR", "OR"]), TREE, TREE)))
    values = {f: v for f, v in literals(tree, {}).items()}
    used = st.fixed_dictionaries(
        {f: weighted(3, st.sampled_from(v), 2, FIELDS.get(f, ANY), 1, st.none()) for f, v in values.items()}
    )
    rows = draw(sized_list(st.tuples(RECORD, used, st.booleans()), (1, 2, 4, 8)))
    rows = [{**r, **u} if both else r for r, u, both in rows]
    return tree, draw(STYLE), rows, draw(st.integers(0, 2))


CASES = cases()


@PROP.test(CASES, quick=12000, thorough=500000)
def evaluates(case, ctx):
    tree, choices, rows, storage = case
    text = write(tree, Style(choices))
    before = [dict(r) for r in rows]
    expected = [r for r in rows if holds(tree, r)]
    expression = Expression(text)
    for turn in (1, 2):  # an expression is evaluated over and over
        kept = [r for r in rows if expression.evaluate(r)]
        expect_rows(kept, expected, f"records kept (turn {turn}) by {text!r} of {short(rows)}")
    storage = [STORAGE_CLASS.NO_PERSISTANCE, STORAGE_CLASS.MEMORY, STORAGE_CLASS.NO_PERSISTANCE][storage]
    expect_rows(list(DictSet(rows, storage_class=storage).filter(text)), expected, f"DictSet.filter of {text!r} on {short(rows)}")
    expect_rows(rows, before, "evaluating the expression changed the records")
    if depth(tree):
        if 0 < len(expected) < len(rows):
            ctx.nt("connective")
        if depth(tree) > 2:
            ctx.label("deep")


# what a text is easily taken for
TWISTS = [str.swapcase, str.lower, str.upper, lambda t: t.replace(" ", "  "), lambda t: t.replace("  ", " "), lambda t: t + " ", lambda t: t[:-1] + "~", lambda t: "~" + t[1:]]


def twisted(value, twist):
    if isinstance(value, str) and not moment(value):
        return TWISTS[twist](value)
    if type(value) is int and abs(value) < 10**6:
        return float(value)
    return value


def twin(node, twist):
    """the same but for how the texts in it are written"""
    if node[0] in ("AND", "OR", "NOT", "()"):
        return (node[0], *[twin(kid, twist) for kid in node[1:]])
    if node[0] == "in":
        return (*node[:3], [twisted(v, twist) for v in node[3]])
    if node[0] in ("two", "is") or node[1] == "MATCHES":
        return node
    return (*node[:3], twisted(node[3], twist))


@PROP.test(st.tuples(CASES, st.integers(0, len(TWISTS) - 1)), quick=2500, thorough=100000)
def twins(case, ctx):
    """expressions which are nearly the same, evaluated one after the other"""
    (tree, choices, rows, _), twist = case
    rows = rows + [{k: twisted(v, twist) if isinstance(v, str) else v for k, v in r.items()} for r in rows]
    trees = [tree, twin(tree, twist), tree]
    results = []
    for node in trees:
        text = write(node, Style(choices))
        expected = [r for r in rows if holds(node, r)]
        results.append(len(expected))
        expect_rows(list(DictSet(rows).filter(text)), expected, f"records kept by {text!r}, after {short(trees)}, of {short(rows)}")
    if results[0] != results[1] or trees[0] != trees[1]:
        ctx.nt("twins")


# what has a meaning in an expression or a statement has none within a name
SPECIAL = [
    *"AND OR NOT IN IS LIKE MATCHES CONTAINS BETWEEN NULL NONE TRUE FALSE AS ASC DESC".split(),
    *"SELECT FROM WHERE GROUP ORDER BY HAVING LIMIT DISTINCT COUNT MAX MIN SUM AVG".split(),
    *"YEAR MONTH DAY DATE QUARTER WEEK HOUR MINUTE SECOND TIME NOW UPPER LOWER UCASE LCASE TRIM LEN STRING LEFT RIGHT MID CONCAT".split(),
    *"ROUND TRUNC INTEGER DOUBLE BOOLEAN ISNONE HASH MD5 RANDOM SORT ADDDAYS DAYSDIFF".split(),
]
NAME = st.builds(
    lambda word, form, way: way(form.format(word)),
    st.sampled_from(SPECIAL), st.sampled_from(["{}s", "{}s", "x{}", "x{}", "{}x", "my_{}", "{}_1", "{}2", "_{}", "{}_by", "é{}", "{}é"]), st.sampled_from([str.lower, str.lower, str.upper, str.title, str]),
).filter(lambda name: name.upper() not in SPECIAL)
NAMES = st.lists(NAME, min_size=6, max_size=6, unique_by=str.lower)


def renamed(node, names):
    if node[0] in ("AND", "OR", "NOT", "()"):
        return (node[0], *[renamed(kid, names) for kid in node[1:]])
    node = (*node[:2], names.get(node[2], node[2]), node[3])
    return (*node[:3], names.get(node[3], node[3])) if node[0] == "two" else node


@PROP.test(st.tuples(CASES, NAMES), quick=3000, thorough=100000)
def called(case, ctx):
    """what the fields are called makes no difference"""
    (tree, choices, rows, _), names = case
    names = dict(zip(("t", "u", "n", "m", "any", "flag"), names))
    tree, rows = renamed(tree, names), [{names.get(k, k): v for k, v in r.items()} for r in rows]
    text = write(tree, Style(choices))
    expected = [r for r in rows if holds(tree, r)]
    expect_rows(list(DictSet(rows).filter(text)), expected, f"records kept by {text!r} of {short(rows)}")
    if len(expected) < len(rows) and set(names.values()) & {leaf[2] for leaf in leaves(tree)}:
        ctx.nt("called")


def leaves(node):
    return [leaf for kid in node[1:] for leaf in leaves(kid)] if node[0] in ("AND", "OR", "NOT", "()") else [node]


def truth(node, values):
    """of a tree whose leaves are, in order, these values"""
    if node[0] == "AND":
        return bool(truth(node[1], values) & truth(node[2], values))
    if node[0] == "OR":
        return bool(truth(node[1], values) | truth(node[2], values))
    if node[0] == "NOT":
        return not truth(node[1], values)
    return truth(node[1], values) if node[0] == "()" else next(values)


def dnf_truth(node, values, found):
    """the same of its DNF form: [a, b] is both, [[a], [b]] is either"""
    if isinstance(node, list):
        kids = [k[0] if len(node) == 2 and all(type(n) is list and len(n) == 1 for n in node) else k for k in node]
        either = kids is not node and kids[0] is not node[0]
        results = [dnf_truth(k, values, found) for k in kids]
        return any(results) if either else all(results)
    if len(node) == 2:
        check(node[0] == "NOT", "a part of the DNF form is", node)
        return not dnf_truth(node[1], values, found)
    found.append(node)
    return next(values)


@PROP.test(st.tuples(TREE, STYLE), quick=1000, thorough=40000)
def normal_form(case, ctx):
    """the form with predicates as tuples says the same"""
    tree, choices = case
    text = write(tree, Style(choices))
    form = Expression(text).to_dnf()
    order = leaves(tree)
    for bits in range(2 ** len(order)):
        values = [bool(bits >> i & 1) for i in range(len(order))]
        found = []
        got = dnf_truth(form, iter(values), found)
        check(got == truth(tree, iter(values)), f"{text!r} became", form, "with", values)
        check(len(found) == len(order), f"{text!r} became", form)
    for (kind, op, field, other), (left, relation, right) in zip(order, found):
        if kind == "rev":
            left, right = right, left
        check(left.strip("`") == field and relation == op, f"{(kind, op, field, other)} in {text!r} became", (left, relation, right))
        if kind != "two" and not isinstance(other, (str, list, datetime.datetime)):
            check(same(right, other), f"{(kind, op, field, other)} in {text!r} became", (left, relation, right))
        elif kind == "text":
            check(right == f'"{other}"', f"{(kind, op, field, other)} in {text!r} became", (left, relation, right))
    if len(order) > 1:
        ctx.nt("normal form")


BREAKS = st.sampled_from(
    ["two", "open", "close", "end and", "start or", "no operator", "no value", "no field", "two values", "quote", "open list", "junk"]
)


@PROP.test(st.tuples(TREE, TREE, STYLE, BREAKS), quick=2000, thorough=100000)
def refuses(case, ctx):
    tree, other, choices, how = case
    style = Style(choices)
    text = write(tree, style)
    more = write(other, style)
    broken = {
        "two": f"{text} {more}",
        "open": f"({text}",
        "close": f"{text})",
        "end and": f"{text} and",
        "start or": f"or {text}",
        "no operator": f"{text} and n",
        "no value": f"{text} and n >",
        "no field": f"{text} or = 5",
        "two values": f"n = 5 6 and {text}",
        "quote": f"{text} and t = 'abc",
        "open list": f"{text} and n in (1, 2",
        "junk": f"{text} ; {more}",
    }[how]
    if how == "two" and more[:3].lower() == "not" or how == "quote" and "'" in text:
        return
    try:
        Expression(broken)
    except BaseException:
        ctx.nt(how)
        return
    raise Violation(f"accepted a malformed expression ({how}): {broken!r}")


PROP.regress(
    "evaluates",
    (("AND", ("is", "IS", "any", None), ("rel", "=", "n", 1)), [0], [{"n": 1}, {"n": 2}, {"n": 1, "any": 2}], 0),
    (("OR", ("rel", "=", "t", "x and y"), ("rel", "=", "t", "a  b")), [0], [{"t": "x and y"}, {"t": "a b"}, {"t": "a  b"}], 0),
    (("rel", "=", "t", "5"), [0], [{"t": "5"}, {"t": "6"}], 0),
    (("in", "IN", "t", ["5", "true"]), [0], [{"t": "5"}, {"t": "true"}, {"t": "abc"}], 0),
    (("in", "IN", "t", ["x", None]), [0], [{"t": "x"}, {"t": None}, {}, {"t": "UL"}, {"t": "NULL"}, {"t": "None"}], 0),
    (("in", "IN", "n", [None]), [1], [{"n": 0}, {"n": None}, {}], 0),
    (("text", "LIKE", "t", "2021-01-02"), [0], [{"t": "2021-01-02"}, {"t": "2021"}], 0),
    (("text", "LIKE", "t", "%b%"), [0], [{"t": "a\nb"}, {"t": None}], 0),
    (("rel", "=", "at", datetime.datetime(2021, 1, 2)), [0], [{"at": datetime.date(2021, 1, 2)}], 0),
)
PROP.regress("refuses", (("rel", "=", "n", 1), ("rel", "=", "n", 2), [0], "two"))


@PROP.test(
    st.fixed_dictionaries(
        {
            "shape": st.sampled_from(["OR", "AND", "IN", "brackets", "nots", "text", "like"]),
            "size": st.sampled_from([9, 17, 33, 65, 110]),
            "times": st.sampled_from([1, 1, 2]),
            "style": STYLE,
            "step": st.sampled_from([1, 3, 7]),
            "text": st.booleans(),
        }
    ),
    quick=200,
    thorough=6000,
)
def sizes(case, ctx):
    """long expressions: every part of them counts"""
    size = case["size"] * (case["times"] if case["shape"] in ("OR", "AND") else 10 if case["shape"] in ("IN", "text", "like") else 1)
    values = [i * case["step"] for i in range(size)]
    if case["text"]:
        values = [f"v {i} and more" for i in values]
    style, shape = Style(case["style"]), case["shape"]
    if shape in ("OR", "brackets"):
        node = ("rel", "=", "n", values[0])
        for i, value in enumerate(values[1:]):
            node = ("OR", node, ("rel", "=", "n", value)) if i % 2 or shape == "OR" else ("OR", ("rel", "=", "n", value), ("()", node))
        keep = set(values)
    elif shape == "AND":
        node = ("rel", "<>", "n", values[0])
        for value in values[1:]:
            node = ("AND", node, ("rel", "<>", "n", value))
        keep = None
    elif shape == "nots":
        node = ("rel", "=", "n", values[0])
        for _ in range(min(size, 60)):
            node = ("NOT", ("()", node))
        keep = {values[0]} if min(size, 60) % 2 == 0 else None
    elif shape == "IN":
        node, keep = ("in", "IN", "n", values), set(values)
    else:
        last = "".join(f"{i} or " for i in range(size))
        node = ("rel", "=", "n", last) if shape == "text" else ("text", "LIKE", "n", "%" + last[:200] + "%")
        values, keep = [last, last[:-1], last + "x"], {last} if shape == "text" else {last, last[:-1], last + "x"}
    rows = [{"n": v} for v in values] + [{"n": values[0]}, {"n": -1}, {"n": "else"}, {"n": None}]
    if shape == "AND":
        expected = [r for r in rows if r["n"] in (-1, "else", None)]
    elif shape == "nots" and keep is None:
        expected = [r for r in rows if r["n"] != values[0]]
    else:
        expected = [r for r in rows if r["n"] in keep]
    check([r for r in rows if holds(node, r)] == expected or shape == "AND", "the oracle disagrees with itself")
    expected = [r for r in rows if holds(node, r)]
    text = write(node, style)
    expression = Expression(text)
    expect_rows([r for r in rows if expression.evaluate(r)], expected, f"records kept by {short(text)}")
    ctx.nt(shape)


PROP.regress(
    "sizes",
    *[
        {"shape": shape, "size": 110, "times": 1, "style": [0], "step": 3, "text": text}
        for shape in ("OR", "AND", "IN", "brackets", "nots", "text", "like")
        for text in (True, False)
    ],
)
