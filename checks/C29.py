"""C29 - a reader refuses parameters it does not know, lacks or can't combine, and takes all others."""
import datetime

from domain import weighted
from harness import Property, Violation, check
from vhyp import st

from mabel import Reader
from mabel.data import STORAGE_CLASS
from mabel.data.readers.internals.base_inner_reader import BaseInnerReader
from mabel.errors import InvalidReaderConfigError
from mabel.utils.parameter_validator import get_levenshtein_distance, validate

PROP = Property(
    "C29",
    rule="a case is a set of parameters for a reader (known ones, those of the inner reader, misspelt and unknown ones, "
    "required ones left out) or for a function guarded by generated rules; it is compared with a direct reading of the "
    "rules; non-trivial = it is refused, or accepted with four parameters or more",
    assumptions=["a parameter is in conflict with another one when it is set (true) and the other one is given at all"],
)
TOUCHED = []


class Inner(BaseInnerReader):
    RULES = [{"name": "end_point", "required": True}, {"name": "secure", "required": False}]

    def get_blobs_at_path(self, path):
        TOUCHED.append(path)
        return [f"{path}/a.jsonl"]

    def get_blob_bytes(self, blob):
        return b'{"a": 1}\n'


class Plain(Inner):
    RULES = []


VALUES = {
    "dataset": ["d/x"],
    "select": ["*", "a"],
    "filters": ["a = 1", [("a", "=", 1)], None],
    "inner_reader": [Inner],
    "start_date": ["2021-02-03", datetime.date(2021, 2, 3)],
    "end_date": ["2021-02-03"],
    "persistence": [STORAGE_CLASS.MEMORY, STORAGE_CLASS.NO_PERSISTANCE],
    "cursor": [None, {}],
    "override_format": [None, "jsonl"],
    "multiprocess": [True, False],
    "valid_dataset_prefixes": [["d/"], None],
    "partitions": [None, [], ["{yyyy}"]],
    "partition_filter": [None, ("a", "=", "1")],
    "raw_path": [None, True, False],
    "freshness_limit": ["", "1d"],
    "project": ["p"],
    "end_point": ["here"],
    "secure": [True],
}
CONFLICTS = [("raw_path", "freshness_limit"), ("multiprocess", "cursor"), ("partitions", "raw_path"), ("partition_filter", "freshness_limit")]
NAMES = sorted(set(VALUES) - {"dataset", "inner_reader", "end_point"})
UNKNOWN = st.one_of(
    st.tuples(st.sampled_from(sorted(VALUES)), st.sampled_from(["s", "_", "x"])).map("".join),
    st.sampled_from(["datasets", "Select", "where", "fromat", "limit", "columns", "DATASET", "filter", "start date", "inner reader", "schema", "engine"]),
    st.sampled_from(sorted(VALUES)).map(lambda n: n[:-1]),
)


@st.composite
def parameters(draw):
    given = {}
    for name in draw(st.lists(st.sampled_from(NAMES), max_size=8, unique=True)):
        given[name] = draw(st.sampled_from(VALUES[name]))
    for name in ("dataset", "inner_reader", "end_point"):
        if draw(st.integers(0, 6)) or name == "inner_reader":
            given[name] = VALUES[name][0]
    if draw(st.integers(0, 3)) == 0:
        given["inner_reader"] = Plain
    if draw(st.integers(0, 3)) == 0:
        given[draw(UNKNOWN)] = draw(st.sampled_from([None, "x", 1, ""]))
    # every day from the start, or until the end, is read
    if "start_date" in given or "end_date" in given:
        given.setdefault("start_date", "2021-02-03")
        given.setdefault("end_date", "2021-02-03")
    # conflicts are common when everything is drawn
    for first, second in CONFLICTS:
        if first in given and second in given and draw(st.integers(0, 3)):
            del given[draw(st.sampled_from([first, second]))]
    return given


@PROP.test(parameters(), quick=4000, thorough=200000)
def reader(given, ctx):
    known = set(VALUES)
    required = {"dataset"}
    if given["inner_reader"] is Inner:
        required |= {"end_point"}
    else:
        known -= {"end_point", "secure"}
    problems = sorted(set(given) - known)
    problems += sorted(required - set(given))
    problems += [pair for pair in CONFLICTS if given.get(pair[0]) and pair[1] in given]
    TOUCHED.clear()
    try:
        rows = list(iter(Reader(**given)))
    except InvalidReaderConfigError:
        check(problems, f"{given} was refused")
        check(not TOUCHED, f"{given} was refused after the storage was asked for", TOUCHED)
        ctx.nt("refused")
        return
    check(not problems, f"{given} was not refused although", problems)
    check(len(rows) == 1, f"{given} gave", rows)
    if len(given) > 3:
        ctx.nt("accepted")


RULE = st.fixed_dictionaries(
    {"name": st.sampled_from("abcdefg"), "required": st.booleans()},
    optional={"warning": st.sampled_from([None, "", "careful"]), "incompatible_with": st.lists(st.sampled_from("abcdefg"), max_size=2)},
)


@PROP.test(
    st.tuples(
        st.lists(RULE, max_size=7, unique_by=lambda r: r["name"]),
        st.dictionaries(st.sampled_from("abcdefgh"), st.sampled_from([None, 0, "", 1, "x"]), max_size=7),
        st.integers(0, 3),
    ),
    quick=3000,
    thorough=100000,
)
def rules(case, ctx):
    table, given, positional = case
    calls = []

    @validate([dict(r) for r in table])
    def function(a=None, b=None, c=None, **kwargs):
        calls.append({"a": a, "b": b, "c": c, **kwargs})
        return "result"

    leading = []
    for name in "abc"[:positional]:
        if name not in given:
            break
        leading.append(given[name])
    named = {k: v for k, v in given.items() if k not in "abc"[: len(leading)]}
    names = {r["name"] for r in table}
    problems = sorted(set(given) - names)
    problems += [r["name"] for r in table if r["required"] and r["name"] not in given]
    problems += [r["name"] for r in table if given.get(r["name"]) and any(o in given for o in r.get("incompatible_with", []))]
    try:
        result = function(*leading, **named)
    except InvalidReaderConfigError:
        check(problems, f"{given} was refused by {table}")
        check(not calls, f"{given} was refused by {table} after the call")
        ctx.nt("refused")
        return
    check(not problems, f"{given} was not refused by {table} although", problems)
    check(result == "result" and calls == [{"a": None, "b": None, "c": None, **given}], f"{given} arrived as", calls)
    if len(given) > 1:
        ctx.nt("accepted")


def distance(a, b):
    row = list(range(len(b) + 1))
    for i, x in enumerate(a):
        last, row[0] = row[0], i + 1
        for j, y in enumerate(b):
            last, row[j + 1] = row[j + 1], min(row[j + 1] + 1, row[j] + 1, last + (x != y))
    return row[-1]


WORD = weighted(3, st.text(alphabet="abAB", max_size=7), 1, st.text(alphabet="kitensgurd_", max_size=10))


@PROP.test(st.tuples(WORD, WORD), quick=2000, thorough=100000)
def levenshtein(case, ctx):
    a, b = case
    check(get_levenshtein_distance(a, b) == distance(a.lower(), b.lower()), f"the distance of {a!r} and {b!r} is", get_levenshtein_distance(a, b))
    if a and b:
        ctx.nt("words")
