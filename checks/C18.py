"""C18 - a query reads only the dataset it names, and only when that name is allowed."""
import re

from domain import weighted
from harness import Property, Violation, check, short
from vhyp import st

from mabel import Reader, SqlReader
from mabel.data.readers.internals.base_inner_reader import BaseInnerReader

PROP = Property(
    "C18",
    rule="a case is a dataset name (plain ones, names with repeated or odd characters at any place, traversals, quoted and "
    "commented names, unicode) in a query, a subquery or given to the reader, and a list of allowed prefixes; a stand-in "
    "for the storage records every path which is asked for; non-trivial = the name is refused, or allowed by one of several prefixes",
    assumptions=[
        "a dataset in SQL starts with a letter, holds letters, digits and ./-_ and no two of these in a row which could be a traversal or comment (.. // --)",
        "in SQL a dot in the name stands for a slash; prefixes are compared with the name after that",
        "whitespace around the name is not part of it; comments are removed before anything else is looked at",
    ],
)


class Storage(BaseInnerReader):
    """records what it is asked for, and holds one record at any path it is asked for"""

    asked = []

    def get_blobs_at_path(self, path):
        Storage.asked.append(str(path))
        return [f"{path}/data.jsonl"]

    def get_blob_bytes(self, blob):
        Storage.asked.append(str(blob))
        return b'{"n": 1}\n'


PART = st.sampled_from(["data", "tests", "a", "b1", "public", "private", "secret", "TABLE", "x-y", "u_v", "caf\u00e9", "ds2021", "z"])
GOOD = st.tuples(PART, st.lists(st.tuples(st.sampled_from("./-_"), PART), max_size=3)).map(lambda p: p[0] + "".join(s + t for s, t in p[1]))
ODD = ["..", "//", "--", "./", "/.", "../", "/..", "$", "*", "?", "~", "\\", ":", "'", '"', "`", ";", "%", "{yyyy}", "[a]", "|", "&", "#", "!", "=", "+", "@", "<", "\x00", " x", "\u2025", "\u3002", "..//", "-", "_", "1", "/", "."]
BAD = st.tuples(GOOD, st.sampled_from(ODD), weighted(4, st.integers(0, 20), 1, st.just(0))).map(lambda p: p[0][: p[2]] + p[1] + p[0][p[2]:])
WILD = st.text(alphabet=st.one_of(st.sampled_from("ab/.-_1"), st.characters(codec="utf-8")), min_size=1, max_size=8)
NAME = weighted(4, GOOD, 5, BAD, 1, WILD)




@st.composite
def cases(draw):
    name = draw(NAME)
    prefix = st.one_of(
        st.integers(0, 9).map(lambda n: name.replace(".", "/")[:n]), GOOD, st.just("public"), st.just(name), st.just(name.replace(".", "/") + "x"),
        st.integers(1, 9).map(lambda n: name.replace(".", "/")[:n].swapcase()),
    )
    prefixes = draw(st.one_of(st.none(), st.just([]), st.lists(prefix, min_size=1, max_size=3)))
    how = draw(st.sampled_from(["plain", "where", "subquery", "subquery", "deep", "group"]))
    return name, prefixes, how


STATEMENTS = {
    "plain": "SELECT * FROM {}",
    "where": "SELECT n\nFROM {} WHERE n = 1 LIMIT 3",
    "subquery": "SELECT n FROM (SELECT n FROM {} WHERE n = 1)",
    "deep": "SELECT COUNT(*) FROM (SELECT n FROM (SELECT * FROM {}) WHERE n = 1) WHERE n < 3",
    "group": "SELECT n, COUNT(*) FROM {} GROUP BY n",
}


def wellformed(name):
    letters = "".join(ch for ch in name if ch not in "./-_")
    return name[:1].isalpha() and not any(odd in name for odd in ("..", "//", "--")) and letters.isalnum()


def simple(name):
    """it is clear what is named: nothing the statement could also be cut at"""
    words = r"(?i)(^|\W)(select|distinct|from|where|having|asc|desc|limit)(\W|$)"
    return all(ch.isalnum() or ch in "./-_" for ch in name) and not re.search(words, name) and "--" not in name


@PROP.test(cases(), quick=5000, thorough=200000)
def sql(case, ctx):
    name, prefixes, how = case
    text = STATEMENTS[how].format(name)
    Storage.asked = []
    dataset = name.replace(".", "/")
    try:
        reader = SqlReader(text, inner_reader=Storage, partitions=None, valid_dataset_prefixes=prefixes)
        rows = [dict(r) for r in iter(reader)]
        refused = None
    except Exception as exc:
        refused = exc
    except BaseException as exc:
        if not type(exc).__module__.startswith("mabel"):
            raise
        refused = exc
    # whatever happened, nothing else was touched
    for path in Storage.asked:
        check(path[:1].isalpha() and ".." not in path and "//" not in path and "--" not in path, f"{text!r} asked for", repr(path))
        check(all(ch.isalnum() or ch in "./-_" for ch in path), f"{text!r} asked for", repr(path))
        if prefixes:
            check(any(path.startswith(p.rstrip("/")) for p in prefixes), f"{text!r} allowed {prefixes} asked for", repr(path))
        if simple(name):
            check(path in (dataset.rstrip("/"), dataset.rstrip("/") + "/data.jsonl"), f"{text!r} asked for", repr(path))
    if not simple(name):
        if refused:
            ctx.nt("refused odd")
        return
    allowed = not prefixes or any(dataset.startswith(p) for p in prefixes)
    expected = wellformed(dataset) and allowed
    if refused is None and not expected:
        raise Violation(f"{text!r} with prefixes {prefixes} was not refused, it gave {short(rows)} after asking for {Storage.asked}")
    if refused is not None and expected:
        raise Violation(f"{text!r} with prefixes {prefixes} was refused: {refused!r}")
    if refused is None:
        check(len(rows) == 1, f"{text!r} gave", short(rows))
        if prefixes and len(prefixes) > 1:
            ctx.nt("allowed")
    else:
        check(not Storage.asked, f"{text!r} with prefixes {prefixes} was refused after asking for", Storage.asked)
        if wellformed(dataset):
            check(type(refused).__name__ == "AccessDenied", f"{text!r} with prefixes {prefixes} was refused with", repr(refused))
        ctx.nt("access denied" if wellformed(dataset) else "malformed")


@PROP.test(cases(), quick=2000, thorough=50000)
def reader(case, ctx):
    name, prefixes, _ = case
    if any(ch in name for ch in "{}"):
        return
    Storage.asked = []
    allowed = not prefixes or any(name.startswith(p) for p in prefixes)
    try:
        rows = [dict(r) for r in iter(Reader(dataset=name, inner_reader=Storage, partitions=None, valid_dataset_prefixes=prefixes))]
    except Exception as exc:
        if allowed:
            return  # what names a storage takes is up to the storage
        check(type(exc).__name__ == "AccessDenied", f"reading {name!r} allowed {prefixes} ended with", repr(exc))
        check(not Storage.asked, f"reading {name!r} allowed {prefixes} was refused after asking for", Storage.asked)
        ctx.nt("access denied")
        return
    check(allowed, f"reading {name!r} allowed {prefixes} was not refused, it gave {short(rows)} after asking for {Storage.asked}")
    if prefixes and len(prefixes) > 1:
        ctx.nt("allowed")
