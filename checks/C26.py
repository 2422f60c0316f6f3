"""C26 - text is matched, cleaned, split and wrapped exactly as the rules say."""
import re
import string
from collections import Counter

from domain import weighted
from harness import Property, check, short
from vhyp import st

from mabel.utils import text as subject

PROP = Property(
    "C26",
    rule="a case is a LIKE pattern with a text made from it (wildcards replaced, then a character changed, added or "
    "removed), text to clean, split or wrap with a width, or a series of patterns matched in turns; compared with a "
    "character by character reference; non-trivial = the pattern has a wildcard and the text is not empty, or text which "
    "is changed",
    assumptions=[
        "LIKE ignores case as Python's lower() does; % is any text (also none), _ is any one character",
        "wrapping may break lines at whitespace and hyphens, and words which are longer than a line anywhere",
    ],
)
CHARS = weighted(6, st.sampled_from("aAbB1 "), 3, st.sampled_from(".^$*+?{}[]|()\\-#&~/'\"\n\r\t\x00"), 1, st.sampled_from("\u00e9\u00c9\u00df\u0130\u03a3\u03c2\U0001f600\u2028\u0085"))
PIECE = weighted(4, CHARS, 2, st.just("%"), 2, st.just("_"))
LONG = st.tuples(CHARS, st.integers(20, 600)).map(lambda c: c[0] * c[1])
PATTERN = weighted(12, st.lists(PIECE, max_size=8).map("".join), 1, st.lists(weighted(3, PIECE, 2, LONG), min_size=1, max_size=5).map("".join))


def like(value, pattern):
    if value is None:
        return False
    value, pattern = str(value).lower(), pattern.lower()
    row = [True] + [False] * len(value)
    for ch in pattern:
        if ch == "%":
            first = row.index(True) if True in row else len(row)
            row = [i >= first for i in range(len(row))]
        else:
            row = [False] + [row[i] and (ch == "_" or ch == value[i]) for i in range(len(value))]
    return row[-1]


@st.composite
def matched(draw):
    """a pattern and a text which matches it, or nearly"""
    pattern = draw(PATTERN)
    value = []
    far = pattern.count("%") == 1 and len(pattern) < 20 and draw(st.integers(0, 11)) == 0
    for ch in pattern:
        if ch == "%" and far:
            value += draw(CHARS) * draw(st.sampled_from([250, 1000, 4090, 5000, 9000]))
        elif ch == "%":
            value += draw(st.lists(CHARS, max_size=3))
        else:
            value.append(draw(CHARS) if ch == "_" else ch)
    for ch in range(min(len(value), 4000) if not far else 0):
        if draw(st.integers(0, 9)) == 0:
            value[ch] = value[ch].swapcase()
    change = draw(st.sampled_from(["no", "no", "add", "drop", "swap"]))
    at = draw(st.integers(0, len(value)))
    if change == "add":
        value.insert(at, draw(CHARS))
    elif change == "drop" and value:
        del value[at % len(value)]
    elif change == "swap" and value:
        value[at % len(value)] = draw(CHARS)
    return pattern, "".join(value)


VALUE = weighted(8, matched(), 1, st.tuples(PATTERN, st.one_of(st.none(), st.integers(-20, 20), st.booleans(), st.sampled_from([1.5, 0.0]))))


@PROP.test(st.lists(VALUE, min_size=1, max_size=7), quick=8000, thorough=400000)
def likes(cases, ctx):
    for turn in (1, 2):  # patterns are remembered
        for pattern, value in cases:
            wanted = like(value, pattern)
            got = subject.like(value, pattern)
            check(bool(got) == wanted, f"turn {turn}: {value!r} like {pattern!r} is", bool(got))
            check(bool(subject.not_like(value, pattern)) != wanted, f"turn {turn}: {value!r} not like {pattern!r}")
            if value and turn == 1 and ("%" in pattern or "_" in pattern):
                ctx.nt("like" if wanted else "unlike")


REGEX = st.sampled_from(["^a", "a$", "[ab]+", "\\d", "a|1", "^$", "\\(", "(a|b)1", "a.b", "A", "\\s"])


FAR = weighted(4, st.just(0), 1, st.integers(1, 40), 1, st.integers(40, 5000))


@PROP.test(st.tuples(REGEX, st.lists(CHARS, max_size=6).map("".join), FAR), quick=2000, thorough=60000)
def expressions(case, ctx):
    pattern, value, far = case
    value = "~" * far + value
    wanted = re.search(pattern, value) is not None
    check(bool(subject.matches(value, pattern)) == wanted, f"{value!r} matches {pattern!r}")
    ctx.nt("matches" if wanted else "does not")


LETTER = weighted(5, st.sampled_from("abcXYZ019"), 2, st.sampled_from(" \n\t"), 1, CHARS)
TEXT = weighted(
    12,
    st.lists(LETTER, max_size=60).map("".join),
    1,
    st.lists(weighted(4, LETTER, 1, st.tuples(st.sampled_from(["a", "b ", "X-", " ", "ab cd ", "\n"]), st.integers(20, 400)).map(lambda c: c[0] * c[1])), max_size=12).map("".join),
)
ASCII = set(string.ascii_letters + string.digits + string.whitespace)


@PROP.test(st.tuples(TEXT, st.one_of(st.none(), st.text(alphabet="abXY01 -_.", max_size=6))), quick=3000, thorough=120000)
def cleans(case, ctx):
    value, safe = case
    got = subject.sanitize(value) if safe is None else subject.sanitize(value, safe)
    kept = ASCII if safe is None else set(safe)
    check(got == "".join(c for c in value if c in kept), f"{value!r} keeping {safe!r} became", got)
    words = subject.tokenize(value)
    wanted = re.findall("[a-z0-9]+", "".join(c for c in value.lower() if c in ASCII))
    check(words == wanted, f"the words of {value!r} are", words, "expected", wanted)
    if got != value:
        ctx.nt("cleaned")


@PROP.test(st.tuples(TEXT, weighted(6, st.integers(1, 30), 1, st.integers(31, 300))), quick=3000, thorough=120000)
def wraps(case, ctx):
    value, width = case
    got = subject.wrap_text(value, width)
    lines = got.split("\n")
    # other characters Python takes as line breaks stay within the limits too
    check(all(len(line) <= width for line in lines), f"{value!r} wrapped to {width} has longer lines", short(got))
    visible = lambda t: "".join(t.split())
    check(visible(got) == visible(value), f"{value!r} wrapped to {width} holds other text", short(got))
    check(len(lines) >= len(value.splitlines()), f"{value!r} wrapped to {width} lost line breaks", short(got))
    # a line which fits is left alone, but for whitespace at its ends
    for line in value.splitlines():
        if len(line.expandtabs(8)) <= width and "\t" not in line:
            check(line.rstrip() in [l.rstrip() for l in lines] or not line.strip() or any(c in line for c in "\x0b\x0c"), f"{line!r} of {value!r} fits {width} but was changed", short(got))
    words = Counter(w for w in re.split(r"[\s-]+", value) if w)
    for word, count in words.items():
        if len(word) <= width and "-" not in value and all(c in ASCII for c in word):
            check(got.split().count(word) >= count, f"{value!r} wrapped to {width} broke the word {word!r}", short(got))
    if len(lines) > len(value.splitlines()):
        ctx.nt("wrapped")
