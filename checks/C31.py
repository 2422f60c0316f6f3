"""C31 - histograms, random choices and job configurations: the small tools do exactly what they say."""
import base64
import itertools
import json
import os
import unittest.mock

from domain import JSON_RECORD, weighted
from harness import Property, check, same, short
from vhyp import st

from mabel import DictSet
from mabel.data import STORAGE_CLASS
from mabel.data.internals import histogram
from mabel.data.internals.dictset import DictSet
from mabel.data.internals.histogram import Histogram
from mabel.utils import entropy
from mabel.utils.common import build_context

BAR_CHARS = getattr(histogram, "BAR_CHARS", None)

PROP = Property(
    "C31",
    rule="a case is a list of numbers (or a DictSet of them) to put into a number of bins, random bytes with a range, "
    "length or options to choose from, or a folder of configuration files with parameters; non-trivial = values in more "
    "than one bin, a range of more than one number, or a configuration which is merged or refused",
    assumptions=["a histogram has two bins or more, and one number or more", "the name of a configuration file occurs once below the working directory"],
)
NUMBER = weighted(4, st.integers(-20, 20), 2, st.floats(-50, 50), 1, st.integers(-(2**60), 2**60), 1, st.floats(-1e15, 1e15))


@PROP.test(st.tuples(st.lists(NUMBER, min_size=1, max_size=40), st.integers(2, 25), st.booleans()), quick=3000, thorough=120000)
def histogram(case, ctx):
    values, count, as_dictset = case
    source = DictSet([{"k": v, "o": "x"} for v in values]) if as_dictset else list(values)
    subject = Histogram(source, key="k", number_of_bins=count)
    check(len(subject.bins) == count, f"{count} bins of {short(values)} are", subject.bins)
    check(sum(subject.bins) == len(values), f"the bins of {len(values)} values hold", sum(subject.bins), short(values))
    # every bin holds the next values of the sorted ones, all bins span the same width
    ordered = sorted(values)
    width = (1 + ordered[-1] - ordered[0]) / (count - 1)
    at = 0
    for i, size in enumerate(subject.bins):
        for value in ordered[at : at + size]:
            place = (value - ordered[0]) / width
            check(i - 1e-6 <= place <= i + 1 + 1e-6, f"{value} of {short(values)} is in bin {i} of {count}", subject.bins)
        at += size
    drawn = repr(subject)
    check(len(drawn) == count + 2 and drawn[0] == ">" and drawn[-1] == "<", f"{subject.bins} is drawn", drawn)
    top = max(subject.bins)
    for bar, size in zip(drawn[1:-1], subject.bins):
        if BAR_CHARS:
            check(bar == BAR_CHARS[size * 8 // top], f"{size} of {subject.bins} is drawn", bar)
    if sum(b > 0 for b in subject.bins) > 1:
        ctx.nt("histogram")


PROP.regress(
    "histogram",
    ([i % 7 for i in range(3000)], 7, True),
    ([0] * 4096 + [1] * 300 + [9], 10, False),
    ([0] * 257 + [5] * 256 + [9] * 255, 3, False),
    (list(range(5000)), 200, True),
)


def with_bytes(numbers, asked):
    """os.urandom which gives the bytes of these numbers"""
    source = itertools.cycle(numbers)

    def urandom(n):
        asked.append(n)
        return (next(source) % 2 ** (8 * n)).to_bytes(n, "big")

    return unittest.mock.patch("os.urandom", urandom)


BIG = weighted(2, st.integers(0, 2**64 - 1), 1, st.sampled_from([0, 1, 2**64 - 1, 2**63, 2**32]))


@PROP.test(st.tuples(BIG, st.integers(-100, 100), st.integers(0, 300)), quick=1500, thorough=60000)
def ranges(case, ctx):
    start, low, size = case
    # random bytes which count up give every number of the range the same number of times
    every, asked = list(range(low, low + size + 1)), []
    with with_bytes([(start + i) % (2**64 - 2**64 % (size + 1)) for i in range(2 * (size + 1))], asked):
        got = [entropy.random_range(low, low + size) for _ in range(2 * (size + 1))]
    check(all(low <= g <= low + size and type(g) is int for g in got), f"numbers from {low} to {low + size}", short(got))
    if asked == [8] * len(got):
        check(sorted(got) == sorted(every * 2) or start + 2 * size + 2 > 2**64 - 2**64 % (size + 1), f"numbers from {low} to {low + size} are not even", short(got))
    else:  # the randomness comes from somewhere else, one number is missed with a chance below e^-30
        got = {entropy.random_range(low, low + size) for _ in range(36 * (size + 1))}
        check(got == set(every), f"numbers from {low} to {low + size} which never come", sorted(set(every) - got))
    options, asked = [f"o{i}" for i in range(size + 1)], []
    with with_bytes([start + i for i in range(size + 1)], asked):
        chosen = {entropy.random_choice(options) for _ in range(size + 1)}
    check(chosen <= set(options), "an option was made up", short(chosen))
    if asked == [8] * len(options):
        check(start + size >= 2**64 or chosen == set(options), f"only {len(chosen)} of {size + 1} options were chosen")
    else:
        chosen = {entropy.random_choice(options) for _ in range(36 * (size + 1))}
        check(chosen == set(options), f"only {len(chosen)} of {size + 1} options were ever chosen")
    letters = "abcde"[: size % 5 + 1]
    check(entropy.random_choice(letters) in letters, "a letter was made up")
    if size:
        ctx.nt("range")


FRACTION = weighted(2, st.floats(0.01, 1), 1, st.sampled_from([0.0, 0.02, 0.25, 0.4, 0.5, 0.6, 2 / 3, 0.75, 0.9, 1.0]))


@PROP.test(st.tuples(FRACTION, st.sampled_from([1000, 3000, 6000]), st.sampled_from(list(STORAGE_CLASS)), st.booleans()), quick=60, thorough=3000)
def samples(case, ctx):
    """each record is in the sample with the same probability, unchanged and in order"""
    fraction, count, storage, lazy = case
    rows = [{"n": n, "t": f"r{n}"} for n in range(count)]
    got = list(DictSet(iter(rows) if lazy else rows, storage_class=storage).sample(fraction))
    numbers = [r["n"] for r in got]
    check(numbers == sorted(set(numbers)) and all(r == rows[r["n"]] for r in got), "a sample holds something else, or in another order", short(got))
    # eight standard deviations, less than once in 10^15
    room = 8 * (count * fraction * (1 - fraction)) ** 0.5 + count / 65536 + 1
    check(abs(len(got) - count * fraction) <= room, f"a sample of {fraction} of {count} records holds", len(got))
    if 0 < fraction < 1:
        half = count // 2
        early = sum(n < half for n in numbers)
        check(abs(early - half * fraction) <= room, f"{early} of {len(got)} records of a sample are from the first half")
        ctx.nt("sample")


@PROP.test(st.tuples(st.integers(0, 400), st.sampled_from([None, base64.b64encode, base64.urlsafe_b64encode, base64.b32encode, base64.b16encode])), quick=400, thorough=4000)
def strings(case, ctx):
    length, encoder = case
    text = entropy.random_string(length) if encoder is None else entropy.random_string(length, encoder)
    check(isinstance(text, str) and len(text) == length, f"a random text of {length} is", repr(text))
    allowed = {base64.b32encode: set("ABCDEFGHIJKLMNOPQRSTUVWXYZ234567="), base64.b16encode: set("0123456789ABCDEF")}.get(encoder)
    if allowed:
        check(set(text) <= allowed, "a random text holds other characters", text)
    # all of it is random
    if length > 20:
        ctx.nt("string")
        others = [entropy.random_string(length) for _ in range(14)]
        fixed = [i for i in range(length) if len({o[i] for o in others}) == 1]
        check(not [i for i in fixed if not (i == length - 1)], f"random texts of {length} all agree at", fixed)


@PROP.test(st.binary(max_size=12), quick=300, thorough=10000)
def numbers(data, ctx):
    wanted = 0
    for byte in data:
        wanted = wanted * 256 + byte
    check(entropy.bytes_to_int(data) == wanted, f"{data} as a number is", entropy.bytes_to_int(data))
    if len(data) > 1:
        ctx.nt("bytes")


KEY = st.sampled_from(["config", "a", "b", "name", "config_file", "job"])
CONTEXT = st.tuples(
    weighted(5, st.dictionaries(KEY, st.one_of(st.none(), st.integers(-(2**63), 2**63 - 1), st.text(max_size=3), st.just({}), st.just({"x": [1]})), max_size=4), 1, st.sampled_from(["{", "", "nope", '{"a": }'])),
    st.dictionaries(st.sampled_from(["config", "a", "b", "name", "job"]), st.one_of(st.none(), st.integers(), st.text(max_size=3), st.just({"x": 1})), max_size=3),
    st.sampled_from(["", "deep", "deep/er"]),
    st.sampled_from(["config.json", "job.json", "config.conf"]),
    st.booleans(),
    st.booleans(),
)


@PROP.test(CONTEXT, quick=800, thorough=20000)
def contexts(case, ctx):
    config, given, folder, name, exists, asked = case
    root = os.path.abspath(ctx.fresh())
    os.makedirs(os.path.join(root, folder), exist_ok=True)
    with open(os.path.join(root, "other.json"), "w", encoding="utf8") as f:
        f.write('{"a": "wrong", "other": true}')
    if exists:
        with open(os.path.join(root, folder, name), "w", encoding="utf8") as f:
            f.write(config if isinstance(config, str) else json.dumps(config))
    options = dict(given)
    if asked or name != "config.json":
        options["config_file"] = name
    here = os.getcwd()
    os.chdir(root)
    try:
        got = build_context(**options)
    except IndexError:
        check(not exists, f"{name} was not found")
        ctx.nt("not found")
        return
    except ValueError:
        check(exists and isinstance(config, str), f"{short(config)} was refused")
        ctx.nt("malformed")
        return
    finally:
        os.chdir(here)
    check(exists and not isinstance(config, str), f"{name} holding {short(config)} was accepted", short(got))
    wanted = dict(config)
    wanted["config"] = wanted.get("config") or {}
    wanted.update(options)
    check(same(got, wanted), f"{short(config)} with {short(options)} is", short(got), "expected", short(wanted))
    if set(config) & set(options):
        ctx.nt("merged")
