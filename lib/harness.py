"""
Shared machinery of the checks: a property is a set of generated tests; a test
is a plain function of one generated value (a record set, an operation
sequence, a query ...) which raises when the property is broken on that value.

Because a case is a plain value, hypothesis shrinks it as a whole, and a replay
is a plain call of the same function which bypasses the library.
"""
import base64
import contextlib
import hashlib
import importlib
import math
import os
import pickle
import shutil
import sys
import time
import traceback

from vhyp import hypothesis, st  # noqa: F401


class Violation(Exception):
    """The property does not hold on this case."""


class Hang(BaseException):
    """A case used far more CPU (or wall) time than any real case can."""


def check(condition, message="", *details):
    if not condition:
        raise Violation(message + "".join(f" | {d}" for d in details))


def short(value, limit=1500):
    text = repr(value)
    return text if len(text) <= limit else text[:limit] + f"...({len(text)} chars)"


def same(a, b):
    """Structural equality which tells True from 1, 1 from 1.0, and NaN equals NaN."""
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, float) and isinstance(b, float):
        return (math.isnan(a) and math.isnan(b)) or a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return type(a) is type(b) and a == b
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(same, a, b))
    return type(a) is type(b) and a == b


def canon(value):
    """A hashable, type-faithful rendering, for multiset comparison."""
    if isinstance(value, dict):
        return ("d",) + tuple(sorted((str(k), canon(v)) for k, v in value.items()))
    if isinstance(value, (list, tuple)):
        return ("l",) + tuple(canon(v) for v in value)
    return (type(value).__name__, repr(value))


def multiset(rows):
    result = {}
    for row in rows:
        key = canon(row)
        result[key] = result.get(key, 0) + 1
    return result


def diff_multiset(actual, expected):
    """None when equal, otherwise a readable account of what is missing / extra."""
    a, e = multiset(actual), multiset(expected)
    if a == e:
        return None
    missing = {k: n - a.get(k, 0) for k, n in e.items() if n > a.get(k, 0)}
    extra = {k: n - e.get(k, 0) for k, n in a.items() if n > e.get(k, 0)}
    return f"missing={short(missing, 600)} extra={short(extra, 600)}"


def expect_rows(actual, expected, message, ordered=True):
    if ordered:
        if not same(list(actual), list(expected)):
            raise Violation(f"{message} | got={short(list(actual))} | expected={short(list(expected))}")
    else:
        delta = diff_multiset(actual, expected)
        if delta:
            raise Violation(f"{message} | {delta}")


class Ctx:
    """What a test may use besides its case."""

    serial = 0

    def __init__(self):
        self.labels = {}
        self.excluded = {}
        self._nontrivial = False
        self._dirs = []

    def begin(self):
        self._nontrivial = False

    def nt(self, *labels):
        """this case is non-trivial"""
        self._nontrivial = True
        self.label(*labels)

    def label(self, *labels):
        for label in labels:
            self.labels[label] = self.labels.get(label, 0) + 1

    def exclude(self, key):
        self.excluded[key] = self.excluded.get(key, 0) + 1

    def fresh(self, prefix="w"):
        """a new directory, relative to the scratch directory we run in"""
        # numbered over the life of the process: a writer dropped by an earlier
        # case may still flush itself into that case's directory
        Ctx.serial += 1
        name = f"{prefix}{Ctx.serial}"
        os.makedirs(name)
        self._dirs.append(os.path.abspath(name))
        return name

    def end(self):
        for directory in self._dirs:
            shutil.rmtree(directory, ignore_errors=True)
        self._dirs = []


class Test:
    def __init__(self, name, func, strategy, quick, thorough, cpu_limit):
        self.name = name
        self.func = func
        self.strategy = strategy
        self.quick = quick
        self.thorough = thorough
        self.cpu_limit = cpu_limit


class Property:
    def __init__(self, pid, rule, assumptions=(), level="exploration"):
        self.id = pid
        self.rule = rule
        self.assumptions = list(assumptions)
        self.level = level
        self.tests = {}
        self.probes = []
        self.regressions = []

    def test(self, strategy, quick, thorough=None, cpu_limit=60):
        def decorate(func):
            self.tests[func.__name__] = Test(
                func.__name__, func, strategy, quick, thorough or quick * 20, cpu_limit
            )
            return func

        return decorate

    def known(self, key, test, case):
        """A recorded finding's failing input: see KNOWN_FINDINGS.txt."""
        self.probes.append((key, test, case))

    def regress(self, test, *cases):
        """Fixed inputs, run on every run: former failures and seeds of coverage."""
        for case in cases:
            self.regressions.append((test, case))


def encode_case(case):
    return base64.b64encode(pickle.dumps(case, protocol=4)).decode()


def decode_case(text):
    return pickle.loads(base64.b64decode(text))


def case_hash(name, case):
    return hashlib.blake2b(f"{name}|{case!r}".encode("utf8", "surrogatepass"), digest_size=8).digest()


def load(pid):
    module = importlib.import_module(f"checks.{pid}")
    return module.PROP


def describe(exc):
    if isinstance(exc, Violation):
        return f"{exc}"
    tb = traceback.extract_tb(exc.__traceback__)
    where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in reversed(tb[-6:]))
    return f"unexpected {type(exc).__name__}: {exc} [{where}]"


@contextlib.contextmanager
def frozen(moment, case=None, tick=False):
    """Own the clock for the duration of a block (module-level datetime / time).

    The moment is in UTC; given a case, the clock on the wall is hours away from UTC in some.
    freezegun gets one thing wrong when it is: it moves datetime.now(tz) by the offset too.
    """
    import freezegun
    from freezegun.api import FakeDatetime

    hours = (0, -8, 13)[len(repr(case)) % 3] if case is not None else 0
    original, place = FakeDatetime.__dict__["now"], os.environ.get("TZ")

    def now(cls, tz=None):
        moment = original.__func__(cls, tz)
        return moment if tz is None else moment - cls._tz_offset()

    try:
        FakeDatetime.now = classmethod(now)
        os.environ["TZ"] = f"CHK{-hours}"
        time.tzset()
        with freezegun.freeze_time(moment, tz_offset=hours, tick=tick) as clock:
            yield clock
    finally:
        FakeDatetime.now = original
        if place is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = place
        time.tzset()
