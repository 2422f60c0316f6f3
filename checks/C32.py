"""C32 - the rendering of an error shows each frame, local and cause of it, and never fails itself."""
import os
import re
import sys

from harness import Property, Violation, check
from vhyp import st

from mabel.errors.render_error_stack import render_error_stack

LINE_LENGTH = 120
# how the parts are named inside is looked at when it is there
_build_error_stack = getattr(sys.modules["mabel.errors.render_error_stack"], "_build_error_stack", lambda: None)

PROP = Property(
    "C32",
    rule="a case is a program of up to five functions in a generated file which call each other, hold locals of all kinds "
    "(also ones which fail when they are shown), raise, re-raise and chain errors (from one another, while handling one, from "
    "None, in a circle); its error is rendered; non-trivial = two functions or more, or chained errors",
    assumptions=["the errors, their causes and contexts are those Python itself would show", "long lines are wrapped at 120 characters"],
)


class Rude:
    """fails when it is shown"""

    def __repr__(self):
        raise RuntimeError("not to be shown")

    __str__ = __repr__


class RudeError(Exception):
    def __str__(self):
        raise RuntimeError("not to be shown")


LOCALS = {
    "number": "41 + 1",
    "text": "'some text'",
    "lines": "'two\\nlines'",
    "empty": "''",
    "long": "'x' * 500",
    "items": "[1, {'a': None}]",
    "rude": "Rude()",
    "rudes": "[Rude()]",
    "nothing": "None",
    "braces": "'{not} %s'",
}
STEP = st.tuples(
    st.lists(st.sampled_from(sorted(LOCALS)), max_size=3, unique=True),
    st.integers(0, 6),  # empty lines before it
    st.sampled_from(["call", "call", "from", "while", "none", "circle"]),
    st.sampled_from(["ValueError('v')", "KeyError('k')", "RudeError()", "SystemExit(3)", "Exception()"]),
)
PROGRAM = st.tuples(st.lists(STEP, min_size=1, max_size=5), st.integers(0, 4))


def source(steps, tail):
    """what each function does with the error of the next one"""
    lines = []
    for i, (names, gap, what, error) in enumerate(steps):
        lines += [""] * gap
        lines.append(f"def f{i}():")
        lines += [f"    {n} = {LOCALS[n]}" for n in names]
        if i == len(steps) - 1:
            lines.append(f"    raise {error}")
        elif what == "call":
            lines.append(f"    f{i + 1}()")
        else:
            lines += ["    try:", f"        f{i + 1}()", "    except BaseException as e:"]
            if what == "circle":
                lines += ["        try:", f"            raise {error} from e", "        except BaseException as o:", "            raise e from o"]
            else:
                lines.append("        raise " + error + {"from": " from e", "while": "", "none": " from None"}[what])
    return "\n".join(lines + [""] * tail)


def expected_stacks(error):
    """the errors Python shows, the last one first, each once"""
    found = []
    while error is not None and all(error is not f for f in found):
        found.append(error)
        if error.__cause__ is not None:
            error = error.__cause__
        elif error.__suppress_context__:
            error = None
        else:
            error = error.__context__
    return found


def frames_of(error):
    at = error.__traceback__
    while at:
        yield at.tb_frame.f_code.co_filename, at.tb_lineno, at.tb_frame.f_code.co_name, dict(at.tb_frame.f_locals)
        at = at.tb_next


def run(function):
    """the error of the function and how it is rendered"""
    try:
        function()
    except BaseException as error:
        return error, _build_error_stack(), render_error_stack()


@PROP.test(PROGRAM, quick=1200, thorough=50000, cpu_limit=20)
def renders(case, ctx):
    steps, tail = case
    code = source(steps, tail)
    path = os.path.join(os.path.abspath(ctx.fresh()), "program.py")
    with open(path, "w", encoding="utf8") as f:
        f.write(code)
    names = {"Rude": Rude, "RudeError": RudeError}
    exec(compile(code, path, "exec"), names)
    try:
        error, stacks, text = run(names["f0"])
    except BaseException as exc:
        raise Violation(f"rendering failed with {type(exc).__name__} on:\n{code}")
    wanted = expected_stacks(error)
    if stacks is not None:
        check([s.exc_type for s in stacks] == [type(e).__name__ for e in wanted], "errors", [s.exc_type for s in stacks], "expected", [type(e) for e in wanted], code)
    at = 0
    for one in wanted:
        for file, line, name, variables in frames_of(one):
            head = f"{os.path.abspath(file)}:{line} in {name}()"
            found = text.find(head, at) if len(head) <= LINE_LENGTH else at
            check(found >= 0, f"{head} is missing or out of order", text)
            at = found
            if file == path:
                for n in variables:
                    check(re.search(rf"^  {n} +:( |$)", text[at:], re.M), f"local {n} is not shown", text)
                check(f">{line:4d} | {code.splitlines()[line - 1]}" in text[at:], f"line {line} is not marked", text)
            at += 1
    for number in re.findall(r"^[> ] *(\d+) \| .*$", text, re.M):
        check(int(number) > 0, "there is no line", number)
    check(all(len(line) <= LINE_LENGTH for line in text.split("\n")), "a line is too long", text)
    check(render_error_stack() == "", "something is shown without an error", render_error_stack())
    if len(steps) > 1:
        ctx.nt(*{s[2] for s in steps[:-1]})
