"""Load hypothesis (installed only in the verification tools' venv, same
CPython 3.12) into the interpreter mabel's own dependencies live in, without
letting that venv shadow anything mabel imports: a meta-path finder which
answers for these few top-level names only."""
import importlib.machinery
import sys

_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
_NAMES = {"hypothesis", "sortedcontainers", "_hypothesis_globals", "_hypothesis_ftz_detector",
          "_hypothesis_pytestplugin", "_hypothesis_plugin"}


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name in _NAMES:
            return importlib.machinery.PathFinder.find_spec(name, [_SITE], target)
        return None


if not any(getattr(f, "__name__", "") == "_Finder" for f in sys.meta_path):
    sys.meta_path.insert(0, _Finder)

import hypothesis  # noqa: E402
import hypothesis.strategies as st  # noqa: E402

__all__ = ["hypothesis", "st"]
