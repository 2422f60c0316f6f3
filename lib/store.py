"""Small helpers over mabel's public API used by several checks."""
import datetime
import os

from mabel.adapters.disk import DiskReader
from mabel.data import Reader
from mabel.errors import DataNotFoundError


def files_under(root):
    found = []
    for directory, _, names in os.walk(root):
        found += [os.path.join(directory, n) for n in names]
    return sorted(found)


def put(path, data=b""):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def read(dataset, on=None, **kwargs):
    """Read everything, [] when there is nothing to read."""
    if on is not None:
        kwargs.setdefault("start_date", on)
        kwargs.setdefault("end_date", on)
    kwargs.setdefault("inner_reader", DiskReader)
    try:
        reader = Reader(dataset=dataset, **kwargs)
        return [r if isinstance(r, (dict, bytes, str)) else r.as_dict() for r in iter(reader)]
    except DataNotFoundError:
        return []


def day(date):
    return datetime.datetime(date.year, date.month, date.day)
