"""C28 - what is written to object storage (Google Cloud Storage, MinIO) is read back, whatever the storage does meanwhile."""
import datetime
import gc
import io
import os
import sys
import types

import google.cloud.storage
import minio
from google.api_core import exceptions as google_errors
from google.api_core.retry import retry_unary
from urllib3.exceptions import ProtocolError

from domain import bulk, weighted
from harness import Property, Violation, check, diff_multiset, short
from vhyp import st


# ---- stand-ins for the clients of the storages -----------------------------------


class Cloud:
    """one storage: buckets of objects, and the faults it is to have"""

    tenants = False  # every account has buckets of its own
    buckets = {}
    faults = []  # one per upload: None or an exception
    uploads = []
    credentials = []

    @classmethod
    def reset(cls, faults=(), tenants=False):
        cls.tenants = tenants
        cls.buckets, cls.faults, cls.uploads, cls.credentials = {}, list(faults), [], []

    @classmethod
    def put(cls, bucket, name, data):
        fault = cls.faults.pop(0) if cls.faults else None
        cls.uploads.append((bucket, name, fault))
        if fault is not None:
            raise fault
        cls.buckets.setdefault(bucket, {})[name] = bytes(data)

    @classmethod
    def find(cls, bucket, prefix):
        return [Stored(bucket, name) for name in sorted(cls.buckets.get(bucket, {})) if name.startswith(prefix or "")]


class Stored:
    def __init__(self, bucket, name):
        self.bucket, self.name, self.object_name = bucket, name, name
        self.is_dir = False

    def upload_from_string(self, data, content_type="text/plain", if_generation_match=None, **_):
        if if_generation_match == 0 and self.exists():
            raise google_errors.PreconditionFailed("the object exists")
        Cloud.put(self.bucket, self.name, data.encode() if isinstance(data, str) else data)

    def upload_from_file(self, stream, **_):
        Cloud.put(self.bucket, self.name, stream.read())

    def download_as_bytes(self, start=None, end=None, **_):
        return Cloud.buckets[self.bucket][self.name][start : None if end is None else end + 1]

    download_as_string = download_as_bytes

    def exists(self, **_):
        return self.name in Cloud.buckets.get(self.bucket, {})


class Bucket:
    def __init__(self, name):
        self.name = name

    def blob(self, name, **_):
        return Stored(self.name, name)

    def get_blob(self, name, **_):
        return Stored(self.name, name) if name in Cloud.buckets.get(self.name, {}) else None

    def list_blobs(self, prefix=None, max_results=None, **_):
        return iter(Cloud.find(self.name, prefix)[:max_results])


class GoogleClient:
    def __init__(self, project=None, credentials=None, **_):
        Cloud.credentials.append(credentials)
        self.account = getattr(credentials, "account", "")

    def get_bucket(self, name, **_):
        return Bucket(f"{self.account}:{name}" if Cloud.tenants else name)

    bucket = get_bucket

    def list_blobs(self, bucket_or_name, prefix=None, max_results=None, **_):
        bucket = bucket_or_name if isinstance(bucket_or_name, Bucket) else self.get_bucket(bucket_or_name)
        return iter(Cloud.find(bucket.name, prefix)[:max_results])


class Response(io.BytesIO):
    def release_conn(self):
        pass


class MinioClient:
    def __init__(self, endpoint, access_key=None, secret_key=None, secure=True, **_):
        Cloud.credentials.append((endpoint, access_key, secret_key))
        self.account = f"{endpoint}/{access_key}/{secret_key}"

    def named(self, bucket):
        return f"{self.account}:{bucket}" if Cloud.tenants else bucket

    def list_objects(self, bucket_name, prefix=None, recursive=False, **_):
        found = Cloud.find(self.named(bucket_name), prefix)
        return iter(found if recursive else [o for o in found if "/" not in o.name[len(prefix or "") :]])

    def put_object(self, bucket_name, object_name, data, length, **_):
        Cloud.put(self.named(bucket_name), object_name, data.read(length))

    def get_object(self, bucket_name, object_name, offset=0, length=0, **_):
        return Response(Cloud.buckets[self.named(bucket_name)][object_name][offset : offset + length if length else None])


# mabel's adapters take the clients from here when they are imported
assert not [m for m in sys.modules if m.startswith(("mabel.adapters.google", "mabel.adapters.minio"))]
google.cloud.storage.Client = GoogleClient
minio.Minio = MinioClient
# retries wait, but not here
waiting = types.SimpleNamespace(sleep=lambda s: None)
for attribute in dir(retry_unary.time):
    if attribute != "sleep" and not attribute.startswith("__"):
        setattr(waiting, attribute, getattr(retry_unary.time, attribute))
retry_unary.time = waiting

from mabel import Reader  # noqa: E402
from mabel.adapters.google import GoogleCloudStorageReader, GoogleCloudStorageWriter  # noqa: E402
from mabel.adapters.minio import MinIoReader, MinIoWriter  # noqa: E402
from mabel.data import BatchWriter, StreamWriter, Writer  # noqa: E402
from mabel.errors import DataNotFoundError  # noqa: E402

PROP = Property(
    "C28",
    rule="a case is a storage (Google's with or without emulator, MinIO), datasets in buckets (names which start alike or "
    "hold dots), each written for several dates by one kind of writer, folder markers, faults of uploads, and ranges to "
    "read; stand-ins for the client libraries keep the objects; non-trivial = two writes or more which hold records, or a fault",
    assumptions=[
        "the client libraries do what their documentation says; their stand-ins are in memory",
        "datasets have a bucket and at least one folder; each is written once for a date",
        "transient faults (connection reset, protocol error, 500, 429) are retried by the writer to Google's storage; others are raised",
    ],
)
CREDENTIALS = object()
NAMES = ["bk/x", "bk/x1", "bk/v1.0", "bk/v1.1", "bk/v1", "bk2/x", "b.k/x", "bk/a/b", "bk/a/b.c", "bk/a/bc"]
TEMPLATES = [None, ["year_{yyyy}/month_{mm}/day_{dd}"], ["{yyyy}/{mm}/{dd}"], ["{yyyy}.{mm}.{dd}"], ["{yyyy}-{mm}-{dd}"], ["d={dd}", "{yyyy}.{mm}"]]
BASE = datetime.date(2021, 2, 26)
DAY = st.integers(0, 6)
WRITES = st.dictionaries(DAY, st.integers(0, 3), min_size=1, max_size=4)
SET = st.fixed_dictionaries(
    {
        "name": st.sampled_from(NAMES),
        "template": st.integers(0, len(TEMPLATES) - 1),
        "kind": st.sampled_from(["writer", "batch", "batch", "stream"]),
        "writes": WRITES,
        "format": st.sampled_from(["jsonl", "zstd"]),
        "always": st.booleans(),
    }
)
CASE = st.tuples(
    st.sampled_from(["google", "emulator", "minio"]),
    st.lists(SET, min_size=1, max_size=4, unique_by=lambda s: s["name"]),
    st.booleans(),
    st.tuples(DAY, DAY).map(sorted),
)


def options_for(storage):
    if storage == "minio":
        os.environ.pop("STORAGE_EMULATOR_HOST", None)
        return {"end_point": "here", "access_key": "a", "secret_key": "b", "secure": False}, MinIoReader, MinIoWriter
    if storage == "emulator":
        os.environ["STORAGE_EMULATOR_HOST"] = "http://localhost:1"
        return {}, GoogleCloudStorageReader, GoogleCloudStorageWriter
    os.environ.pop("STORAGE_EMULATOR_HOST", None)
    return {"credentials": CREDENTIALS}, GoogleCloudStorageReader, GoogleCloudStorageWriter


def make(item, day, inner, options):
    maker = {"writer": Writer, "batch": BatchWriter, "stream": StreamWriter}[item["kind"]]
    if item["kind"] == "batch":
        options = {**options, "always_complete": item["always"]}
    date = BASE + datetime.timedelta(days=day)
    return maker(
        dataset=item["name"], partitions=TEMPLATES[item["template"]], inner_writer=inner, format=item["format"], schema=False, date=str(date), **options
    )


def read(item, inner, options, first, last):
    try:
        return [
            dict(r)
            for r in Reader(
                dataset=item["name"],
                partitions=TEMPLATES[item["template"]],
                inner_reader=inner,
                start_date=str(BASE + datetime.timedelta(days=first)),
                end_date=str(BASE + datetime.timedelta(days=last)),
                **options,
            )
        ]
    except DataNotFoundError:
        return []


def folder_of(item, day):
    date = BASE + datetime.timedelta(days=day)
    folder = "/".join([item["name"], *(TEMPLATES[item["template"]] or [])])
    return folder.replace("{yyyy}", str(date.year)).replace("{mm}", f"{date.month:02d}").replace("{dd}", f"{date.day:02d}")


@PROP.test(CASE, quick=700, thorough=30000)
def round_trip(case, ctx):
    storage, sets, markers, (first, last) = case
    Cloud.reset()
    options, reader, writer = options_for(storage)
    serial = 0
    expected = {}
    for item in sets:
        unparted = TEMPLATES[item["template"]] is None
        # without partitions there is one folder, whatever the date
        for day, count in sorted(item["writes"].items())[: 1 if unparted else None]:
            before = {(b, n) for b in Cloud.buckets for n in Cloud.buckets[b]}
            to = make(item, day, writer, options)
            rows = []
            for _ in range(count):
                rows.append({"serial": serial, "text": f"\u00e9 {serial}"})
                to.append(dict(rows[-1]))
                serial += 1
            to.finalize()
            expected[item["name"], day] = rows
            fresh = {(b, n) for b in Cloud.buckets for n in Cloud.buckets[b]} - before
            folder = folder_of(item, day)
            for bucket, name in fresh:
                check(f"{bucket}/{name}".startswith(folder + "/"), f"{item['kind']} for {folder} wrote to", bucket, name)
            complete = [n for _, n in fresh if n.endswith("/frame.complete")]
            should = item["kind"] == "batch" and (count > 0 or item["always"])
            check(len(complete) == should, f"{item['kind']} for {folder} completed", complete)
        if markers:
            bucket, path = folder_of(item, first).split("/", 1)
            Cloud.put(bucket, path + "/", b"")
            Cloud.put(bucket, path.rsplit("/", 1)[0] + "/", b"")
    for item in sets:
        unparted = TEMPLATES[item["template"]] is None
        got = read(item, reader, options, first, first if unparted else last)
        wanted = [row for (name, day), rows in expected.items() if name == item["name"] and (unparted or first <= day <= last) for row in rows]
        difference = diff_multiset(got, wanted)
        check(not difference, f"{storage}: reading {item['name']} days {first} to {last}", short(difference), short({b: sorted(o) for b, o in Cloud.buckets.items()}))
    if storage == "google":
        check(all(c is CREDENTIALS for c in Cloud.credentials), "the credentials given were not used")
    if sum(bool(rows) for rows in expected.values()) > 1:
        ctx.nt(storage)


TRANSIENT = [ConnectionResetError("reset"), ProtocolError("protocol"), google_errors.InternalServerError("500"), google_errors.TooManyRequests("429")]
PERMANENT = [google_errors.Forbidden("403"), google_errors.NotFound("404"), OSError("disk"), ValueError("bad"), TimeoutError("slow"), KeyError("k"), RuntimeError("r"), PermissionError("p"), TypeError("t"), AttributeError("a"), google_errors.PreconditionFailed("412"), google_errors.BadRequest("400")]
FAULT = weighted(3, st.none(), 3, st.integers(0, 3).map(lambda i: ("transient", i)), 1, st.integers(0, len(PERMANENT) - 1).map(lambda i: ("permanent", i)))


@PROP.test(st.tuples(st.sampled_from(["google", "minio"]), st.sampled_from(["writer", "batch"]), st.integers(1, 4), st.lists(FAULT, max_size=8)), quick=600, thorough=20000)
def faults(case, ctx):
    storage, kind, count, plan = case
    options, reader, writer = options_for(storage)
    Cloud.reset({None: None, "transient": TRANSIENT, "permanent": PERMANENT}[f and f[0]] and (TRANSIENT if f[0] == "transient" else PERMANENT)[f[1]] for f in plan)
    item = {"name": "bk/x", "template": 1, "kind": kind, "format": "jsonl", "always": False}
    to = make(item, 0, writer, options)
    rows = [{"serial": i} for i in range(count)]
    raised = None
    try:
        for row in rows:
            to.append(dict(row))
        name = to.finalize()
    except Exception as exc:
        raised = exc
    # what the storage was asked for, one object after the other
    retried = TRANSIENT if storage == "google" else []
    fatal = [f for _, _, f in Cloud.uploads if f is not None and not any(f is t for t in retried)]
    check(bool(raised) == bool(fatal), f"uploads went {[(n, repr(f)) for _, n, f in Cloud.uploads]}, the writer raised", repr(raised))
    stored = Cloud.buckets.get("bk", {})
    if raised:
        check(not [n for n in stored if n.endswith("frame.complete")], "a frame was completed although an upload failed", sorted(stored))
        if kind == "batch":
            check(read(item, reader, options, 0, 0) == [], "records of a frame which failed are read")
    else:
        got = read(item, reader, options, 0, 0)
        check(got == rows, "read", short(got), "expected", short(rows), "uploads", Cloud.uploads)
        check(len(stored) == (2 if kind == "batch" else 1), "objects", sorted(stored))
        check(any(str(name).endswith(n) and "frame.complete" not in n for n in stored), "finalize reported", name, "not the object of", sorted(stored))
    Cloud.faults = []
    # a writer which failed may still flush when it goes, let that be now
    del to
    gc.collect()
    if any(plan):
        ctx.nt("failed" if raised else "retried")


PROP.regress("round_trip", ("google", [{"name": "bk/x", "template": 1, "kind": "batch", "writes": {0: 0}, "format": "jsonl", "always": True}], False, [0, 0]))


@PROP.test(
    st.fixed_dictionaries(
        {
            "storage": st.sampled_from(["google", "minio"]),
            "kind": st.sampled_from(["writer", "batch"]),
            # records, their width, the size of a blob
            "size": st.sampled_from([(3, 1_200_000, 2**26), (30, 100_000, 2**26), (150, 10, 10), (1100, 0, 10), (20_000, 20, 2**26), (5, 3_000_000, 2**20)]),
            "format": st.sampled_from(["jsonl", "zstd"]),
        }
    ),
    quick=16,
    thorough=300,
)
def sizes(case, ctx):
    """objects of megabytes, and hundreds of them"""
    Cloud.reset()
    options, reader, writer = options_for(case["storage"])
    count, width, blob_size = case["size"]
    item = {"name": "bk/x", "template": 1, "kind": case["kind"], "format": case["format"], "always": False}
    to = make(item, 0, writer, {**options, "blob_size": blob_size})
    rows = bulk(count, width=width)
    for row in rows:
        to.append(dict(row))
    to.finalize()
    got = sorted(read(item, reader, options, 0, 0), key=lambda r: r["n"])
    check(len(got) == count, f"{count} records were written to {len(Cloud.buckets['bk'])} objects, {len(got)} are read")
    wrong = [(g, r) for g, r in zip(got, rows) if g != r][:1]
    check(not wrong, "a record is read differently", short(wrong, 400))
    ctx.nt(case["storage"])


PROP.regress(
    "sizes",
    *[{"storage": s, "kind": "batch", "size": size, "format": "jsonl"} for s in ("google", "minio") for size in ((3, 1_200_000, 2**26), (1100, 0, 10))],
)


class Account:
    def __init__(self, account):
        self.account = account


GOOGLE_ACCOUNTS = [Account("a"), Account("b"), Account("A"), None]
MINIO_ACCOUNTS = [("here", "a", "s"), ("there", "a", "s"), ("here", "b", "s"), ("here", "a", "t")]


@PROP.test(
    st.tuples(
        st.sampled_from(["google", "minio"]),
        # who writes or reads, what, and for which day
        st.lists(st.tuples(st.sampled_from(["write", "read"]), st.integers(0, 3), st.sampled_from(["bk/x", "bk/y"]), st.integers(0, 1)), min_size=2, max_size=8),
        st.sampled_from(["writer", "batch"]),
    ),
    quick=300,
    thorough=10000,
)
def tenants(case, ctx):
    """readers and writers of several accounts: each works with the storage of its own"""
    storage, steps, kind = case
    Cloud.reset(tenants=True)
    _, reader, writer = options_for(storage)
    expected, frames, accounts = {}, {}, set()
    for serial, (what, who, name, day) in enumerate(steps):
        if storage == "google":
            options = {"credentials": GOOGLE_ACCOUNTS[who]}
        else:
            options = dict(zip(("end_point", "access_key", "secret_key", "secure"), (*MINIO_ACCOUNTS[who], False)))
        item = {"name": name, "template": 1, "kind": kind, "format": "jsonl", "always": False}
        key = (who, name, day)
        if what == "write" and key not in expected:
            to = make(item, day, writer, options)
            to.append({"serial": serial})
            to.finalize()
            expected[key] = [{"serial": serial}]
            accounts.add(who)
        else:
            got = read(item, reader, options, day, day)
            check(got == expected.get(key, []), f"account {who} reads {name} of day {day}", short(got), "instead of", short(expected.get(key, [])), short({b: sorted(o) for b, o in Cloud.buckets.items()}))
            if expected.get(key) and len(accounts) > 1:
                ctx.nt(storage)
    Cloud.reset()
