From da026baadecc84b056f9978fff5ceef301670256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:07 +0000
Subject: [PATCH 01/85] fix: read empty records, the default filter dropped
 falsy rows

---
 mabel/data/readers/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/reader.py b/mabel/data/readers/reader.py
index c61ef60..5cada2c 100644
--- a/mabel/data/readers/reader.py
+++ b/mabel/data/readers/reader.py
@@ -15,6 +15,7 @@ from mabel.data.readers.internals.multiprocess_wrapper import processed_reader
 from mabel.data.readers.internals.parallel_reader import EXTENSION_TYPE
 from mabel.data.readers.internals.parallel_reader import KNOWN_EXTENSIONS
 from mabel.data.readers.internals.parallel_reader import ParallelReader
+from mabel.data.readers.internals.parallel_reader import no_filter
 from mabel.data.readers.internals.parallel_reader import pass_thru
 from mabel.errors import DataNotFoundError
 from mabel.errors import InvalidCombinationError
@@ -269,7 +270,7 @@ class _LowLevelReader(object):
         parallel = ParallelReader(
             reader=self.reader_class,
             columns=self.select,
-            filters=self.filters or pass_thru,
+            filters=self.filters or no_filter,
             override_format=self.override_format,
         )
 
-- 
2.43.0


From 1c8ad7cb47fbd22f530df56748f0310bb8f92e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:07 +0000
Subject: [PATCH 02/85] fix: compressed memory storage lost empty records

---
 .../storage_classes/storage_class_compressed_memory.py         | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mabel/data/internals/storage_classes/storage_class_compressed_memory.py b/mabel/data/internals/storage_classes/storage_class_compressed_memory.py
index f6671a3..c7fb350 100644
--- a/mabel/data/internals/storage_classes/storage_class_compressed_memory.py
+++ b/mabel/data/internals/storage_classes/storage_class_compressed_memory.py
@@ -64,8 +64,7 @@ class StorageClassCompressedMemory(BaseStorageClass):
             for batch in self.batches:
                 records = self.parse_json(self.decompressor.decompress(batch))
                 for record in records:
-                    if record:
-                        yield record
+                    yield record
 
     def __iter__(self):
         self.iterator = iter(self._inner_reader())
-- 
2.43.0


From 77bb2c07d3cd8a4cf2d00f3b3f4d81b67e27b722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:07 +0000
Subject: [PATCH 03/85] fix: reading an empty DictSet persisted to disk raised
 ValueError

---
 mabel/data/internals/storage_classes/storage_class_disk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mabel/data/internals/storage_classes/storage_class_disk.py b/mabel/data/internals/storage_classes/storage_class_disk.py
index 21a5631..0ad57e7 100644
--- a/mabel/data/internals/storage_classes/storage_class_disk.py
+++ b/mabel/data/internals/storage_classes/storage_class_disk.py
@@ -52,6 +52,9 @@ class StorageClassDisk(BaseStorageClass):
         """
         MMAP is by far the fastest way to read files in Python.
         """
+        if self.length == 0:
+            # zero length files cannot be memory mapped
+            return
         with open(self.file, mode="rb") as file_obj:
             with mmap.mmap(file_obj.fileno(), length=0, access=mmap.ACCESS_READ) as mmap_obj:
                 line = mmap_obj.readline()
-- 
2.43.0


From f3454570f56afe6fb30dfe0fb80d849ac000f353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:33 +0000
Subject: [PATCH 04/85] fix: stream writer silently lost records when a commit
 failed during finalize

---
 mabel/data/writers/internals/writer_pool.py | 3 ++-
 mabel/data/writers/stream_writer.py         | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/mabel/data/writers/internals/writer_pool.py b/mabel/data/writers/internals/writer_pool.py
index 16dbefb..3b81158 100644
--- a/mabel/data/writers/internals/writer_pool.py
+++ b/mabel/data/writers/internals/writer_pool.py
@@ -63,8 +63,9 @@ class WriterPool:
                 )
             else:
                 writer = writers[0]
-                self.writers = [w for w in self.writers if w.get("identity") != identity]
+                # only let go of the writer once its records have been committed
                 writer.get("writer").commit()
+                self.writers = [w for w in self.writers if w.get("identity") != identity]
         finally:
             lock.release()
 
diff --git a/mabel/data/writers/stream_writer.py b/mabel/data/writers/stream_writer.py
index e158d7f..4d233a4 100644
--- a/mabel/data/writers/stream_writer.py
+++ b/mabel/data/writers/stream_writer.py
@@ -158,6 +158,7 @@ class StreamWriter(Writer):
 
     def finalize(self, **kwargs):
         self.run_pool_attendant = False
+        failure = None
         with lock:
             for blob_writer_identity in self.writer_pool.writers:
                 try:
@@ -166,9 +167,13 @@ class StreamWriter(Writer):
                     )
                     self.writer_pool.remove_writer(blob_writer_identity["identity"])
                 except Exception as err:
-                    get_logger().debug(
+                    get_logger().error(
                         f"Error finalizing `{blob_writer_identity}`, {type(err).__name__} - {err}"
                     )
+                    failure = err
+        if failure is not None:
+            # records haven't been saved, the caller needs to know
+            raise failure
         return super().finalize()
 
     def pool_attendant(self):
-- 
2.43.0


From d6e5738ac7024da2a9f4f844052ddc415e4e58c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:49 +0000
Subject: [PATCH 05/85] fix: writer pools below their capacity nominated
 writers to evict

---
 mabel/data/writers/internals/writer_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/writers/internals/writer_pool.py b/mabel/data/writers/internals/writer_pool.py
index 3b81158..ca3936b 100644
--- a/mabel/data/writers/internals/writer_pool.py
+++ b/mabel/data/writers/internals/writer_pool.py
@@ -87,7 +87,7 @@ class WriterPool:
 
         # evict the oldest items, evicting can be time consuming so we're going to limit the
         evictees = sorted(self.writers, key=_inner_sort_key, reverse=False)[
-            : len(self.writers) - self.pool_size
+            : max(len(self.writers) - self.pool_size, 0)
         ][: self.pool_size]
         return [writer.get("identity") for writer in evictees]
 
-- 
2.43.0


From f61dc144c2a0fb3177d4ee033b41a40af7dd203b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:06 +0000
Subject: [PATCH 06/85] fix: writers did not recognise pydantic models, only
 classes named BaseModel

---
 mabel/data/writers/database_writer.py | 2 +-
 mabel/data/writers/writer.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mabel/data/writers/database_writer.py b/mabel/data/writers/database_writer.py
index 28519ed..2c0f7c5 100644
--- a/mabel/data/writers/database_writer.py
+++ b/mabel/data/writers/database_writer.py
@@ -86,7 +86,7 @@ class DatabaseWriter:
             integer
                 The number of records in the current blob
         """
-        if "BaseModel" in str(type(record)):
+        if "BaseModel" in str(type(record).__mro__):
             if hasattr(record, "dict"):
                 record = record.dict()  # type.ignore
             if hasattr(record, "model_dump"):
diff --git a/mabel/data/writers/writer.py b/mabel/data/writers/writer.py
index 57ff917..81aba11 100644
--- a/mabel/data/writers/writer.py
+++ b/mabel/data/writers/writer.py
@@ -128,7 +128,7 @@ class Writer:
             integer
                 The number of records in the current blob
         """
-        if "BaseModel" in str(type(record)):
+        if "BaseModel" in str(type(record).__mro__):
             if hasattr(record, "dict"):
                 record = record.dict()  # type.ignore
             if hasattr(record, "model_dump"):
-- 
2.43.0


From 333d1409f233f794d9de0b14068ae5a0cf53e9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:42 +0000
Subject: [PATCH 07/85] fix: a range ending on a date read only the first hour
 of hourly partitions

---
 mabel/data/readers/internals/base_inner_reader.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index 65bb7e8..79609d8 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -51,6 +51,12 @@ class BaseInnerReader(abc.ABC):
         self.start_date = min(start_date, end_date)
         self.end_date = max(start_date, end_date)
 
+        # if the range ends at a date without a time, the range includes all of that day
+        range_end = kwargs.get("end_date" if end_date >= start_date else "start_date")
+        self.end_date_has_no_time = type(range_end) == datetime.date or (
+            isinstance(range_end, str) and len(range_end) == 10
+        )
+
         self.days_stepped_back = 0
 
     def step_back_a_day(self):
@@ -89,8 +95,11 @@ class BaseInnerReader(abc.ABC):
     def get_list_of_blobs(self):
         visited = {}
         blobs = []
+        range_end = self.end_date
+        if self.end_date_has_no_time:
+            range_end = datetime.datetime.combine(range_end, datetime.time.max)
         # For each day in the range, get the blobs for us to read
-        for cycle_date in dates.date_range(self.start_date, self.end_date):
+        for cycle_date in dates.date_range(self.start_date, range_end):
             # Build the path name
             cycle_path = pathlib.Path(paths.build_path(path=self.dataset, date=cycle_date))
             if not cycle_path in visited:
-- 
2.43.0


From 65420e9604e079880cb677e95ce1601999443c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:42 +0000
Subject: [PATCH 08/85] fix: by_ partition folders were matched by prefix,
 mixing up their frames

---
 mabel/data/readers/internals/base_inner_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index 79609d8..659e286 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -181,7 +181,8 @@ class BaseInnerReader(abc.ABC):
                     partitioned_blobs = [
                         blob
                         for blob in cycle_blobs
-                        if f"{chosen_partition}/{partitioned_folder}" in blob
+                        if chosen_partition == ""
+                        or safe_get_next(blob.split("/"), chosen_partition) == partitioned_folder
                     ]
 
                     # Work out if there's an as_at part
-- 
2.43.0


From 62ec4b5a9dc22414335b2547a353875238b06131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:42 +0000
Subject: [PATCH 09/85] fix: partition_filter pruned everything when its field
 was the start of a partition's name

---
 mabel/data/readers/internals/base_inner_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index 659e286..c00b09a 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -139,7 +139,7 @@ class BaseInnerReader(abc.ABC):
                     partition_filter = f"/by_{partition_filter_field}/{partition_filter_field}={partition_filter_value}/"
 
                     # If we can find the partition in the folder set, then prune to it
-                    if any([f"by_{partition_filter_field}" in by for by in list_of_partitions]):
+                    if f"by_{partition_filter_field}" in list_of_partitions:
                         # Do the pruning
                         cycle_blobs = [blob for blob in cycle_blobs if partition_filter in blob]
                         #  We only have one partition now
-- 
2.43.0


From e66b42efcaf4f1e8263d32c044349dea57e5a619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:14 +0000
Subject: [PATCH 10/85] fix: resuming from a cursor failed when blobs had
 arrived since

---
 mabel/data/readers/internals/cursor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/cursor.py b/mabel/data/readers/internals/cursor.py
index 8d6ab80..0478845 100644
--- a/mabel/data/readers/internals/cursor.py
+++ b/mabel/data/readers/internals/cursor.py
@@ -56,8 +56,9 @@ class Cursor:
         map_bytes = bytes.fromhex(cursor["map"])
         blob_map = bitarray()
         blob_map.frombytes(map_bytes)
+        # blobs which arrived after the cursor was taken are not in the map
         self.read_blobs = [
-            self.readable_blobs[i] for i in range(len(self.readable_blobs)) if blob_map[i]
+            blob for blob, is_read in zip(self.readable_blobs, blob_map) if is_read
         ]
 
     def next_blob(self, previous_blob=None):
-- 
2.43.0


From df2c7324f17bee6063accab1ee07699f92e4dd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:49 +0000
Subject: [PATCH 11/85] fix: csv values lost their line breaks

---
 mabel/data/readers/internals/decompressors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/decompressors.py b/mabel/data/readers/internals/decompressors.py
index 00fc9ae..f1051ce 100644
--- a/mabel/data/readers/internals/decompressors.py
+++ b/mabel/data/readers/internals/decompressors.py
@@ -73,5 +73,7 @@ def block(stream):
 
 def csv(stream):
     import csv
+    import io
 
-    yield from csv.DictReader(stream.read().decode("utf8").splitlines())
+    # values can have line breaks in them, so leave splitting into lines to the csv parser
+    yield from csv.DictReader(io.StringIO(stream.read().decode("utf8"), newline=""))
-- 
2.43.0


From 46fbfaa7346660f83dac4b6e8285b53304e1c59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:49 +0000
Subject: [PATCH 12/85] fix: the last line of zstd files was dropped when it
 was not terminated

---
 mabel/data/readers/internals/decompressors.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/decompressors.py b/mabel/data/readers/internals/decompressors.py
index f1051ce..aafb8cd 100644
--- a/mabel/data/readers/internals/decompressors.py
+++ b/mabel/data/readers/internals/decompressors.py
@@ -8,7 +8,11 @@ def zstd(stream):
     import zstandard  # type:ignore
 
     with zstandard.open(stream, "rb") as file:  # type:ignore
-        yield from file.read().split(b"\n")[:-1]
+        rows = file.read().split(b"\n")
+        # the last line may not be terminated
+        if rows[-1] == b"":
+            rows.pop()
+        yield from rows
 
 
 def lzma(stream):
-- 
2.43.0


From fe45de5e9c61f635db36c7195f6fb42e0ed02b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 13/85] fix: a DictSet could be iterated only once, and not at
 all over a list

---
 mabel/data/internals/dictset.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 9536f78..beac841 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -94,6 +94,7 @@ class DictSet(object):
         """
         self.storage_class = storage_class
         self._iterator = iterator
+        self._active_iterator = None
         self._temporary_folder = None
 
         # if we're persisting to memory, load into a list
@@ -117,10 +118,17 @@ class DictSet(object):
         """
         if not hasattr(self._iterator, "__iter__"):  # pragma:no cover
             self._iterator = DumbIterator(self._iterator)
+        # persisted sets (and lists) are iterated from their beginning each time
+        iterator = iter(self._iterator)
+        if hasattr(self._iterator, "__next__"):
+            iterator = self._iterator
+        self._active_iterator = iterator
         return self
 
     def __next__(self):
-        return next(self._iterator)
+        if self._active_iterator is None:
+            iter(self)
+        return next(self._active_iterator)
 
     def __enter__(self):  # pragma:no cover
         return self
-- 
2.43.0


From 8b865466036312fe2c675a036eef0b2aa758d97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 14/85] fix: DictSet.types reported columns of nulls as mixed

---
 mabel/data/internals/dictset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index beac841..68d2d96 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -195,7 +195,7 @@ class DictSet(object):
             key_type = {type(val).__name__ for val in top.collect_list(key) if val != None}
             if len(key_type) == 0:  # pragma: no cover
                 response[key] = "empty"
-            if len(key_type) == 1:
+            elif len(key_type) == 1:
                 response[key] = key_type.pop()
             elif sorted(key_type) == ["float", "int"]:
                 response[key] = "numeric"
-- 
2.43.0


From df8de815063cab851555a3c7d734ecb44172115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 15/85] fix: DictSet.get_items failed for sets in memory and
 for generators

---
 mabel/data/internals/dictset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 68d2d96..ab33a24 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -335,7 +335,9 @@ class DictSet(object):
 
         # if there's no direct access to items, cycle through them
         # yielding the items we want
-        if self.storage_class in (STORAGE_CLASS.DISK, STORAGE_CLASS.COMPRESSED_MEMORY):
+        if not locations:
+            return
+        if self.storage_class != STORAGE_CLASS.NO_PERSISTANCE:
             for r in self._iterator._inner_reader(*locations):
                 yield r
             return
@@ -346,7 +348,7 @@ class DictSet(object):
             return
 
         if self.storage_class == STORAGE_CLASS.NO_PERSISTANCE:
-            for i, r in iter(self._iterator):
+            for i, r in enumerate(iter(self._iterator)):
                 if i in locations:
                     yield r
 
-- 
2.43.0


From ae97aa37979c5b903ffa0b70a673535fb9817ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 16/85] fix: taking zero items returned all of them

---
 mabel/data/internals/dictset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index ab33a24..2337c07 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -404,6 +404,8 @@ class DictSet(object):
 
         This returns a generator.
         """
+        if items == 0:
+            return
         for count, item in enumerate(iter(self._iterator)):
             if isinstance(item, dict):
                 yield item
-- 
2.43.0


From 3c1762e93a0812c41105a7d8325ed4f603ace072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 17/85] fix: DictSet.distinct dropped records which are not
 duplicates

---
 mabel/data/internals/dictset.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 2337c07..525aa85 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -303,13 +303,9 @@ class DictSet(object):
         def do_dedupe(data):
             for item in data:
                 if columns:
-                    hashed_item = hash("".join([str(item.get(c, "$$")) for c in columns]))
+                    hashed_item = hash(repr([(c in item, item.get(c)) for c in columns]))
                 else:
-                    hashed_item = reduce(
-                        lambda x, y: x ^ y,
-                        [hash(f"{i},{v}") for i, v in enumerate(item.values())],
-                        0,
-                    )
+                    hashed_item = hash(repr(sorted(item.items(), key=lambda i: str(i[0]))))
                 if hashed_item not in hash_list:
                     yield item
                     hash_list[hashed_item] = True
-- 
2.43.0


From 2d0f8d102d8b1279651c0936e8351b45d8d20a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 18/85] fix: flattening lists lost the name of the field and
 the separator

---
 mabel/data/internals/records.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/records.py b/mabel/data/internals/records.py
index fc48701..e7cac4d 100644
--- a/mabel/data/internals/records.py
+++ b/mabel/data/internals/records.py
@@ -81,7 +81,7 @@ def flatten(dictionary: MutableMapping[Any, Any], separator: str = ".", parent_k
             items.extend(flatten(dictionary=value, separator=separator, parent_key=new_key).items())
         elif isinstance(value, list):
             for k, v in enumerate(value):
-                items.extend(flatten({str(k): v}, new_key).items())
+                items.extend(flatten({str(k): v}, separator, new_key).items())
         else:
             items.append((new_key, value))
     return dict(items)
-- 
2.43.0


From 169eb97ced04e472d66ea2cd340e74e726772914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 19/85] fix: selecting several collections, or several columns
 of one, failed

---
 mabel/data/internals/collected_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mabel/data/internals/collected_set.py b/mabel/data/internals/collected_set.py
index 99361c0..831f48e 100644
--- a/mabel/data/internals/collected_set.py
+++ b/mabel/data/internals/collected_set.py
@@ -111,7 +111,7 @@ class CollectedSet:
             newg = CollectedSet([], None)
             for entry in item:
                 if entry in self._collections:
-                    newg._collections[entry].append(self._collections[entry])
+                    newg._collections[entry] = self._collections[entry]
             return newg
         else:
             return SubCollection(self._collections.get(item))
@@ -133,7 +133,7 @@ class SubCollection:
         Selector access to a value in a collection, support arrays
         """
         if isinstance(item, tuple):
-            return list(self.values.select(*item))
+            return list(self.values.select(item))
         else:
             return self.values.collect_list(item)
 
-- 
2.43.0


From a1c6b4d01775de50a74e6364bd11a20584078668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:15 +0000
Subject: [PATCH 20/85] fix: MIN and MAX of groups ignored zeros (and other
 falsy values)

---
 mabel/data/internals/group_by.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/mabel/data/internals/group_by.py b/mabel/data/internals/group_by.py
index a6ac668..0cb0980 100644
--- a/mabel/data/internals/group_by.py
+++ b/mabel/data/internals/group_by.py
@@ -142,11 +142,8 @@ class GroupBy:
                 # the aggregation works by performing a simple calculation on
                 # the last known value and the value currently seen. This means
                 # we don't need a full copy of the data in memory.
-                if existing:
-                    if value or func == "COUNT":
-                        value = AGGREGATORS[func](existing, value)
-                    else:
-                        value = existing
+                if existing is not None:
+                    value = AGGREGATORS[func](existing, value)
                 elif func == "COUNT":
                     # the COUNT needs seeding with 1, the next cycles are just
                     # adding 1 to the last value.
-- 
2.43.0


From 1986765cf2ede31b15fb57b0455447e598383f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:15 +0000
Subject: [PATCH 21/85] fix: SUM and COUNT were wrong next to an AVG of the
 same column

---
 mabel/data/internals/group_by.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mabel/data/internals/group_by.py b/mabel/data/internals/group_by.py
index 0cb0980..7523bf4 100644
--- a/mabel/data/internals/group_by.py
+++ b/mabel/data/internals/group_by.py
@@ -116,10 +116,14 @@ class GroupBy:
 
         requested_aggs = aggregations.copy()
 
-        # averages need the sum and the count
-        for func, col in aggregations:
+        # averages need the sum and the count, each is calculated once however often
+        # it is needed
+        aggregations = list(dict.fromkeys(requested_aggs))
+        for func, col in requested_aggs:
             if func == "AVG":
-                aggregations += [("SUM", col), ("COUNT", col)]
+                for needed in [("SUM", col), ("COUNT", col)]:
+                    if needed not in aggregations:
+                        aggregations.append(needed)
 
         columns_to_collect = {col for func, col in aggregations}
 
-- 
2.43.0


From 58b82ffe31dc9bc3c9ff8623c95fae0a89bf941f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:15 +0000
Subject: [PATCH 22/85] fix: different values were put in the same group when
 their texts joined alike

---
 mabel/data/internals/group_by.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/mabel/data/internals/group_by.py b/mabel/data/internals/group_by.py
index 7523bf4..828ad6e 100644
--- a/mabel/data/internals/group_by.py
+++ b/mabel/data/internals/group_by.py
@@ -71,16 +71,10 @@ class GroupBy:
             return
 
         for record in self._dictset:
-            try:
-                group_key: int = xxh3_64_intdigest(
-                    "".join([str(record[column]) for column in self._columns]),
-                    HASH_SEED
-                )
-            except KeyError:
-                group_key: int = xxh3_64_intdigest(
-                    "".join([f"{record.get(column, '')}" for column in self._columns]),
-                    HASH_SEED,
-                )
+            group_key: int = xxh3_64_intdigest(
+                repr([record.get(column) for column in self._columns]),
+                HASH_SEED,
+            )
             if group_key not in self._group_keys.keys():
                 self._group_keys[group_key] = [
                     (column, record.get(column)) for column in self._columns
-- 
2.43.0


From f5b47bf0b93eb7abe2e829056b637dc29307f808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:15 +0000
Subject: [PATCH 23/85] fix: groups with only nulls to aggregate were dropped,
 or failed to average

---
 mabel/data/internals/group_by.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mabel/data/internals/group_by.py b/mabel/data/internals/group_by.py
index 828ad6e..4d665f0 100644
--- a/mabel/data/internals/group_by.py
+++ b/mabel/data/internals/group_by.py
@@ -153,12 +153,15 @@ class GroupBy:
         # the order of the resulting data set is the order of the hashes - this
         # will appear random, but will ensure the order is consistent between
         # reruns.
-        collector = dict(sorted(collector.items()))
-
         # We now need to expand out the hashed column names
-        for group, results in collector.items():
+        for group in sorted(self._group_keys):
+            # groups with nothing but nulls have no values to aggregate
+            results = collector[group]
+            for func, col in aggregations:
+                if func == "COUNT":
+                    results.setdefault(f"COUNT({col})", 0)
             for func, col in requested_aggs:
-                if func == "AVG":
+                if func == "AVG" and results[f"COUNT({col})"]:
                     results[f"AVG({col})"] = results[f"SUM({col})"] / results[f"COUNT({col})"]
 
             results = {
-- 
2.43.0


From 0cc161a16bbf9c1e2b7ca5ad666970fdeacee636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:28 +0000
Subject: [PATCH 24/85] fix: DictSet.types of unpersisted sets found no values

---
 mabel/data/internals/dictset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 525aa85..e87bad7 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -189,7 +189,8 @@ class DictSet(object):
         )
 
     def types(self, number_of_rows: int = 100):
-        top = self.take(number_of_rows)
+        # we're going over these a few times, so they can't be a generator
+        top = DictSet(self.itake(number_of_rows), storage_class=STORAGE_CLASS.MEMORY)
         response = {}
         for key in top.keys():
             key_type = {type(val).__name__ for val in top.collect_list(key) if val != None}
-- 
2.43.0


From 126d5583001f395e40bfbea59064d1c8c679a923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:21 +0000
Subject: [PATCH 25/85] fix: HTML tables failed on lists of anything but text

---
 mabel/data/internals/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/display.py b/mabel/data/internals/display.py
index a999a1c..a35dfb5 100644
--- a/mabel/data/internals/display.py
+++ b/mabel/data/internals/display.py
@@ -23,7 +23,7 @@ def html_table(dictset: Iterable[dict], limit: int = 5):
     def sanitize(htmlstring):
         ## some types need converting to a string first
         if isinstance(htmlstring, (list, tuple, set)) or hasattr(htmlstring, "as_list"):
-            return "[ " + ", ".join([sanitize(i) for i in htmlstring]) + " ]"
+            return "[ " + ", ".join([str(sanitize(i)) for i in htmlstring]) + " ]"
         if hasattr(htmlstring, "items"):
             return sanitize("{ " + ", ".join([f'"{k}": {v}' for k, v in htmlstring.items()]) + " }")
         if not isinstance(htmlstring, str):
-- 
2.43.0


From cc30dc252dafd945414a3ad2023304932765a93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:21 +0000
Subject: [PATCH 26/85] fix: HTML tables did not close their cells, doubling
 the columns

---
 mabel/data/internals/display.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mabel/data/internals/display.py b/mabel/data/internals/display.py
index a35dfb5..f8c3789 100644
--- a/mabel/data/internals/display.py
+++ b/mabel/data/internals/display.py
@@ -41,13 +41,13 @@ def html_table(dictset: Iterable[dict], limit: int = 5):
             if counter == 0:
                 yield '<thead class="thead-light"><tr>'
                 for column in columns:
-                    yield f"<th>{sanitize(column)}<th>\n"
+                    yield f"<th>{sanitize(column)}</th>\n"
                 yield "</tr></thead><tbody>"
 
             yield "<tr>"
             for column in columns:
                 sanitized = sanitize(record.get(column, ""))
-                yield f"<td title='{sanitized}' style='max-width:320px;overflow:hidden;text-overflow:ellipsis;white-space:nowrap;'>{sanitized}<td>\n"
+                yield f"<td title='{sanitized}' style='max-width:320px;overflow:hidden;text-overflow:ellipsis;white-space:nowrap;'>{sanitized}</td>\n"
             yield "</tr>"
 
         yield "</tbody></table>"
-- 
2.43.0


From 9b1e5a06ffb0f4db2f026c772e55e0be341a390b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:21 +0000
Subject: [PATCH 27/85] fix: ASCII tables put values under the wrong header
 when records' fields differ

---
 mabel/data/internals/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/display.py b/mabel/data/internals/display.py
index f8c3789..5711056 100644
--- a/mabel/data/internals/display.py
+++ b/mabel/data/internals/display.py
@@ -128,7 +128,7 @@ def ascii_table(dictset: Iterable[Dict[Any, Any]], limit: int = 5):
     for row in cache:
         result.append(
             "│"
-            + "│".join([str(format_value(v)).center(columns[k] + 2) for k, v in row.items()])
+            + "│".join([str(format_value(row.get(k, ""))).center(v + 2) for k, v in columns.items()])
             + "│"
         )
 
-- 
2.43.0


From 8bffb0d8c4fe0817b72048c84cc4d7d8ef63820c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:31 +0000
Subject: [PATCH 28/85] fix: conditions after a comparison with null were
 ignored

---
 mabel/data/internals/expression.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mabel/data/internals/expression.py b/mabel/data/internals/expression.py
index 6c27015..144311b 100644
--- a/mabel/data/internals/expression.py
+++ b/mabel/data/internals/expression.py
@@ -163,6 +163,7 @@ class Expression(object):
                 n = TreeNode(token_type, self.tokenizer.next().lower() == "true")
                 return n
             if token_type == TOKENS.NULL:
+                self.tokenizer.next()
                 n = TreeNode(token_type, None)
                 return n
             if token_type == TOKENS.DATE:
-- 
2.43.0


From 55e975f8f73ead45de7ab9ea896072e33d8dcb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:31 +0000
Subject: [PATCH 29/85] fix: quoted text in expressions was altered or broken
 when it held keywords, operators or whitespace

---
 mabel/utils/token_labeler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mabel/utils/token_labeler.py b/mabel/utils/token_labeler.py
index 041f4c6..6436926 100644
--- a/mabel/utils/token_labeler.py
+++ b/mabel/utils/token_labeler.py
@@ -175,7 +175,8 @@ def get_token_type(token):
 @lru_cache(1)
 def build_splitter():
     # build the regex by building a list of all of the keywords
-    keywords = []
+    # quoted strings are never split, whatever they contain
+    keywords = [r"'[^']*'", r'"[^"]*"', r"`[^`]*`"]
     for item in FUNCTIONS:
         keywords.append(r"\b" + item + r"\b")
     for item in AGGREGATORS:
@@ -302,10 +303,10 @@ class Tokenizer:
 
     def clean_statement(self, string):
         """
-        Remove carriage returns and all whitespace to single spaces
+        Remove carriage returns and all whitespace to single spaces, other than in quotes
         """
-        whitespace_cleaner = re.compile(r"\s+")
-        return whitespace_cleaner.sub(" ", string).strip()
+        whitespace_cleaner = re.compile(r"('[^']*'|\"[^\"]*\"|`[^`]*`)|\s+")
+        return whitespace_cleaner.sub(lambda match: match.group(1) or " ", string).strip()
 
     def tokenize(self, expression):
         expression = self.clean_statement(expression)
-- 
2.43.0


From c1450e5a1fefd9a64375aff3d987dbf15aeb03e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:31 +0000
Subject: [PATCH 30/85] fix: the rest of a malformed expression was silently
 ignored

---
 mabel/data/internals/expression.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mabel/data/internals/expression.py b/mabel/data/internals/expression.py
index 144311b..a00731e 100644
--- a/mabel/data/internals/expression.py
+++ b/mabel/data/internals/expression.py
@@ -47,6 +47,8 @@ class Expression(object):
 
     def parse(self):
         self.root = self.parse_expression()
+        if self.tokenizer.has_next():
+            raise InvalidExpression(f"Unexpected token, got `{self.tokenizer.next()}`")
 
     def parse_expression(self):
         andTerm1 = self.parse_and_term()
-- 
2.43.0


From 10d089ebc65ccdaa15b6dfc655ad988773c6bc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:59 +0000
Subject: [PATCH 31/85] fix: text which looks like a number or date never
 matched the same text in an expression

---
 mabel/data/internals/expression.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/mabel/data/internals/expression.py b/mabel/data/internals/expression.py
index a00731e..98f9685 100644
--- a/mabel/data/internals/expression.py
+++ b/mabel/data/internals/expression.py
@@ -211,6 +211,17 @@ class Expression(object):
 
         return parse_iso(value) or value
 
+    def get_text(self, treeNode, value, compared_with, variable_dict):
+        """
+        Text which is compared with text is used as it is, even if it could also be
+        interpreted as a number, boolean or date.
+        """
+        if treeNode.token_type == TOKENS.VARIABLE and isinstance(compared_with, (str, list)):
+            text = variable_dict.get(treeNode.value)
+            if isinstance(text, str):
+                return text
+        return value
+
     def evaluate(self, variable_dict):
         return self.evaluate_recursive(self.root, variable_dict)
 
@@ -243,7 +254,13 @@ class Expression(object):
         right = self.evaluate_recursive(treeNode.right, variable_dict)
 
         if treeNode.token_type == TOKENS.OPERATOR:
+            left_text = self.get_text(treeNode.left, left, right, variable_dict)
+            right_text = self.get_text(treeNode.right, right, left, variable_dict)
             try:
+                if treeNode.value == "IN" and OPERATORS["IN"](left_text, right):
+                    return True
+                if isinstance(left_text, str) and isinstance(right_text, str):
+                    return OPERATORS[treeNode.value](left_text, right_text)
                 return OPERATORS[treeNode.value](left, right)
             except (TypeError, ValueError):
                 return None
-- 
2.43.0


From 99c9412b2bd676f7aa51711bfccbd84013fa1c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:00 +0000
Subject: [PATCH 32/85] fix: LIKE, MATCHES and CONTAINS failed on text which
 looks like a date

---
 mabel/data/internals/expression.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mabel/data/internals/expression.py b/mabel/data/internals/expression.py
index 98f9685..17752be 100644
--- a/mabel/data/internals/expression.py
+++ b/mabel/data/internals/expression.py
@@ -22,6 +22,10 @@ from mabel.utils.token_labeler import TOKENS
 from mabel.utils.token_labeler import Tokenizer
 
 
+# these look for their right operand as text, even if it looks like a date
+TEXT_OPERATORS = ("LIKE", "NOT LIKE", "MATCHES", "CONTAINS")
+
+
 class InvalidExpression(BaseException):
     pass
 
@@ -139,7 +143,10 @@ class Expression(object):
                     self.tokenizer.next_token_value().upper(),
                 )
                 self.tokenizer.next()
+                text = self.tokenizer.next_token_value()[1:-1] if self.tokenizer.has_next() else ""
                 terminal2 = self.parse_terminal()
+                if terminal2.token_type == TOKENS.DATE and condition.value in TEXT_OPERATORS:
+                    terminal2 = TreeNode(TOKENS.LITERAL, text)
                 condition.left = terminal1
                 condition.right = terminal2
                 return condition
-- 
2.43.0


From 1262b7e5d63f284c19b56bc1644dd39478757c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 33/85] fix: dates (rather than datetimes) in records never
 matched in expressions

---
 mabel/data/internals/expression.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mabel/data/internals/expression.py b/mabel/data/internals/expression.py
index 17752be..f52da76 100644
--- a/mabel/data/internals/expression.py
+++ b/mabel/data/internals/expression.py
@@ -15,6 +15,8 @@ expression tree as it's only doing boolean logic.
 
 Derived from: https://gist.github.com/leehsueh/1290686
 """
+import datetime
+
 from mabel.data.readers.internals.inline_evaluator import *
 from mabel.utils.dates import parse_iso
 from mabel.utils.token_labeler import OPERATORS
@@ -261,6 +263,10 @@ class Expression(object):
         right = self.evaluate_recursive(treeNode.right, variable_dict)
 
         if treeNode.token_type == TOKENS.OPERATOR:
+            if treeNode.value not in TEXT_OPERATORS:
+                # dates in expressions are datetimes
+                left = parse_iso(left) if type(left) is datetime.date else left
+                right = parse_iso(right) if type(right) is datetime.date else right
             left_text = self.get_text(treeNode.left, left, right, variable_dict)
             right_text = self.get_text(treeNode.right, right, left, variable_dict)
             try:
-- 
2.43.0


From 60e65516f42ee53478ddf668ad59d7929c98e65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 34/85] fix: LIKE did not match text with line breaks

---
 mabel/utils/text.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mabel/utils/text.py b/mabel/utils/text.py
index 794188d..c586861 100644
--- a/mabel/utils/text.py
+++ b/mabel/utils/text.py
@@ -36,7 +36,9 @@ def _sql_like_fragment_to_regex(fragment):
     """
     # https://codereview.stackexchange.com/a/36864/229677
     safe_fragment = "".join([REGEX_CHARACTERS.get(ch, ch) for ch in fragment])
-    return re.compile("^" + safe_fragment.replace("%", ".*?").replace("_", ".") + "$")
+    return re.compile(
+        "^" + safe_fragment.replace("%", ".*?").replace("_", ".") + r"\Z", re.DOTALL
+    )
 
 
 def like(x, y):
-- 
2.43.0


From 6e48990774703c120483a236b9c958875f8e3a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 35/85] fix: LIKE matched nulls as if they were the text None

---
 mabel/utils/text.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mabel/utils/text.py b/mabel/utils/text.py
index c586861..3e9430b 100644
--- a/mabel/utils/text.py
+++ b/mabel/utils/text.py
@@ -42,6 +42,9 @@ def _sql_like_fragment_to_regex(fragment):
 
 
 def like(x, y):
+    if x is None:
+        # nulls aren't the text 'None'
+        return False
     return _sql_like_fragment_to_regex(y.lower()).match(str(x).lower())
 
 
-- 
2.43.0


From 8b4edb6091866464d6559b83ca00f39da09d0066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:13 +0000
Subject: [PATCH 36/85] fix: readers dropped the rest of a blob after a value
 the filter can't compare

---
 mabel/data/internals/dnf_filters.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mabel/data/internals/dnf_filters.py b/mabel/data/internals/dnf_filters.py
index a5a7503..fb84cf3 100644
--- a/mabel/data/internals/dnf_filters.py
+++ b/mabel/data/internals/dnf_filters.py
@@ -56,7 +56,13 @@ def evaluate(predicate: Union[tuple, list], record: dict) -> bool:
     if isinstance(predicate, tuple):
         key, op, value = predicate
         record_value = record.get(key, None)
-        return record_value is not None and OPERATORS[op.lower()](record_value, value)
+        operator_function = OPERATORS[op.lower()]
+        try:
+            return record_value is not None and operator_function(record_value, value)
+        except TypeError:
+            # values which can't be compared don't match, the reader would otherwise
+            # stop at this record and drop the rest of the blob
+            return False
 
     if isinstance(predicate, list):
         # Are all of the entries tuples?
-- 
2.43.0


From 238e807123523abf02fc2a85cd202083f0075a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:38 +0000
Subject: [PATCH 37/85] fix: selecting a column and everything added a column
 named *

---
 mabel/data/readers/internals/inline_evaluator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mabel/data/readers/internals/inline_evaluator.py b/mabel/data/readers/internals/inline_evaluator.py
index 07319ba..ba3e31d 100644
--- a/mabel/data/readers/internals/inline_evaluator.py
+++ b/mabel/data/readers/internals/inline_evaluator.py
@@ -242,6 +242,8 @@ class Evaluator:
             else:
                 builder = dic.copy()
         for field in self.tokens:
+            if field["type"] == TOKENS.EVERYTHING:
+                continue
             (k, v) = evaluate_field(dic, field)
             builder[k] = v
         return builder
-- 
2.43.0


From 9be0ad5b3b6f88740dce97082a6314bab4fde8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:49 +0000
Subject: [PATCH 38/85] fix: text in select functions was split when it held
 commas, brackets or AS

---
 mabel/data/readers/internals/inline_evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/inline_evaluator.py b/mabel/data/readers/internals/inline_evaluator.py
index ba3e31d..9a9387a 100644
--- a/mabel/data/readers/internals/inline_evaluator.py
+++ b/mabel/data/readers/internals/inline_evaluator.py
@@ -229,7 +229,8 @@ class TokenSet(list):
 
 class Evaluator:
     def __init__(self, proforma):
-        reg = re.compile(r"(\(|\)|,|\bAS\b)", re.IGNORECASE)
+        # quoted strings are never split, whatever they contain
+        reg = re.compile(r"('[^']*'|\"[^\"]*\"|`[^`]*`|\(|\)|,|\bAS\b)", re.IGNORECASE)
         tokens = [t.strip() for t in reg.split(proforma) if t.strip() not in ("", ",")]
         self.tokens = build(tokens)
         self._iter = None
-- 
2.43.0


From 173781786fe0583ca8b95e79598faa45fff02392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:08 +0000
Subject: [PATCH 39/85] fix: aliases of plain columns were ignored and quoted
 columns kept their quotes

---
 .../readers/internals/inline_evaluator.py     | 38 +++++++++++--------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/mabel/data/readers/internals/inline_evaluator.py b/mabel/data/readers/internals/inline_evaluator.py
index 9a9387a..e42febf 100644
--- a/mabel/data/readers/internals/inline_evaluator.py
+++ b/mabel/data/readers/internals/inline_evaluator.py
@@ -55,6 +55,16 @@ def get_function_name(token):
         return token["value"]
 
 
+def get_label(token):
+    """
+    The name of the field in the results
+    """
+    label = token["as"] or token["value"]
+    if len(label) > 2 and label[0] == label[-1] == "`":
+        label = label[1:-1]
+    return label
+
+
 def get_fields(tokens):
     def inner(tokens):
         for token in tokens:
@@ -62,7 +72,7 @@ def get_fields(tokens):
                 yield "*"
             elif token["type"] in (TOKENS.FUNCTION, TOKENS.AGGREGATOR):
                 if token["as"]:
-                    yield token["as"]
+                    yield get_label(token)
                 else:
                     yield get_function_name(token)
             elif token["type"] in (
@@ -71,12 +81,10 @@ def get_fields(tokens):
                 TOKENS.LITERAL,
                 TOKENS.DATE,
                 TOKENS.FLOAT,
-                TOKENS.DATE,
+                TOKENS.BOOLEAN,
+                TOKENS.NULL,
             ):
-                if token["as"]:
-                    yield token["as"]
-                else:
-                    yield token["value"]
+                yield get_label(token)
 
     return list(inner(tokens))
 
@@ -143,7 +151,7 @@ def evaluate_field(dict, token):
         if variable[0] == variable[-1] == "`":
             variable = variable[1:-1]
         return (
-            token["value"],
+            get_label(token),
             dict.get(variable),
         )
     if token_type == TOKENS.FUNCTION:
@@ -151,7 +159,7 @@ def evaluate_field(dict, token):
             label = get_fields([token]).pop()
             token["as"] = label
         else:
-            label = token["as"]
+            label = get_label(token)
         return (
             label,
             FUNCTIONS[str(token["value"]).upper()](
@@ -160,36 +168,36 @@ def evaluate_field(dict, token):
         )
     if token_type == TOKENS.FLOAT:
         return (
-            token["value"],
+            get_label(token),
             float(token["value"]),
         )
     if token_type == TOKENS.INTEGER:
         return (
-            token["value"],
+            get_label(token),
             int(token["value"]),
         )
     if token_type == TOKENS.LITERAL:
         return (
-            token["value"],
+            get_label(token),
             str(token["value"])[1:-1],
         )
     if token_type == TOKENS.DATE:
         return (
-            token["value"],
+            get_label(token),
             parse_iso(token["value"][1:-1]),
         )
     if token_type == TOKENS.BOOLEAN:
         return (
-            token["value"],
+            get_label(token),
             str(token["value"]).upper() == "TRUE",
         )
     if token_type == TOKENS.NULL:
         return (
-            token["value"],
+            get_label(token),
             None,
         )
     return (
-        token["value"],
+        get_label(token),
         None,
     )
 
-- 
2.43.0


From 4fc921fdb95a3247098e85bcac47ad3d1481ddf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:08 +0000
Subject: [PATCH 40/85] fix: SQL text which holds keywords, brackets or
 whitespace was altered or broken

---
 mabel/data/readers/internals/sql_reader.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 2199ea5..19bd022 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -75,8 +75,9 @@ class SqlParser:
         )
 
     def sql_parts(self, string):
+        # quoted strings are never split, whatever they contain
         reg = re.compile(
-            r"(\(|\)|,|"
+            r"('[^']*'|\"[^\"]*\"|`[^`]*`|\(|\)|,|"
             + r"|".join([r"\b" + i.replace(r" ", r"\s") + r"\b" for i in SQL_PARTS])
             + r"|\s)",
             re.IGNORECASE,
@@ -86,13 +87,13 @@ class SqlParser:
 
     def clean_statement(self, string):
         """
-        Remove carriage returns and all whitespace to single spaces
+        Remove carriage returns and all whitespace to single spaces, other than in quotes
         """
-        _RE_COMBINE_WHITESPACE = re.compile(r"\s+")
-        return _RE_COMBINE_WHITESPACE.sub(" ", string).strip()
+        _RE_COMBINE_WHITESPACE = re.compile(r"('[^']*'|\"[^\"]*\"|`[^`]*`)|\s+")
+        return _RE_COMBINE_WHITESPACE.sub(lambda match: match.group(1) or " ", string).strip()
 
     def remove_comments(self, string):
-        pattern = r"(\".*?\"|\'.*?\')|(/\*.*?\*/|--[^\r\n]*$)"
+        pattern = r"(\".*?\"|\'.*?\'|`.*?`)|(/\*.*?\*/|--[^\r\n]*$)"
         # first group captures quoted strings (double or single)
         # second group captures comments (//single-line or /* multi-line */)
         regex = re.compile(pattern, re.MULTILINE | re.DOTALL)
-- 
2.43.0


From 1659598ffff20a85b5c2c67c354b555bde777213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:08 +0000
Subject: [PATCH 41/85] fix: LIMIT was ignored after ORDER BY without ASC or
 DESC

---
 mabel/data/readers/internals/sql_reader.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 19bd022..141fc33 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -216,7 +216,6 @@ class SqlParser:
                     "DESC",
                 ):
                     self.order_descending = labeler.next_token_value().upper() == "DESC"
-                if labeler.has_next():
                     labeler.next()
             elif labeler.peek().upper() == "LIMIT":
                 labeler.next()
-- 
2.43.0


From eb080e1cdfb228fe494cc780de9c21ec724ff2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:08 +0000
Subject: [PATCH 42/85] fix: malformed SQL statements were parsed forever

---
 mabel/data/readers/internals/sql_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 141fc33..eada5cc 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -220,6 +220,8 @@ class SqlParser:
             elif labeler.peek().upper() == "LIMIT":
                 labeler.next()
                 self.limit = int(self.collector(labeler))
+            else:
+                raise InvalidSqlError(f"Invalid statement - unexpected `{labeler.peek()}`.")
 
         # validate inputs (currently only the FROM clause)
         if isinstance(self.dataset, str):
-- 
2.43.0


From ab4627654e3e895b1c84830fd6b88ab9bca57c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:08 +0000
Subject: [PATCH 43/85] fix: LIMIT 0 returned everything

---
 mabel/data/readers/internals/sql_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index eada5cc..47fecbf 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -343,14 +343,14 @@ def SqlReader(sql_statement: str, **kwargs):
     # ORDER BY clause
     if sql.order_by:
         take = 10000  # the Query UI is currently set to 2000
-        if sql.limit:
+        if sql.limit is not None:
             take = int(sql.limit)
         reader = DictSet(
             reader.sort_and_take(column=sql.order_by, take=take, descending=sql.order_descending)
         )
 
     # LIMIT clause
-    if sql.limit:
+    if sql.limit is not None:
         reader = reader.take(sql.limit)
 
     return reader
-- 
2.43.0


From 8adb0262cd9c9e352823b9cbc3d4faa767a7a86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:33 +0000
Subject: [PATCH 44/85] fix: SQL could not group by functions with many
 parameters or which aren't selected

---
 mabel/data/readers/internals/sql_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 47fecbf..72f7689 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -259,6 +259,9 @@ def SqlReader(sql_statement: str, **kwargs):
         actual_select = "*"
     elif sql.select_expression != "*":
         actual_select = sql.select_expression + ", *"
+        if sql.group_by:
+            # functions in the GROUP BY don't have to be in the SELECT
+            actual_select = sql.group_by + ", " + actual_select
 
     reducer = None
     if sql.select_expression == "COUNT(*)":
@@ -290,7 +293,7 @@ def SqlReader(sql_statement: str, **kwargs):
 
         # convert the clause into something we can pass to GroupBy
         if sql.group_by:
-            groups = [group.strip() for group in sql.group_by.split(",") if group.strip() != ""]
+            groups = Evaluator(sql.group_by).fields()
         else:
             groups = ["*"]  # we're not really grouping
 
-- 
2.43.0


From b355ee88ba092c9afdef9ee4e40275bf91683597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:30 +0000
Subject: [PATCH 45/85] fix: SQL columns selected many times, or by many names,
 were lost

---
 mabel/data/readers/internals/sql_reader.py | 33 +++++++++-------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 72f7689..80253c4 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -23,6 +23,7 @@ from orso.logging import get_logger
 
 from mabel.data.readers.internals.inline_evaluator import Evaluator
 from mabel.data.readers.internals.inline_evaluator import get_function_name
+from mabel.data.readers.internals.inline_evaluator import get_label
 from mabel.utils.token_labeler import TOKENS
 from mabel.utils.token_labeler import Tokenizer
 
@@ -298,14 +299,12 @@ def SqlReader(sql_statement: str, **kwargs):
             groups = ["*"]  # we're not really grouping
 
         aggregations = []
-        renames = []
         for t in sql.select_evaluator.tokens:  # type:ignore
             if t["type"] == TOKENS.AGGREGATOR:
                 aggregations.append((t["value"], t["parameters"][0]["value"]))
-                if t["as"]:
-                    t["raw"] = get_function_name(t)
-                    renames.append(t)
-            elif t["type"] == TOKENS.VARIABLE and t["value"] not in groups:
+            elif t["type"] == TOKENS.VARIABLE and not {t["value"].strip("`"), get_label(t)} & set(
+                groups
+            ):
                 raise InvalidSqlError(
                     "Invalid SQL - SELECT clause in a statement with a GROUP BY clause must be made of aggregations or items from the GROUP BY clause."
                 )
@@ -318,26 +317,22 @@ def SqlReader(sql_statement: str, **kwargs):
         # there could be 250000 groups, so we're not going to load them into memory
         reader = DictSet(grouped)
 
+        # results may be wanted under many names, the columns read are already renamed
+        names = [
+            (get_function_name(t).strip("`"), get_label(t))
+            for t in sql.select_evaluator.tokens
+            if t["as"]
+        ]
+        reader = DictSet(
+            {**row, **{label: row[name] for name, label in names if name in row}} for row in reader
+        )
+
     # HAVING clause
     # if we have a HAVING clause, filter the grouped data by it
     if sql.having:
         reader = reader.filter(sql.having)
 
     # SELECT clause
-    renames = {}  # type:ignore
-    for t in sql.select_evaluator.tokens:  # type:ignore
-        if t["as"]:
-            renames[get_function_name(t)] = t["as"]
-
-    def _perform_renames(row):
-        for k, v in [(k, v) for k, v in row.items()]:
-            if k in renames:
-                row[renames[k]] = row.pop(k, row.get(renames[k]))
-        return row
-
-    if renames:
-        reader = DictSet(map(_perform_renames, reader))
-
     reader = reader.select(sql.select_evaluator.fields())  # type:ignore
     # distinct now we have only the columns we're interested in
     if sql.distinct:
-- 
2.43.0


From d7a470382cb60a93e34494228b9d6fb7a7875826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:51 +0000
Subject: [PATCH 46/85] fix: WHERE and functions were ignored when selecting
 from a subquery

---
 mabel/data/readers/internals/sql_reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 80253c4..11bbd0b 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -278,6 +278,10 @@ def SqlReader(sql_statement: str, **kwargs):
         # to get back a dataset - which we then use as the
         # dataset for the outer query.
         reader = SqlReader("".join(sql.dataset), **kwargs)
+        if actual_select != "*":
+            reader = DictSet(map(Evaluator(actual_select), reader))
+        if sql.where_expression:
+            reader = reader.filter(sql.where_expression)
     else:
         reader = Reader(
             select=actual_select,
-- 
2.43.0


From 0b65ff473ba600308a9f42ae758365b9aff8fd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:51 +0000
Subject: [PATCH 47/85] fix: aggregations in HAVING and ORDER BY were ignored
 unless they were selected

---
 mabel/data/readers/internals/sql_reader.py | 24 +++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 11bbd0b..4516851 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -234,6 +234,24 @@ class SqlParser:
             )
 
 
+def find_calls(expression: Optional[str]) -> list:
+    """
+    Find the function calls in an expression; when expressions are evaluated the
+    results of these are expected to be columns in the data.
+    """
+
+    from mabel.data.internals.expression import Expression
+
+    def _inner(node):
+        if node is None:
+            return []
+        if node.token_type == TOKENS.VARIABLE and node.value[-1] == ")":
+            return [node.value]
+        return _inner(node.left) + _inner(node.right)
+
+    return _inner(Expression(expression).root) if expression else []
+
+
 def SqlReader(sql_statement: str, **kwargs):
     """
     Use basic SQL queries to filter Reader.
@@ -302,8 +320,12 @@ def SqlReader(sql_statement: str, **kwargs):
         else:
             groups = ["*"]  # we're not really grouping
 
+        # aggregations don't have to be in the SELECT to be used in the HAVING and ORDER BY
+        calls = find_calls(sql.having) + ([sql.order_by] if sql.order_by else [])
+        unselected = [t for t in Evaluator(", ".join(calls)).tokens if t["type"] == TOKENS.AGGREGATOR]
+
         aggregations = []
-        for t in sql.select_evaluator.tokens:  # type:ignore
+        for t in sql.select_evaluator.tokens + unselected:  # type:ignore
             if t["type"] == TOKENS.AGGREGATOR:
                 aggregations.append((t["value"], t["parameters"][0]["value"]))
             elif t["type"] == TOKENS.VARIABLE and not {t["value"].strip("`"), get_label(t)} & set(
-- 
2.43.0


From 87015fde1fb502e4a07cf0c063f4890619b29610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:51 +0000
Subject: [PATCH 48/85] fix: ORDER BY a column which isn't selected did not
 sort

---
 mabel/data/readers/internals/sql_reader.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 4516851..a9b9091 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -359,10 +359,13 @@ def SqlReader(sql_statement: str, **kwargs):
         reader = reader.filter(sql.having)
 
     # SELECT clause
-    reader = reader.select(sql.select_evaluator.fields())  # type:ignore
+    fields = sql.select_evaluator.fields()  # type:ignore
+    order_by = Evaluator(sql.order_by).fields() if sql.order_by else []
+    if len(order_by) > 1:
+        raise InvalidSqlError("Invalid SQL - ORDER BY can only be used with one column.")
     # distinct now we have only the columns we're interested in
     if sql.distinct:
-        reader = reader.distinct()
+        reader = reader.select(fields).distinct()
 
     # ORDER BY clause
     if sql.order_by:
@@ -370,9 +373,12 @@ def SqlReader(sql_statement: str, **kwargs):
         if sql.limit is not None:
             take = int(sql.limit)
         reader = DictSet(
-            reader.sort_and_take(column=sql.order_by, take=take, descending=sql.order_descending)
+            reader.sort_and_take(column=order_by[0], take=take, descending=sql.order_descending)
         )
 
+    # we may have sorted by a column we're not interested in
+    reader = reader.select(fields)
+
     # LIMIT clause
     if sql.limit is not None:
         reader = reader.take(sql.limit)
-- 
2.43.0


From d715b9e037e92850a8d8499cf4c1521c520d2eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:32 +0000
Subject: [PATCH 49/85] fix: functions in WHERE and ORDER BY were ignored
 unless they were selected

---
 mabel/data/readers/internals/sql_reader.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index a9b9091..fefe1b7 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -282,6 +282,17 @@ def SqlReader(sql_statement: str, **kwargs):
             # functions in the GROUP BY don't have to be in the SELECT
             actual_select = sql.group_by + ", " + actual_select
 
+    # the results of functions need to be in the data for it to be filtered or sorted by
+    # them, even if they're not in the SELECT
+    calls = find_calls(sql.where_expression) + ([sql.order_by] if sql.order_by else [])
+    helpers = {
+        get_function_name(t)
+        for t in Evaluator(", ".join(calls)).tokens
+        if t["type"] == TOKENS.FUNCTION
+    }.difference(sql.select_evaluator.fields())  # type:ignore
+    if helpers:
+        actual_select = ", ".join(sorted(helpers)) + ", " + actual_select
+
     reducer = None
     if sql.select_expression == "COUNT(*)":
         reducer = lambda x: {"*": "*"}
@@ -378,6 +389,8 @@ def SqlReader(sql_statement: str, **kwargs):
 
     # we may have sorted by a column we're not interested in
     reader = reader.select(fields)
+    if helpers and "*" in fields:
+        reader = DictSet({k: v for k, v in row.items() if k not in helpers} for row in reader)
 
     # LIMIT clause
     if sql.limit is not None:
-- 
2.43.0


From 705644d24515b272e055009b5a906942e8278911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:00 +0000
Subject: [PATCH 50/85] fix: aggregations of functions and of quoted columns
 found no values

---
 mabel/data/readers/internals/sql_reader.py | 34 ++++++++++++++--------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index fefe1b7..cd11b37 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -22,6 +22,7 @@ from typing import Optional
 from orso.logging import get_logger
 
 from mabel.data.readers.internals.inline_evaluator import Evaluator
+from mabel.data.readers.internals.inline_evaluator import get_fields
 from mabel.data.readers.internals.inline_evaluator import get_function_name
 from mabel.data.readers.internals.inline_evaluator import get_label
 from mabel.utils.token_labeler import TOKENS
@@ -283,13 +284,16 @@ def SqlReader(sql_statement: str, **kwargs):
             actual_select = sql.group_by + ", " + actual_select
 
     # the results of functions need to be in the data for it to be filtered or sorted by
-    # them, even if they're not in the SELECT
-    calls = find_calls(sql.where_expression) + ([sql.order_by] if sql.order_by else [])
-    helpers = {
-        get_function_name(t)
-        for t in Evaluator(", ".join(calls)).tokens
-        if t["type"] == TOKENS.FUNCTION
-    }.difference(sql.select_evaluator.fields())  # type:ignore
+    # them, or aggregated, even if they're not in the SELECT
+    calls = find_calls(sql.where_expression) + find_calls(sql.having)
+    calls += [sql.order_by] if sql.order_by else []
+    tokens = Evaluator(", ".join(calls)).tokens
+    for t in tokens + sql.select_evaluator.tokens:  # type:ignore
+        if t["type"] == TOKENS.AGGREGATOR:
+            tokens = tokens + t["parameters"]
+    helpers = {get_function_name(t) for t in tokens if t["type"] == TOKENS.FUNCTION}.difference(
+        sql.select_evaluator.fields()
+    )  # type:ignore
     if helpers:
         actual_select = ", ".join(sorted(helpers)) + ", " + actual_select
 
@@ -333,12 +337,14 @@ def SqlReader(sql_statement: str, **kwargs):
 
         # aggregations don't have to be in the SELECT to be used in the HAVING and ORDER BY
         calls = find_calls(sql.having) + ([sql.order_by] if sql.order_by else [])
-        unselected = [t for t in Evaluator(", ".join(calls)).tokens if t["type"] == TOKENS.AGGREGATOR]
+        unselected = [
+            t for t in Evaluator(", ".join(calls)).tokens if t["type"] == TOKENS.AGGREGATOR
+        ]
 
         aggregations = []
         for t in sql.select_evaluator.tokens + unselected:  # type:ignore
             if t["type"] == TOKENS.AGGREGATOR:
-                aggregations.append((t["value"], t["parameters"][0]["value"]))
+                aggregations.append((t["value"], get_fields(t["parameters"])[0]))
             elif t["type"] == TOKENS.VARIABLE and not {t["value"].strip("`"), get_label(t)} & set(
                 groups
             ):
@@ -356,9 +362,13 @@ def SqlReader(sql_statement: str, **kwargs):
 
         # results may be wanted under many names, the columns read are already renamed
         names = [
-            (get_function_name(t).strip("`"), get_label(t))
-            for t in sql.select_evaluator.tokens
-            if t["as"]
+            (
+                f"{t['value']}({get_fields(t['parameters'])[0]})"
+                if t["type"] == TOKENS.AGGREGATOR
+                else get_function_name(t).strip("`"),
+                get_fields([t])[0],
+            )
+            for t in sql.select_evaluator.tokens + unselected
         ]
         reader = DictSet(
             {**row, **{label: row[name] for name, label in names if name in row}} for row in reader
-- 
2.43.0


From 889fe0c7840e8e19ef64e3513cd0715f27c4737e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:22 +0000
Subject: [PATCH 51/85] fix: DATE, TIME, HOUR, MINUTE, SECOND and DAYSDIFF
 failed on dates without a time

---
 mabel/data/readers/internals/inline_functions.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mabel/data/readers/internals/inline_functions.py b/mabel/data/readers/internals/inline_functions.py
index 0168559..ff2f939 100644
--- a/mabel/data/readers/internals/inline_functions.py
+++ b/mabel/data/readers/internals/inline_functions.py
@@ -52,7 +52,7 @@ def get_date(input):
     """
     Convert input to a datetime object and extract the Date part
     """
-    if isinstance(input, str):
+    if isinstance(input, (str, datetime.date)):
         input = parse_iso(input)
     if isinstance(input, (datetime.date, datetime.datetime)):
         return input.date()
@@ -63,7 +63,7 @@ def get_time(input):
     """
     Convert input to a datetime object and extract the Time part
     """
-    if isinstance(input, str):
+    if isinstance(input, (str, datetime.date)):
         input = parse_iso(input)
     if isinstance(input, (datetime.date, datetime.datetime)):
         return input.time()
@@ -85,7 +85,7 @@ def get_hour(input):
     """
     Convert input to a datetime object and extract the Hour part
     """
-    if isinstance(input, str):
+    if isinstance(input, (str, datetime.date)):
         input = parse_iso(input)
     if isinstance(input, (datetime.date, datetime.datetime)):
         return input.hour
@@ -96,7 +96,7 @@ def get_minute(input):
     """
     Convert input to a datetime object and extract the Minute part
     """
-    if isinstance(input, str):
+    if isinstance(input, (str, datetime.date)):
         input = parse_iso(input)
     if isinstance(input, (datetime.date, datetime.datetime)):
         return input.minute
@@ -107,7 +107,7 @@ def get_second(input):
     """
     Convert input to a datetime object and extract the Seconds part
     """
-    if isinstance(input, str):
+    if isinstance(input, (str, datetime.date)):
         input = parse_iso(input)
     if isinstance(input, (datetime.date, datetime.datetime)):
         return input.second
@@ -162,9 +162,9 @@ def add_days(start_date, day_count):
 
 
 def diff_days(start_date, end_date):
-    if isinstance(start_date, str):
+    if isinstance(start_date, (str, datetime.date)):
         start_date = parse_iso(start_date)
-    if isinstance(end_date, str):
+    if isinstance(end_date, (str, datetime.date)):
         end_date = parse_iso(end_date)
     if isinstance(start_date, (datetime.date, datetime.datetime)) and isinstance(
         end_date, (datetime.date, datetime.datetime)
-- 
2.43.0


From 1b774c0ba9fb563a00c14acf5bb511292d1ab6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:22 +0000
Subject: [PATCH 52/85] fix: MD5 gave the hash of another value when they
 compare the same

---
 mabel/data/readers/internals/inline_functions.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mabel/data/readers/internals/inline_functions.py b/mabel/data/readers/internals/inline_functions.py
index ff2f939..5da7ca5 100644
--- a/mabel/data/readers/internals/inline_functions.py
+++ b/mabel/data/readers/internals/inline_functions.py
@@ -6,7 +6,6 @@ These are the function definitions, the processor which uses these is in the
 """
 
 import datetime
-from functools import lru_cache
 from math import trunc
 
 import orjson
@@ -182,7 +181,6 @@ def parse_number(parser, coerce):
     return inner
 
 
-@lru_cache(8)
 def get_md5(item):
     import hashlib
 
-- 
2.43.0


From f619971263104ec1a48d34d32a8e1451fa26f621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:22 +0000
Subject: [PATCH 53/85] fix: RIGHT of no characters returned all of them

---
 mabel/data/readers/internals/inline_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/inline_functions.py b/mabel/data/readers/internals/inline_functions.py
index 5da7ca5..7ccd6a3 100644
--- a/mabel/data/readers/internals/inline_functions.py
+++ b/mabel/data/readers/internals/inline_functions.py
@@ -211,7 +211,7 @@ FUNCTIONS = {
     "LEN": len,
     "STRING": to_string,
     "LEFT": lambda x, y: str(x)[: int(y)],
-    "RIGHT": lambda x, y: str(x)[-int(y) :],
+    "RIGHT": lambda x, y: str(x)[-int(y) :] if int(y) else "",
     "MID": lambda x, y, z: str(x)[int(y) :][: int(z)],
     "CONCAT": concat,
     # NUMBERS
-- 
2.43.0


From ee2b01fb5c9417b16d873c1313c7ca779c1d0888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:22 +0000
Subject: [PATCH 54/85] fix: INTEGER and TRUNC changed large integers

---
 mabel/data/readers/internals/inline_functions.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mabel/data/readers/internals/inline_functions.py b/mabel/data/readers/internals/inline_functions.py
index 7ccd6a3..ef47976 100644
--- a/mabel/data/readers/internals/inline_functions.py
+++ b/mabel/data/readers/internals/inline_functions.py
@@ -172,6 +172,18 @@ def diff_days(start_date, end_date):
     return None
 
 
+def to_number(val):
+    """
+    Integers don't always fit in floats
+    """
+    if isinstance(val, (int, str)):
+        try:
+            return int(val)
+        except ValueError:
+            pass
+    return float(val)
+
+
 def parse_number(parser, coerce):
     def inner(val):
         if val is None:
@@ -216,8 +228,8 @@ FUNCTIONS = {
     "CONCAT": concat,
     # NUMBERS
     "ROUND": round,
-    "TRUNC": parse_number(float, trunc),
-    "INTEGER": parse_number(float, int),
+    "TRUNC": parse_number(to_number, trunc),
+    "INTEGER": parse_number(to_number, int),
     "DOUBLE": parse_number(float, float),
     # BOOLEAN
     "BOOLEAN": lambda x: str(x).upper() != "FALSE",
-- 
2.43.0


From ad88485c8c97e097f4228489a960739bbd40ae42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:50 +0000
Subject: [PATCH 55/85] fix: readers dropped the rest of a blob after a value a
 function can't be applied to

---
 mabel/data/readers/internals/inline_evaluator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mabel/data/readers/internals/inline_evaluator.py b/mabel/data/readers/internals/inline_evaluator.py
index e42febf..76bf6f4 100644
--- a/mabel/data/readers/internals/inline_evaluator.py
+++ b/mabel/data/readers/internals/inline_evaluator.py
@@ -160,11 +160,14 @@ def evaluate_field(dict, token):
             token["as"] = label
         else:
             label = get_label(token)
+        parameters = [evaluate_field(dict, t)[1] for t in token["parameters"]]
+        try:
+            value = FUNCTIONS[str(token["value"]).upper()](*parameters)
+        except (TypeError, ValueError, AttributeError, OverflowError):
+            value = None  # the function can't be applied to these values
         return (
             label,
-            FUNCTIONS[str(token["value"]).upper()](
-                *[evaluate_field(dict, t)[1] for t in token["parameters"]]
-            ),
+            value,
         )
     if token_type == TOKENS.FLOAT:
         return (
-- 
2.43.0


From b48199359535dfeb802c52349e7edaf928ce4533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:17 +0000
Subject: [PATCH 56/85] fix: parse_iso failed on numpy dates in nanoseconds and
 on numbers which are not timestamps

---
 mabel/utils/dates.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mabel/utils/dates.py b/mabel/utils/dates.py
index 61ffe07..cfea1fc 100644
--- a/mabel/utils/dates.py
+++ b/mabel/utils/dates.py
@@ -72,7 +72,8 @@ def parse_iso(
 
         if numpy:
             if isinstance(value, numpy.datetime64):
-                value = value.astype(datetime.datetime)
+                # in microseconds, nanoseconds would become an integer
+                value = value.astype("datetime64[us]").astype(datetime.datetime)
                 input_type = type(value)
 
         if hasattr(value, "to_pydatetime"):
@@ -130,7 +131,7 @@ def parse_iso(
                         )
                     )
         return None
-    except (ValueError, TypeError):
+    except (ValueError, TypeError, OverflowError, OSError):
         return None
 
 
-- 
2.43.0


From 2d20d1cc81295a987c9c18d7e85127651c1d7676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:17 +0000
Subject: [PATCH 57/85] fix: negative offsets were read as seconds

---
 mabel/utils/dates.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mabel/utils/dates.py b/mabel/utils/dates.py
index cfea1fc..de2ba1f 100644
--- a/mabel/utils/dates.py
+++ b/mabel/utils/dates.py
@@ -101,7 +101,9 @@ def parse_iso(
             if val_len >= 16:
                 if not (value[10] in ("T", " ") and value[13] in DATE_SEPARATORS):
                     return None
-                if val_len >= 19 and value[16] in DATE_SEPARATORS:
+                # HH:MM-05:00 is a time and an offset, not hours, minutes and seconds
+                has_offset = val_len > 16 and value[13] == ":" and value[16] == "-"
+                if val_len >= 19 and value[16] in DATE_SEPARATORS and not has_offset:
                     # YYYY-MM-DD HH:MM:SS
                     return datetime.datetime(
                         *map(  # type:ignore
@@ -116,7 +118,7 @@ def parse_iso(
                             ],
                         )
                     )
-                if val_len == 16:
+                if val_len == 16 or has_offset:
                     # YYYY-MM-DD HH:MM
                     return datetime.datetime(
                         *map(  # type:ignore
-- 
2.43.0


From b1d6376e1c5c8375d24cc1ef1a16d124c3bb1e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:42 +0000
Subject: [PATCH 58/85] fix: writers dropped the last part of a dataset or
 partition with a . in its name

---
 mabel/data/writers/internals/base_inner_writer.py | 3 +++
 mabel/data/writers/writer.py                      | 6 +++++-
 mabel/utils/paths.py                              | 5 +++--
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/mabel/data/writers/internals/base_inner_writer.py b/mabel/data/writers/internals/base_inner_writer.py
index 71f56bc..b18cbbb 100644
--- a/mabel/data/writers/internals/base_inner_writer.py
+++ b/mabel/data/writers/internals/base_inner_writer.py
@@ -20,6 +20,9 @@ STEM = "{stem}"
 class BaseInnerWriter(abc.ABC):
     def __init__(self, **kwargs):
         dataset = kwargs.get("dataset")
+        if dataset and not dataset.endswith("/"):
+            # datasets are folders, even when there is a . in their name
+            dataset += "/"
         self.bucket, path, _, _ = paths.get_parts(dataset)
 
         if self.bucket == "/":
diff --git a/mabel/data/writers/writer.py b/mabel/data/writers/writer.py
index 81aba11..564a8f7 100644
--- a/mabel/data/writers/writer.py
+++ b/mabel/data/writers/writer.py
@@ -94,7 +94,11 @@ class Writer:
             self.dataset_template += "/" + "/".join(partitions)
             self.date_partitions = None
 
-        self.dataset = paths.build_path(self.dataset_template, self.batch_date)
+        # end with a / so it's always handled as a folder, even when there is a . in its name
+        folder = self.dataset_template
+        if folder and not folder.endswith("/"):
+            folder += "/"
+        self.dataset = paths.build_path(folder, self.batch_date)
 
         # add the values to kwargs
         # kwargs["raw_path"] = True  # we've just added the dates
diff --git a/mabel/utils/paths.py b/mabel/utils/paths.py
index 4e923c9..4f0aa3a 100644
--- a/mabel/utils/paths.py
+++ b/mabel/utils/paths.py
@@ -21,8 +21,9 @@ def get_parts(path_string: str):
         parts = "partitions"  # type:ignore
         stem = None
         suffix = None
-    elif path.suffix == "":
-        parts = pathlib.PurePosixPath("/".join(path.parts[1:-1])) / path.stem  # type:ignore
+    elif path.suffix == "" or path_string.endswith("/"):
+        # what ends with a / is a folder, even when there is a . in its name
+        parts = pathlib.PurePosixPath("/".join(path.parts[1:-1])) / path.name  # type:ignore
         stem = None
         suffix = None
     else:
-- 
2.43.0


From ff4d1147b11a75d48fea6cf12cf5ffd85a500b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:03 +0000
Subject: [PATCH 59/85] fix: writers accepted datasets named BACKOUT, which are
 never read

---
 mabel/data/writers/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/writers/writer.py b/mabel/data/writers/writer.py
index 564a8f7..9973413 100644
--- a/mabel/data/writers/writer.py
+++ b/mabel/data/writers/writer.py
@@ -45,7 +45,7 @@ class Writer:
         dataset = kwargs.get("dataset", "")
 
         if "BACKOUT" in dataset:
-            InvalidDataSetError("BACKOUT is a reserved word and cannot be used in Dataset names")
+            raise InvalidDataSetError("BACKOUT is a reserved word and cannot be used in Dataset names")
         if dataset.endswith("/"):
             InvalidDataSetError("Dataset names cannot end with /")
         if "{" in dataset or "}" in dataset:
-- 
2.43.0


From f44da1822fb031eb49f092d9b92d69ce207189c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:41 +0000
Subject: [PATCH 60/85] fix: paths of folders can be Path objects

---
 mabel/utils/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/utils/paths.py b/mabel/utils/paths.py
index 4f0aa3a..3715913 100644
--- a/mabel/utils/paths.py
+++ b/mabel/utils/paths.py
@@ -21,7 +21,7 @@ def get_parts(path_string: str):
         parts = "partitions"  # type:ignore
         stem = None
         suffix = None
-    elif path.suffix == "" or path_string.endswith("/"):
+    elif path.suffix == "" or str(path_string).endswith("/"):
         # what ends with a / is a folder, even when there is a . in its name
         parts = pathlib.PurePosixPath("/".join(path.parts[1:-1])) / path.name  # type:ignore
         stem = None
-- 
2.43.0


From 7630092b0b2ca10fdc2e9fb80507f6c3189fe415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:22 +0000
Subject: [PATCH 61/85] fix: object storage readers looked outside of folders
 with a . in their name

---
 mabel/adapters/google/google_cloud_storage_reader.py | 3 ++-
 mabel/adapters/minio/minio_reader.py                 | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mabel/adapters/google/google_cloud_storage_reader.py b/mabel/adapters/google/google_cloud_storage_reader.py
index 4f5d735..1d4a1d4 100644
--- a/mabel/adapters/google/google_cloud_storage_reader.py
+++ b/mabel/adapters/google/google_cloud_storage_reader.py
@@ -37,7 +37,8 @@ class GoogleCloudStorageReader(BaseInnerReader):
         return stream
 
     def get_blobs_at_path(self, path):
-        bucket, object_path, name, extension = paths.get_parts(path)
+        # end with a / so it's always handled as a folder, even when there is a . in its name
+        bucket, object_path, name, extension = paths.get_parts(f"{path}/")
 
         # this means we're testing
         if os.environ.get("STORAGE_EMULATOR_HOST") is not None:
diff --git a/mabel/adapters/minio/minio_reader.py b/mabel/adapters/minio/minio_reader.py
index 5d3fffc..112d2d5 100644
--- a/mabel/adapters/minio/minio_reader.py
+++ b/mabel/adapters/minio/minio_reader.py
@@ -34,7 +34,8 @@ class MinIoReader(BaseInnerReader):
         self.minio = Minio(end_point, access_key, secret_key, secure=secure)
 
     def get_blobs_at_path(self, path):
-        bucket, object_path, _, _ = paths.get_parts(path)
+        # end with a / so it's always handled as a folder, even when there is a . in its name
+        bucket, object_path, _, _ = paths.get_parts(f"{path}/")
         for cycle_date in dates.date_range(self.start_date, self.end_date):
             cycle_path = paths.build_path(path=object_path, date=cycle_date)
             blobs = self.minio.list_objects(bucket_name=bucket, prefix=cycle_path, recursive=True)
-- 
2.43.0


From a1d3d7ebbcae58c42b1837c716c487a66788b400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:22 +0000
Subject: [PATCH 62/85] fix: empty frames were completed in the wrong folder of
 Google Cloud Storage

---
 mabel/adapters/google/google_cloud_storage_writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/adapters/google/google_cloud_storage_writer.py b/mabel/adapters/google/google_cloud_storage_writer.py
index f15d32b..f9eca7d 100644
--- a/mabel/adapters/google/google_cloud_storage_writer.py
+++ b/mabel/adapters/google/google_cloud_storage_writer.py
@@ -27,6 +27,8 @@ class GoogleCloudStorageWriter(BaseInnerWriter):
 
         super().__init__(**kwargs)
         self.credentials = credentials
+        # set before anything is committed, the name of frame.complete is based on it
+        self.filename = self.filename_without_bucket
 
         predicate = retry.if_exception_type(
             ConnectionResetError, ProtocolError, InternalServerError, TooManyRequests
@@ -40,7 +42,6 @@ class GoogleCloudStorageWriter(BaseInnerWriter):
         else:  # pragma: no cover
             client = storage.Client(credentials=self.credentials)
         self.gcs_bucket = client.get_bucket(self.bucket)
-        self.filename = self.filename_without_bucket
 
         # if we've been given the filename, use that, otherwise get the
         # name from the path builder
-- 
2.43.0


From 31ae77450f591bca84204a4b47b3ec123e86efb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:22 +0000
Subject: [PATCH 63/85] fix: MinIO blobs were listed once for each hour read

---
 mabel/adapters/minio/minio_reader.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/mabel/adapters/minio/minio_reader.py b/mabel/adapters/minio/minio_reader.py
index 112d2d5..11f64ba 100644
--- a/mabel/adapters/minio/minio_reader.py
+++ b/mabel/adapters/minio/minio_reader.py
@@ -4,7 +4,6 @@ MinIo Reader - also works with AWS
 
 from ...data.readers.internals.base_inner_reader import BaseInnerReader
 from ...errors import MissingDependencyError
-from ...utils import dates
 from ...utils import paths
 
 try:
@@ -36,15 +35,14 @@ class MinIoReader(BaseInnerReader):
     def get_blobs_at_path(self, path):
         # end with a / so it's always handled as a folder, even when there is a . in its name
         bucket, object_path, _, _ = paths.get_parts(f"{path}/")
-        for cycle_date in dates.date_range(self.start_date, self.end_date):
-            cycle_path = paths.build_path(path=object_path, date=cycle_date)
-            blobs = self.minio.list_objects(bucket_name=bucket, prefix=cycle_path, recursive=True)
-
-            yield from [
-                bucket + "/" + blob.object_name
-                for blob in blobs
-                if not blob.object_name.endswith("/")
-            ]
+        # we're called for each of the folders in the date range
+        blobs = self.minio.list_objects(bucket_name=bucket, prefix=object_path, recursive=True)
+
+        yield from [
+            bucket + "/" + blob.object_name
+            for blob in blobs
+            if not blob.object_name.endswith("/")
+        ]
 
     def get_blob_bytes(self, blob_name: str) -> bytes:
         try:
-- 
2.43.0


From af960ba2184a8bc62cb799beed63423035991bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:22 +0000
Subject: [PATCH 64/85] fix: the credentials given to read Google Cloud Storage
 were ignored

---
 mabel/adapters/google/google_cloud_storage_reader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mabel/adapters/google/google_cloud_storage_reader.py b/mabel/adapters/google/google_cloud_storage_reader.py
index 1d4a1d4..d09d5b5 100644
--- a/mabel/adapters/google/google_cloud_storage_reader.py
+++ b/mabel/adapters/google/google_cloud_storage_reader.py
@@ -32,6 +32,7 @@ class GoogleCloudStorageReader(BaseInnerReader):
         blob = get_blob(
             bucket=bucket,
             blob_name=object_path + name + extension,
+            credentials=self.credentials,
         )
         stream = blob.download_as_bytes()
         return stream
@@ -44,7 +45,7 @@ class GoogleCloudStorageReader(BaseInnerReader):
         if os.environ.get("STORAGE_EMULATOR_HOST") is not None:
             client = storage.Client(credentials=AnonymousCredentials())
         else:  # pragma: no cover
-            client = storage.Client()
+            client = storage.Client(credentials=self.credentials)
 
         gcs_bucket = client.get_bucket(bucket)
         blobs = list(client.list_blobs(bucket_or_name=gcs_bucket, prefix=object_path))
@@ -52,12 +53,12 @@ class GoogleCloudStorageReader(BaseInnerReader):
         yield from [bucket + "/" + blob.name for blob in blobs if not blob.name.endswith("/")]
 
 
-def get_blob(bucket: str = None, blob_name: str = None):
+def get_blob(bucket: str = None, blob_name: str = None, credentials=None):
     # this means we're testing
     if os.environ.get("STORAGE_EMULATOR_HOST") is not None:
         client = storage.Client(credentials=AnonymousCredentials())
     else:  # pragma: no cover
-        client = storage.Client()
+        client = storage.Client(credentials=credentials)
 
     gcs_bucket = client.get_bucket(bucket)
     blob = gcs_bucket.get_blob(blob_name)
-- 
2.43.0


From fd8ef5abc4b83464f7e2173b7bdade2e9c30a7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:02 +0000
Subject: [PATCH 65/85] fix: nulls, lists and nested records became text when
 read with multiple processes

---
 mabel/data/readers/internals/multiprocess_wrapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mabel/data/readers/internals/multiprocess_wrapper.py b/mabel/data/readers/internals/multiprocess_wrapper.py
index 94de6ba..02cb0a0 100644
--- a/mabel/data/readers/internals/multiprocess_wrapper.py
+++ b/mabel/data/readers/internals/multiprocess_wrapper.py
@@ -25,14 +25,14 @@ MAXIMUM_SECONDS_PROCESSES_CAN_RUN = 600
 def fix_dict(obj: dict) -> dict:
     def fix_fields(dt):
         dt_type = type(dt)
-        if dt_type in (int, float, bool, str):
+        if dt is None or dt_type in (int, float, bool, str):
             return dt
         if hasattr(dt, "mini"):
             return dt.mini.decode("UTF8")
         if dt_type == dict:
-            return str(fix_dict(dt))
+            return fix_dict(dt)
         if dt_type in (list, tuple, set):
-            return str([fix_fields(i) for i in dt])
+            return [fix_fields(i) for i in dt]
         if dt_type in (datetime.date, datetime.datetime):
             return dt.isoformat()
         if dt_type == bytes:
-- 
2.43.0


From feaa1fb6d34cc215ee3edaf9c3d2e24536f82d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:12 +0000
Subject: [PATCH 66/85] fix: reading with multiple processes never ended when
 records were taken slowly or not all taken

---
 mabel/data/readers/internals/multiprocess_wrapper.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mabel/data/readers/internals/multiprocess_wrapper.py b/mabel/data/readers/internals/multiprocess_wrapper.py
index 02cb0a0..b48286a 100644
--- a/mabel/data/readers/internals/multiprocess_wrapper.py
+++ b/mabel/data/readers/internals/multiprocess_wrapper.py
@@ -109,11 +109,9 @@ def processed_reader(func, items_to_read, support_files):  # pragma: no cover
     process_start_time = time.time()
     item_index = slots
 
-    while (
-        any({p.is_alive() for p in process_pool})
-        or not reply_queue.empty()
-        or not send_queue.empty()
-    ):
+    # a process which found nothing to do has ended without taking its signal to terminate
+    # from the send queue, so there's nothing to wait for once all of them have ended
+    while any({p.is_alive() for p in process_pool}) or not reply_queue.empty():
         try:
             records = reply_queue.get(timeout=1)
             yield from map(json, [r for r in lz4.frame.decompress(records).split(b"\n") if r])
@@ -138,4 +136,6 @@ def processed_reader(func, items_to_read, support_files):  # pragma: no cover
     reply_queue.join_thread()
     send_queue.join_thread()
     for process in process_pool:
+        # they have already ended, unless we stopped early
+        process.terminate()
         process.join()
-- 
2.43.0


From 7ee52db6321953c67c8acebbd3e6203ec33c2f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:32 +0000
Subject: [PATCH 67/85] fix: writers could not be given credentials

---
 mabel/data/writers/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/writers/writer.py b/mabel/data/writers/writer.py
index 9973413..d76d3e6 100644
--- a/mabel/data/writers/writer.py
+++ b/mabel/data/writers/writer.py
@@ -110,7 +110,7 @@ class Writer:
         arg_dict["inner_writer"] = (
             f"{arg_dict.get('inner_writer', type(None)).__name__}"
         )  # type:ignore
-        logger.debug(orjson.dumps(arg_dict))
+        logger.debug(orjson.dumps(arg_dict, default=str))
 
         # add the schema to the writer - pyarrow uses this
         # add after the config has been written to the logs
-- 
2.43.0


From a5567ad925e53b80e5a87fcc5a0fe6612ee56e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:43 +0000
Subject: [PATCH 68/85] fix: readers refused credentials for Google Cloud
 Storage

---
 mabel/adapters/google/google_cloud_storage_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mabel/adapters/google/google_cloud_storage_reader.py b/mabel/adapters/google/google_cloud_storage_reader.py
index d09d5b5..a9c1f14 100644
--- a/mabel/adapters/google/google_cloud_storage_reader.py
+++ b/mabel/adapters/google/google_cloud_storage_reader.py
@@ -18,6 +18,8 @@ except ImportError:  # pragma: no cover
 
 
 class GoogleCloudStorageReader(BaseInnerReader):
+    RULES = [{"name": "credentials", "required": False}]
+
     def __init__(self, credentials=None, **kwargs):
         if not google_cloud_storage_installed:  # pragma: no cover
             raise MissingDependencyError(
-- 
2.43.0


From 91330616d6e8a5294010a5120fa902e29e671716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:07 +0000
Subject: [PATCH 69/85] fix: rendered errors showed the last line of a file as
 its line 0

---
 mabel/errors/render_error_stack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/errors/render_error_stack.py b/mabel/errors/render_error_stack.py
index 2b3aa5b..b7c952d 100644
--- a/mabel/errors/render_error_stack.py
+++ b/mabel/errors/render_error_stack.py
@@ -123,7 +123,7 @@ def _read_from_code(filename: str, line: int, extend_by: int) -> Generator:
             code = code_file.read()
 
         lines = code.splitlines()
-        start_line = max(line - extend_by, 0)
+        start_line = max(line - extend_by, 1)
         end_line = min(line + extend_by + 1, len(lines) + 1)
 
         path = pathlib.Path(filename)
-- 
2.43.0


From ae8bed3ad5efed6b2ca772c705e9d0ea46ee625c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:53 +0000
Subject: [PATCH 70/85] fix: errors could not be rendered when a local or the
 error can't be turned into text

---
 mabel/errors/render_error_stack.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mabel/errors/render_error_stack.py b/mabel/errors/render_error_stack.py
index b7c952d..3e94dfe 100644
--- a/mabel/errors/render_error_stack.py
+++ b/mabel/errors/render_error_stack.py
@@ -60,6 +60,16 @@ def bar_label(label):
         return "-" * LINE_LENGTH
 
 
+def _safe_text(value):
+    """
+    Values can fail when they are turned into text, this shouldn't hide the error.
+    """
+    try:
+        return f"{value}"
+    except Exception as e:
+        return f"<{type(value).__name__} can't be shown, {type(e).__name__}>"
+
+
 def _build_error_stack():
     exc_type, exc_value, traceback = sys.exc_info()
 
@@ -71,7 +81,7 @@ def _build_error_stack():
     is_cause = False
 
     while True:
-        stack = Stack(exc_type=str(exc_type.__name__), exc_value=str(exc_value), is_cause=is_cause)
+        stack = Stack(exc_type=str(exc_type.__name__), exc_value=_safe_text(exc_value), is_cause=is_cause)
 
         stacks.append(stack)
         append = stack.frames.append
@@ -114,7 +124,7 @@ def _render_locals(locals):
         yield bar_label("locals")
         max_label_len = max([len(key) for key, value in locals.items()])
         for key, value in locals.items():
-            yield f"  {key:<{max_label_len}} : {value}"
+            yield f"  {key:<{max_label_len}} : {_safe_text(value)}"
 
 
 def _read_from_code(filename: str, line: int, extend_by: int) -> Generator:
-- 
2.43.0


From 86e852aeb44467f63646c8d407e0eeeec1a71e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:15 +0000
Subject: [PATCH 71/85] fix: rendering errors which are the cause of each other
 never ended

---
 mabel/errors/render_error_stack.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mabel/errors/render_error_stack.py b/mabel/errors/render_error_stack.py
index 3e94dfe..7edf5e7 100644
--- a/mabel/errors/render_error_stack.py
+++ b/mabel/errors/render_error_stack.py
@@ -79,8 +79,11 @@ def _build_error_stack():
 
     stacks = []
     is_cause = False
+    # errors can, indirectly, be the cause of themselves
+    seen = set()
 
     while True:
+        seen.add(id(exc_value))
         stack = Stack(exc_type=str(exc_type.__name__), exc_value=_safe_text(exc_value), is_cause=is_cause)
 
         stacks.append(stack)
@@ -98,7 +101,7 @@ def _build_error_stack():
             append(frame)
 
         cause = getattr(exc_value, "__cause__", None)
-        if cause and cause.__traceback__:
+        if cause and cause.__traceback__ and id(cause) not in seen:
             exc_type = cause.__class__
             exc_value = cause
             traceback = cause.__traceback__
@@ -107,7 +110,12 @@ def _build_error_stack():
                 continue
 
         cause = exc_value.__context__
-        if cause and cause.__traceback__ and not getattr(exc_value, "__suppress_context__", False):
+        if (
+            cause
+            and cause.__traceback__
+            and id(cause) not in seen
+            and not getattr(exc_value, "__suppress_context__", False)
+        ):
             exc_type = cause.__class__
             exc_value = cause
             traceback = cause.__traceback__
-- 
2.43.0


From 0ee6f70b73069c95ad81065168f2e6489d4063d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:18 +0000
Subject: [PATCH 72/85] fix: write a record once to a folder two of its list
 values lead to

---
 mabel/data/writers/stream_writer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mabel/data/writers/stream_writer.py b/mabel/data/writers/stream_writer.py
index 4d233a4..22ec142 100644
--- a/mabel/data/writers/stream_writer.py
+++ b/mabel/data/writers/stream_writer.py
@@ -142,13 +142,17 @@ class StreamWriter(Writer):
             # save the result to a set otherwise it's not a cartesian product
             value_combinations = {i for i in itertools.product(*values)}
 
+            # values which read the same once sanitized share a folder
+            identities = set()
             # for every variation in the cartesian product
             for values in value_combinations:  # type:ignore
                 this_identity = identity
                 # do the actual replacing of the placeholders
                 for k, v in zip(placeholders, values):
                     this_identity = this_identity.replace("{" + k + "}", text.sanitize(str(v)))
+                identities.add(this_identity)
 
+            for this_identity in identities:
                 # get the writer and save the record
                 blob_writer = self.writer_pool.get_writer(this_identity)
                 blob_writer.append(record)
-- 
2.43.0


From 22f7f55cde07bc9e8f7030a5a8392e8fc5594d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:37 +0000
Subject: [PATCH 73/85] fix: datasets named like a frame or a partitioning were
 not, or wrongly, read

---
 .../readers/internals/base_inner_reader.py    | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index c00b09a..788c465 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -111,10 +111,15 @@ class BaseInnerReader(abc.ABC):
                 # so we don't want to include in when reading
                 cycle_blobs = [blob for blob in cycle_blobs if "BACKOUT" not in blob]
 
+                # partitions and frames are folders below the dataset, the name of the
+                # dataset itself may look like one
+                def below(blob, folder=cycle_path.as_posix()):
+                    return blob[len(folder) :] if blob.startswith(folder) else blob
+
                 # The partitions are stored in folders with the prefix 'by_', as in,
                 # partitioned **by** field name
                 list_of_partitions = {
-                    self._extract_by(blob) for blob in cycle_blobs if "/by_" in blob
+                    self._extract_by(below(blob)) for blob in cycle_blobs if "/by_" in below(blob)
                 }
 
                 # If we've been provided a partition_filter search hint, try to use this
@@ -159,7 +164,9 @@ class BaseInnerReader(abc.ABC):
                             f"Ignoring {len(list_of_partitions)} 'by' partitionings, reading from '{chosen_partition}'"
                         )
                     # Do the pruning
-                    cycle_blobs = [blob for blob in cycle_blobs if f"/{chosen_partition}/" in blob]
+                    cycle_blobs = [
+                        blob for blob in cycle_blobs if f"/{chosen_partition}/" in below(blob)
+                    ]
 
                 def safe_get_next(lst, item):
                     try:
@@ -174,7 +181,7 @@ class BaseInnerReader(abc.ABC):
                     partitioned_folders = {""}
                 else:
                     partitioned_folders = {
-                        safe_get_next(blob.split("/"), chosen_partition) for blob in cycle_blobs
+                        safe_get_next(below(blob).split("/"), chosen_partition) for blob in cycle_blobs
                     }
 
                 for partitioned_folder in partitioned_folders:
@@ -182,12 +189,14 @@ class BaseInnerReader(abc.ABC):
                         blob
                         for blob in cycle_blobs
                         if chosen_partition == ""
-                        or safe_get_next(blob.split("/"), chosen_partition) == partitioned_folder
+                        or safe_get_next(below(blob).split("/"), chosen_partition) == partitioned_folder
                     ]
 
                     # Work out if there's an as_at part
                     as_ats = {
-                        self._extract_as_at(blob) for blob in partitioned_blobs if "as_at_" in blob
+                        self._extract_as_at(below(blob))
+                        for blob in partitioned_blobs
+                        if "/as_at_" in below(blob)
                     }
                     if as_ats:
                         as_ats = sorted(as_ats)
-- 
2.43.0


From 09d9dcea9f92588d2da44cc3823add88866a3a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:52 +0000
Subject: [PATCH 74/85] fix: frames whose names start alike were read together

---
 mabel/data/readers/internals/base_inner_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index 788c465..51b0a94 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -233,7 +233,7 @@ class BaseInnerReader(abc.ABC):
                             partitioned_blobs = [
                                 blob
                                 for blob in partitioned_blobs
-                                if (as_at in blob) and ("/frame.complete" not in blob)
+                                if (f"/{as_at}/" in blob) and ("/frame.complete" not in blob)
                             ]
 
                     blobs += partitioned_blobs
-- 
2.43.0


From e27be0806d60ab54b6ca47825ed95008b5712114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:44 +0000
Subject: [PATCH 75/85] fix: stream writers stored records which don't meet the
 expectations

---
 mabel/data/writers/stream_writer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mabel/data/writers/stream_writer.py b/mabel/data/writers/stream_writer.py
index 22ec142..d4ddbd5 100644
--- a/mabel/data/writers/stream_writer.py
+++ b/mabel/data/writers/stream_writer.py
@@ -113,9 +113,15 @@ class StreamWriter(Writer):
         if hasattr(record, "dump_model"):
             record = record.dump_model()
 
-        elif self.schema:
+        elif self.schema or self.expectations:
             try:
-                self.schema.validate(record)
+                if self.expectations:
+                    import data_expectations as de  # type: ignore
+
+                    de.evaluate_record(self.expectations, record)
+
+                if self.schema:
+                    self.schema.validate(record)
             except Exception as e:
                 identity += "/BACKOUT/"
                 get_logger().warning(
-- 
2.43.0


From 0e392e85971ed6bcd88bb184d2fa03bf4ea01533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:48 +0000
Subject: [PATCH 76/85] fix: a null in the list of an IN condition is null, not
 the text 'UL'

---
 mabel/data/internals/expression.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mabel/data/internals/expression.py b/mabel/data/internals/expression.py
index f52da76..d4eb0d9 100644
--- a/mabel/data/internals/expression.py
+++ b/mabel/data/internals/expression.py
@@ -189,7 +189,10 @@ class Expression(object):
                     self.tokenizer.has_next()
                     and self.tokenizer.next_token_type() != TOKENS.RIGHTPARENTHESES
                 ):
-                    if self.tokenizer.next_token_type() != TOKENS.COMMA:
+                    if self.tokenizer.next_token_type() == TOKENS.NULL:
+                        self.tokenizer.next()
+                        collector.append(None)
+                    elif self.tokenizer.next_token_type() != TOKENS.COMMA:
                         collector.append(self.interpret_value(self.tokenizer.next()))
                     else:
                         self.tokenizer.next()
-- 
2.43.0


From 60e01007339907ce5ecb4a8d575efcdbe9f64140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:00 +0000
Subject: [PATCH 77/85] fix: a record which can't be read back cost the records
 after it in its blob

---
 mabel/data/writers/internals/blob_writer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mabel/data/writers/internals/blob_writer.py b/mabel/data/writers/internals/blob_writer.py
index 2ad72a9..921c9e7 100644
--- a/mabel/data/writers/internals/blob_writer.py
+++ b/mabel/data/writers/internals/blob_writer.py
@@ -79,7 +79,9 @@ class BlobWriter(object):
             try:
                 serialized = orjson.dumps(record) + b"\n"  # type:ignore
             except TypeError:
-                serialized = json.dumps(record).encode() + b"\n"
+                serialized = json.dumps(record, allow_nan=False).encode() + b"\n"
+                # refuse what can't be read back, it stops the rest of the blob being read
+                orjson.loads(serialized)
 
         # the newline isn't counted so add 1 to get the actual length if this write
         # would exceed the blob size, close it so another blob will be created
-- 
2.43.0


From 6bbbbb65cf1bfea0e0a8442f024fbb02dd4144a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:13 +0000
Subject: [PATCH 78/85] fix: flattening named what lies below an empty name as
 if it lay above it

---
 mabel/data/internals/records.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mabel/data/internals/records.py b/mabel/data/internals/records.py
index e7cac4d..4309129 100644
--- a/mabel/data/internals/records.py
+++ b/mabel/data/internals/records.py
@@ -76,7 +76,9 @@ def flatten(dictionary: MutableMapping[Any, Any], separator: str = ".", parent_k
     """
     items = []
     for key, value in dictionary.items():
-        new_key = str(parent_key) + separator + key if parent_key else key
+        # names can be empty, this isn't the same as there being no parent
+        is_nested = parent_key is not False and parent_key is not None
+        new_key = str(parent_key) + separator + key if is_nested else key
         if hasattr(value, "items"):
             items.extend(flatten(dictionary=value, separator=separator, parent_key=new_key).items())
         elif isinstance(value, list):
-- 
2.43.0


From 1bde8369a773ddf76f1c6dc4bd475bb2417eb8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:36 +0000
Subject: [PATCH 79/85] fix: loading a schema changed the definition it was
 given

---
 mabel/data/validator/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mabel/data/validator/__init__.py b/mabel/data/validator/__init__.py
index a1ad905..050afcb 100644
--- a/mabel/data/validator/__init__.py
+++ b/mabel/data/validator/__init__.py
@@ -31,6 +31,8 @@ def schema_loader(
             definition = orjson.loads(definition)  # type:ignore
 
     if isinstance(definition, dict):
+        # the definition is the caller's, they may use it again
+        definition = dict(definition)
         if definition.get("fields"):  # type:ignore
             definition["columns"] = definition.pop("fields")  # type:ignore
 
-- 
2.43.0


From 57533f03174b34d12c35622b48f95ab79dbb4f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:51 +0000
Subject: [PATCH 80/85] fix: collecting without duplicates failed on records
 which hold lists or records

---
 mabel/data/internals/collected_set.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mabel/data/internals/collected_set.py b/mabel/data/internals/collected_set.py
index 831f48e..398d3f2 100644
--- a/mabel/data/internals/collected_set.py
+++ b/mabel/data/internals/collected_set.py
@@ -32,8 +32,10 @@ class CollectedSet:
             key = my_item.pop(column, None)
             collections.setdefault(key, []).append(my_item)
         if dedupe:
+            # the values of the items may not be hashable
             collections = {
-                k: {frozenset(i.items()): i for i in v}.values() for k, v in collections.items()
+                k: {repr(sorted(i.items(), key=lambda f: str(f[0]))): i for i in v}.values()
+                for k, v in collections.items()
             }
 
         self._collections = collections
-- 
2.43.0


From ad29ad22ad05eabcd6381f7f61ac21b5063e7cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:54 +0000
Subject: [PATCH 81/85] fix: copies of a record cancelled each other out in the
 hash of a set

---
 mabel/data/internals/dictset.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index e87bad7..727b07d 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -25,6 +25,7 @@ limitations under the License.
 
 import os
 import statistics
+from collections import Counter
 from enum import Enum
 from functools import reduce
 from typing import Any
@@ -536,7 +537,18 @@ class DictSet(object):
         #   703115 = 8 days, 3 hours, 18 minutes, 35 seconds
         ordered = map(lambda record: dict(sorted(record.items())), iter(self._iterator))
         serialized = map(orjson.dumps, ordered)
-        hashed = map(CityHash64, serialized)
+        # copies of a record are hashed with their number, otherwise they'd cancel each
+        # other out
+        copies = Counter()
+
+        def hash_record(record):
+            hashed = CityHash64(record)
+            copies[hashed] += 1
+            if copies[hashed] == 1:
+                return hashed
+            return CityHash64(record + str(copies[hashed]).encode())
+
+        hashed = map(hash_record, serialized)
         return reduce(lambda x, y: x ^ y, hashed, seed)
 
     def __repr__(self):  # pragma: no cover
-- 
2.43.0


From 0c435374e87cbd339cb52e01d1d6bfb4b12fd021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:54 +0000
Subject: [PATCH 82/85] fix: the order of the fields of nested records changed
 the hash of a set

---
 mabel/data/internals/dictset.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 727b07d..2d352ea 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -535,8 +535,11 @@ class DictSet(object):
         """
         # The seed is the mission duration of the Apollo 11 mission.
         #   703115 = 8 days, 3 hours, 18 minutes, 35 seconds
-        ordered = map(lambda record: dict(sorted(record.items())), iter(self._iterator))
-        serialized = map(orjson.dumps, ordered)
+        # the order of the fields doesn't matter, also not of those in nested records
+        serialized = map(
+            lambda record: orjson.dumps(dict(record.items()), option=orjson.OPT_SORT_KEYS),
+            iter(self._iterator),
+        )
         # copies of a record are hashed with their number, otherwise they'd cancel each
         # other out
         copies = Counter()
-- 
2.43.0


From ce6213abc3abec68ad600b4e38d0d61db215d329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:38 +0000
Subject: [PATCH 83/85] fix: fractions over a half selected every record for a
 sample

---
 mabel/data/internals/dictset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 2d352ea..d90b424 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -147,10 +147,11 @@ class DictSet(object):
         """
 
         def inner_sampler(dictset):
-            selector = int(1 / fraction)
+            # of the 65536 values two bytes can have, this many select the record
+            selected = round(fraction * 65536)
             for row in dictset:
                 random_value = int.from_bytes(os.urandom(2), "big")
-                if random_value % selector == 0:
+                if random_value < selected:
                     yield row
 
         return DictSet(inner_sampler(iter(self._iterator)), storage_class=self.storage_class)
-- 
2.43.0


From 7dbde76a2e3bd925e3efcd6f06e13ccc26ad4ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:14 +0000
Subject: [PATCH 84/85] fix: csv files with long values were not read

---
 mabel/data/readers/internals/decompressors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/decompressors.py b/mabel/data/readers/internals/decompressors.py
index aafb8cd..9daf1dc 100644
--- a/mabel/data/readers/internals/decompressors.py
+++ b/mabel/data/readers/internals/decompressors.py
@@ -79,5 +79,8 @@ def csv(stream):
     import csv
     import io
 
+    text = stream.read().decode("utf8")
+    # values can be longer than the parser allows by default
+    csv.field_size_limit(max(csv.field_size_limit(), len(text)))
     # values can have line breaks in them, so leave splitting into lines to the csv parser
-    yield from csv.DictReader(io.StringIO(stream.read().decode("utf8"), newline=""))
+    yield from csv.DictReader(io.StringIO(text, newline=""))
-- 
2.43.0


From a65ad4919a2e7fd86848e7203a9fee7c61711282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:40 +0000
Subject: [PATCH 85/85] fix: values of any kind are escaped in HTML tables

---
 mabel/data/internals/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/display.py b/mabel/data/internals/display.py
index 5711056..037186f 100644
--- a/mabel/data/internals/display.py
+++ b/mabel/data/internals/display.py
@@ -27,7 +27,7 @@ def html_table(dictset: Iterable[dict], limit: int = 5):
         if hasattr(htmlstring, "items"):
             return sanitize("{ " + ", ".join([f'"{k}": {v}' for k, v in htmlstring.items()]) + " }")
         if not isinstance(htmlstring, str):
-            return htmlstring
+            htmlstring = str(htmlstring)
         escapes = {'"': "&quot;", "'": "&#39;", "<": "&lt;", ">": "&gt;", "$": "&#x24;"}
         # This is done first to prevent escaping other escapes.
         htmlstring = htmlstring.replace("&", "&amp;")
-- 
2.43.0

