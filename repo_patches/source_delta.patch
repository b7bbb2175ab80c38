From f358dafc0acf435ccef38ae4e3bc5d838aad69bb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:47 +0000
Subject: [PATCH 01/36] fix: TaskManager.wait passed self twice to
 aggregate_results and always raised

---
 openquake/commonlib/parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index 5da89ee..adb287e 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -257,7 +257,7 @@ class TaskManager(object):
 
         :returns: the total number of tasks that were spawned
         """
-        return self.aggregate_results(self, lambda acc, res: acc + 1, 0)
+        return self.aggregate_results(lambda acc, res: acc + 1, 0)
 
 
 def map_reduce(function, function_args, agg, acc, name=None):
-- 
2.43.0


From b35dc7884894694302ba5300ca8a0fdcf95b8635 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:47 +0000
Subject: [PATCH 02/36] fix: safely_call raised if the message of the exception
 was not convertible to str

---
 openquake/commonlib/parallel.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index adb287e..69e6477 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -69,6 +69,16 @@ def check_mem_usage(mem_percent=80):
         logging.warn('Using over %d%% of the memory!', used_mem_percent)
 
 
+def exception_repr(exc):
+    """
+    An ASCII representation of an exception, whatever its message is
+    """
+    try:
+        return repr(exc.args)
+    except Exception:
+        return '<unprintable message>'
+
+
 def safely_call(func, args, pickle=False):
     """
     Call the given function with the given arguments safely, i.e.
@@ -90,7 +100,11 @@ def safely_call(func, args, pickle=False):
     except:
         etype, exc, tb = sys.exc_info()
         tb_str = ''.join(traceback.format_tb(tb))
-        res = '\n%s%s: %s' % (tb_str, etype.__name__, exc), etype
+        try:
+            msg = str(exc)
+        except Exception:  # the message cannot be converted into a str
+            msg = exception_repr(exc)
+        res = '\n%s%s: %s' % (tb_str, etype.__name__, msg), etype
     if pickle:
         return Pickled(res)
     return res
-- 
2.43.0


From ef2f371e084fee1de7236b4a84ab9c07ac81db2c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:47 +0000
Subject: [PATCH 03/36] fix: pickle_sequence mixed up objects garbage collected
 and reallocated with the same id

---
 openquake/commonlib/parallel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index 69e6477..313fa29 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -176,9 +176,11 @@ def pickle_sequence(objects):
     """
     cache = {}
     out = []
+    alive = []  # keeps the objects alive, so that an id is never reused
     for obj in objects:
         obj_id = id(obj)
         if obj_id not in cache:
+            alive.append(obj)
             if isinstance(obj, Pickled):  # already pickled
                 cache[obj_id] = obj
             else:  # pickle the object
-- 
2.43.0


From 427e40bdf5721e0f26b412ee5fa1125dfe86742e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:06 +0000
Subject: [PATCH 04/36] fix: PerformanceMonitor raised on dead processes and
 mixed up the deltas of the others

---
 openquake/commonlib/parallel.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index 313fa29..29b13d8 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -344,7 +344,7 @@ class PerformanceMonitor(object):
         for proc in list(self._procs):
             try:
                 rss = proc.get_memory_info().rss
-            except psutil.AccessDenied:
+            except (psutil.AccessDenied, psutil.NoSuchProcess):
                 # no access to information about this process
                 # don't not try to check it anymore
                 self._procs.remove(proc)
@@ -358,13 +358,17 @@ class PerformanceMonitor(object):
         self._start_time = time.time()
         self.start_time = datetime.fromtimestamp(self._start_time)
         self.start_mem = self.measure_mem()
+        self._start_procs = list(self._procs)  # the ones in start_mem
         return self
 
     def __exit__(self, etype, exc, tb):
         "Call .stop"
         self.exc = exc
         self.stop_mem = self.measure_mem()
-        self.mem = [m2 - m1 for m1, m2 in zip(self.start_mem, self.stop_mem)]
+        # consider only the processes measured both at start and at stop
+        start_mem = [m for proc, m in zip(self._start_procs, self.start_mem)
+                     if proc in self._procs]
+        self.mem = [m2 - m1 for m1, m2 in zip(start_mem, self.stop_mem)]
         self.duration = time.time() - self._start_time
         self.on_exit()
 
-- 
2.43.0


From aa666ce857c0de02502b39cd08703600fb99d4b6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:15 +0000
Subject: [PATCH 05/36] fix: the readers of the same file of a MemArchive
 shared their position

---
 openquake/commonlib/csvmanager.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 8d58bd4..0cd7f09 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -73,9 +73,9 @@ class FileObject(FileWrapper):
         self.fileobj = StringIO.StringIO(bytestring)
 
     def close(self):
-        data = self.fileobj.getvalue()
+        self.bytestring = self.fileobj.getvalue()
         self.fileobj.close()
-        self.fileobj = StringIO.StringIO(data)
+        self.fileobj = StringIO.StringIO(self.bytestring)
 
 
 class NotInArchive(Exception):
@@ -219,9 +219,10 @@ class MemArchive(Archive):
             self.dic[name] = f = FileObject(name, '')
             return f
         try:
-            return self.dic[name]
+            bytestring = self.dic[name].bytestring
         except KeyError:
             raise NotInArchive(name)
+        return FileObject(name, bytestring)  # independent of other readers
 
     def extract_filenames(self, prefix=''):
         """
-- 
2.43.0


From 90fe28051d687edddc1ecb599fb11e5d4385cc16 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:15 +0000
Subject: [PATCH 06/36] fix: a missing file raised NotInArchive only for
 MemArchive and unreadable files were reported as missing

---
 openquake/commonlib/csvmanager.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 0cd7f09..b5bf871 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -18,6 +18,7 @@
 
 import os
 import csv
+import errno
 import inspect
 import zipfile
 import StringIO
@@ -121,7 +122,7 @@ class Archive(object):
         """Check if a name is contained in the archive"""
         try:
             self.open(name, 'r').close()
-        except:
+        except NotInArchive:
             return False
         else:
             return True
@@ -168,7 +169,10 @@ class ZipArchive(Archive):
             return TempFile(self.zip, name, mode)
         else:
             # open for reading
-            return self.zip.open(name, mode)
+            try:
+                return self.zip.open(name, mode)
+            except KeyError:
+                raise NotInArchive(name)
 
     def extract_filenames(self, prefix=''):
         """
@@ -192,7 +196,12 @@ class DirArchive(Archive):
         self.opened = set()
 
     def _open(self, name, mode):
-        return open(os.path.join(self.name, name), mode)
+        try:
+            return open(os.path.join(self.name, name), mode)
+        except IOError as e:
+            if 'r' in mode and e.errno == errno.ENOENT:
+                raise NotInArchive(name)
+            raise
 
     def extract_filenames(self, prefix=''):
         """
-- 
2.43.0


From 50166861acf2d6e418adeda1f013a19fead239ed Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:16 +0000
Subject: [PATCH 07/36] fix: ZipArchive.close did not close the zip file, that
 was left without directory

---
 openquake/commonlib/csvmanager.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index b5bf871..9256543 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -149,7 +149,7 @@ class TempFile(FileWrapper):
         if self.closed:  # already closed, do nothing
             return
         self.fileobj.seek(0)  # this is essential
-        self.arczip.write(self.tempname, self.name)  # save in the archive
+        self.arczip.zip.write(self.tempname, self.name)  # save in the archive
         self.fileobj.close()  # remove the temporary file
         self.closed = True
 
@@ -163,10 +163,20 @@ class ZipArchive(Archive):
         self.name = self.zip.filename
         self.opened = set()
 
+    def close(self):
+        """
+        Close the files and the underlying ZipFile, which has to write the
+        directory of the archive; then reopen it to keep the archive usable
+        """
+        super(ZipArchive, self).close()
+        mode = 'r' if self.zip.mode == 'r' else 'a'
+        self.zip.close()
+        self.zip = zipfile.ZipFile(self.name, mode)
+
     def _open(self, name, mode):
         if mode in ('w', 'w+', 'r+'):
             # write on a temporary file
-            return TempFile(self.zip, name, mode)
+            return TempFile(self, name, mode)
         else:
             # open for reading
             try:
-- 
2.43.0


From 7f328b47536a81c0a9bc4299f39b82183d642a7b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:16 +0000
Subject: [PATCH 08/36] fix: mkarchive did not accept the modes r+ and w+ for
 zip archives

---
 openquake/commonlib/csvmanager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 9256543..6ae09bc 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -255,7 +255,8 @@ def mkarchive(pathname, mode):
     Return a ZipArchive or a DirArchive depending on the pathname extension
     """
     if pathname.endswith('.zip'):
-        return ZipArchive(pathname, mode)
+        zipmode = {'w+': 'w', 'r+': 'a'}.get(mode, mode)
+        return ZipArchive(pathname, zipmode)
     else:
         return DirArchive(pathname, mode)
 
-- 
2.43.0


From f1cc6ed9934a71018bb723cf0cb9bdde79c6e104 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:16 +0000
Subject: [PATCH 09/36] fix: concurrent creations of the same DirArchive failed

---
 openquake/commonlib/csvmanager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 6ae09bc..837d5c8 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -200,7 +200,11 @@ class DirArchive(Archive):
         self.name = dirname
         self.mode = mode
         if mode in ('w', 'w+', 'r+') and not os.path.exists(dirname):
-            os.mkdir(dirname)
+            try:
+                os.mkdir(dirname)
+            except OSError as e:  # it may have been created concurrently
+                if e.errno != errno.EEXIST:
+                    raise
         else:
             assert os.path.exists(dirname), dirname
         self.opened = set()
-- 
2.43.0


From b8ef187eef8596a3bd2e455047ebf2da007cef7b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:16 +0000
Subject: [PATCH 10/36] fix: convert_to_nrml did not work on archives
 containing several models

---
 openquake/commonlib/csvmanager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 837d5c8..ed97074 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -352,6 +352,8 @@ class CSVManager(object):
         found (this happens if there are no files following the
         naming conventions).
         """
+        if self.convertertype is not converter.Converter:
+            return self.convertertype  # already determined by _getmanagers
         managers = self._getmanagers()
         if not managers:
             raise NotInArchive(
-- 
2.43.0


From 89c3a3b5cc09dfb26d390436031e1c23989b5f89 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:16 +0000
Subject: [PATCH 11/36] fix: writetmp failed if the directory was created
 concurrently and leaked a descriptor without content

---
 openquake/commonlib/general.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index e38cebf..3377673 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -22,6 +22,7 @@ Utility functions of general interest.
 """
 
 import os
+import errno
 import math
 import tempfile
 import collections
@@ -323,10 +324,14 @@ def writetmp(content=None, dir=None, prefix="tmp", suffix="tmp"):
     """
     if dir is not None:
         if not os.path.exists(dir):
-            os.makedirs(dir)
+            try:
+                os.makedirs(dir)
+            except OSError as e:  # it may have been created concurrently
+                if e.errno != errno.EEXIST:
+                    raise
     fh, path = tempfile.mkstemp(dir=dir, prefix=prefix, suffix=suffix)
+    fh = os.fdopen(fh, "w")
     if content:
-        fh = os.fdopen(fh, "w")
         fh.write(content)
-        fh.close()
+    fh.close()
     return path
-- 
2.43.0


From 779b44d60a234f84625faa7f0e69d3ba4fda5bc2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:06 +0000
Subject: [PATCH 12/36] fix: the occupancies for periods missing in the first
 asset were lost

---
 openquake/commonlib/converter.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index e99d53c..0dedba8 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -386,13 +386,8 @@ class Exposure(Converter):
                 # insert after the description node
                 exp.nodes.insert(1, Node('conversions', {}, nodes=[
                     Node('area', {'type': area_type, 'unit': area_unit})]))
-        if t.tableOccupancy:
-            # extract the occupancies corresponding to the first asset
-            _asset_ref, occupancies = groupby(
-                t.tableOccupancy, ['asset_ref']).next()
-            periods = sorted(occ.period for occ in occupancies)
-        else:
-            periods = []
+        # extract the periods of all the assets
+        periods = sorted(set(occ.period for occ in t.tableOccupancy))
         exp.assets.nodes = self._assetgenerator(
             t.tableAsset, cost_types, periods)
         return exp
-- 
2.43.0


From f3d44220a27a74595166e0b07960d6c10ad58991 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:06 +0000
Subject: [PATCH 13/36] fix: the gmfSets without investigationTime were
 considered invalid

---
 openquake/commonlib/records.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/records.py b/openquake/commonlib/records.py
index 5590e9f..4955cb9 100644
--- a/openquake/commonlib/records.py
+++ b/openquake/commonlib/records.py
@@ -346,7 +346,7 @@ class GmfSet(Record):
     pkey = Unique('stochasticEventSetId')
 
     stochasticEventSetId = Field(int)
-    investigationTime = Field(float)
+    investigationTime = Field(valid.NoneOr(float))
 
     def to_node(self):
         dic = {}
-- 
2.43.0


From 4e1d2fb04da34e9cb55ced45b8fa0c687d31e6ef Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:51 +0000
Subject: [PATCH 14/36] fix: a buildings exposure without area was converted
 into one with an invalid area

---
 openquake/commonlib/records.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/records.py b/openquake/commonlib/records.py
index 4955cb9..7559089 100644
--- a/openquake/commonlib/records.py
+++ b/openquake/commonlib/records.py
@@ -232,8 +232,9 @@ class Exposure(Record):
         node.append(Node('description', text=self['description']))
         if node['category'] == 'buildings':
             conv = Node('conversions')
-            conv.append(Node('area', dict(type=self['area_type'],
-                                          unit=self['area_unit'])))
+            if self['area_type']:
+                conv.append(Node('area', dict(type=self['area_type'],
+                                              unit=self['area_unit'])))
             conv.append(Node('costTypes'))
             conv.append(Node('deductible', dict(
                 isAbsolute=self['deductible_is_absolute'])))
-- 
2.43.0


From a32ca4d632f3a511094033dae4e27745f9b4ab92 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:54 +0000
Subject: [PATCH 15/36] fix: rejected insertions and replacements corrupted the
 unique constraints of the tables

---
 openquake/commonlib/record.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index 664c75c..b759ce9 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -434,13 +434,18 @@ class Table(collections.MutableSequence):
 
     def __setitem__(self, i, new_record):
         """Set the i-th record"""
-        # TODO: the fk dictionaries must be updated!
-        # TODO: there is no unique check here!
+        changes = []
         for name, unique in self._unique_data.iteritems():
             old_key = getattr(self._records[i], name)
             new_key = getattr(new_record, name)
-            del unique.dict[old_key]
-            unique.dict[new_key] = new_record
+            if new_key != old_key and new_key in unique.dict:
+                raise KeyError('%s:%d:Duplicated record:%s' % (
+                    self.recordtype.__name__, i, ','.join(
+                        '%s=%s' % pair for pair in zip(unique.names, new_key))))
+            changes.append((unique.dict, old_key, new_key))
+        for dic, old_key, new_key in changes:
+            del dic[old_key]
+            dic[new_key] = new_record
         self._records[i] = new_record
 
     def __delitem__(self, i):
@@ -459,12 +464,11 @@ class Table(collections.MutableSequence):
         (in terms of unique constraints, including the primary
         key) raises a KeyError.
         """
+        keys = []
         for name, unique in self._unique_data.iteritems():
             key = getattr(rec, name)
-            try:
-                rec = unique.dict[key]
-            except KeyError:  # not inserted yet
-                unique.dict[key] = rec
+            if key not in unique.dict:  # not inserted yet
+                keys.append((unique.dict, key))
             else:
                 msg = []
                 for k, name in zip(key, unique.names):
@@ -473,6 +477,9 @@ class Table(collections.MutableSequence):
                                (self.recordtype.__name__, position,
                                 ','.join(msg)))
         self._records.insert(position, rec)
+        # the constraints are all satisfied
+        for dic, key in keys:
+            dic[key] = rec
 
     def getrecord(self, *pkey):
         """
-- 
2.43.0


From 75a6f5e82cdbabbc6e7123f413070ed8ed9b82a1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:18 +0000
Subject: [PATCH 16/36] fix: SourceCollector never returned when it was given
 some sources

---
 openquake/commonlib/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index 5cd4065..551e91a 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -50,11 +50,11 @@ class SourceCollector(object):
     def __init__(self, trt, sources=None, num_ruptures=0,
                  min_mag=None, max_mag=None):
         self.trt = trt
-        self.sources = sources or []
+        self.sources = []
         self.num_ruptures = num_ruptures
         self.min_mag = min_mag
         self.max_mag = max_mag
-        for src in self.sources:
+        for src in sources or []:
             self.update(src)
         self.filtered_sources = (0, 0)  # (filtered, total)
 
-- 
2.43.0


From e30d936cb6e08a666464734b176dfd3c302c786d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:37 +0000
Subject: [PATCH 17/36] fix: gen_blocks truncated the limit of the blocks, down
 to an error for integer weights and few sources

---
 openquake/commonlib/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index 551e91a..d95a2e3 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -133,7 +133,7 @@ class SourceCollector(object):
         assert num_sources, 'No sources for TRT=%s!' % self.trt
         return block_splitter(
             self._filter_and_split_sources(src_filter, discr),
-            max_weight * num_sources / (num_sources + 100),
+            max_weight * num_sources / float(num_sources + 100),
             self.update_num_ruptures)
 
     def __repr__(self):
-- 
2.43.0


From 9df69a490bd0decb1f1336cadd744e2b01f04507 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:42 +0000
Subject: [PATCH 18/36] fix: split_fault_source yielded the previous piece
 again for each magnitude with zero rate

---
 openquake/commonlib/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index d95a2e3..27a1438 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -664,7 +664,7 @@ def split_fault_source(src):
                 min_mag=mag, bin_width=src.mfd.bin_width,
                 occurrence_rates=[rate])
             i += 1
-        yield new_src
+            yield new_src
 
 
 def split_source(src, area_source_discretization):
-- 
2.43.0


From 9b8d01a6499f045917228c0ca3f12bad308e4030 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:20:26 +0000
Subject: [PATCH 19/36] fix: the statistics of a SourceCollector ignored the
 sources filtered away at the end

---
 openquake/commonlib/source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index 27a1438..e7c0f54 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -117,6 +117,7 @@ class SourceCollector(object):
                     self.filtered_sources = (len(srcs), tot_sources)
             else:
                 tot_sources += 1
+        self.filtered_sources = (len(srcs), tot_sources)
         self.sources = srcs  # throw away unfiltered sources
 
     def gen_blocks(self, src_filter, max_weight, discr):
-- 
2.43.0


From a8f8bd4bc3ae0eb612c9876e19d15f6b964cdb4e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:04 +0000
Subject: [PATCH 20/36] fix: block_splitter mixed kinds, or split a kind,
 around items of zero weight

---
 openquake/commonlib/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index 3377673..9db80c5 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -182,7 +182,7 @@ def block_splitter(items, max_weight, weight=lambda item: 1,
             raise ValueError('The item %r got a negative weight %s!' %
                              (item, w))
         elif w == 0:  # ignore items with 0 weight
-            pass
+            continue
         elif ws.weight + w > max_weight or k != prev_kind:
             new_ws = WeightedSequence([(item, w)])
             if ws:
-- 
2.43.0


From ba154aa1a667bf111b1855c1866cfa1748991b7a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:08 +0000
Subject: [PATCH 21/36] fix: sample_one returned objects of weight zero and the
 object before the border

---
 openquake/commonlib/logictree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index 10b58da..e73e2ce 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -106,7 +106,7 @@ def sample_one(branches, rnd):
     acc = 0
     for branch in branches:
         acc += branch.weight
-        if acc >= diceroll:
+        if acc > diceroll:
             return branch
     raise AssertionError('do weights really sum up to 1.0?')
 
-- 
2.43.0


From a7752824c4917c833d341eca15c5ed9683df6022 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:25 +0000
Subject: [PATCH 22/36] fix: the sampled realizations were plain tuples without
 value, weight and lt_path

---
 openquake/commonlib/logictree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index e73e2ce..79ac001 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -598,7 +598,7 @@ class BaseLogicTree(object):
             rnd = random.Random(self.seed)
             for _ in xrange(self.num_samples):
                 name, sm_lt_path = self.sample_path(rnd)
-                yield name, None, tuple(sm_lt_path)
+                yield LtRealization(name, None, tuple(sm_lt_path))
         else:  # full enumeration
             for weight, smlt_path in self.root_branchset.enumerate_paths():
                 name = smlt_path[0].value
-- 
2.43.0


From 9a168ba49e1c1d3f0186fa6d691a960ab5c8e737 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:40 +0000
Subject: [PATCH 23/36] fix: the branches of the GsimLogicTree were not sorted
 by branchset, thus the realizations could be wrong

---
 openquake/commonlib/logictree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index 79ac001..d520fe5 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -1145,8 +1145,8 @@ class GMPELogicTree(BaseLogicTree):
 
 BranchTuple = namedtuple('BranchTuple', 'bset, id, uncertainty, weight')
 BranchTuple.__lt__ = lambda self, other: (
-    self.bset['branchSetID'] < other.bset['branchSetID']
-    and self.id < other.id)
+    (self.bset['branchSetID'], self.id) <
+    (other.bset['branchSetID'], other.id))
 
 class InvalidLogicTree(Exception):
     pass
-- 
2.43.0


From 14046db2b794a3066d0806bb3f230e23df0b3421 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:13 +0000
Subject: [PATCH 24/36] fix: the source model paths of parse_config kept the
 whitespace around the names

---
 openquake/commonlib/readini.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/readini.py b/openquake/commonlib/readini.py
index 1d1f574..38d3685 100644
--- a/openquake/commonlib/readini.py
+++ b/openquake/commonlib/readini.py
@@ -21,7 +21,7 @@ def _collect_source_model_paths(smlt):
             for branch in branch_set.xpath(
                     './nrml:logicTreeBranch/nrml:uncertaintyModel',
                     namespaces=nrmllib.PARSE_NS_MAP):
-                src_paths.append(branch.text)
+                src_paths.append(branch.text.strip())
     return sorted(set(src_paths))
 
 
-- 
2.43.0


From 501043974cfc5d6509726d20ff9ccfb6bfd5b294 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:32 +0000
Subject: [PATCH 25/36] fix: NRMLconvert.py closes the output archive, so an
 error when completing it is not lost

---
 bin/NRMLconvert.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin/NRMLconvert.py b/bin/NRMLconvert.py
index 2d2b0a8..3add5ee 100644
--- a/bin/NRMLconvert.py
+++ b/bin/NRMLconvert.py
@@ -66,7 +66,9 @@ def main(input, output=None, limit=None):
     man = CSVManager(inp_archive, os.path.basename(input))
     print_invalid(man, limit)
     out_archive = mkarchive(output, 'a') if output else inp_archive
-    create(lambda n: man.convert_to_nrml(out_archive), os.path.basename(input))
+    with out_archive:  # an error when closing it must not be lost
+        create(lambda n: man.convert_to_nrml(out_archive),
+               os.path.basename(input))
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 08812613d93a36eab4ca8cab918aaf18a55b61ff Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:13 +0000
Subject: [PATCH 26/36] fix: exposures without the optional deductible and
 insuranceLimit elements could not be converted

---
 openquake/commonlib/converter.py | 15 +++++++++++++--
 openquake/commonlib/records.py   | 10 ++++++----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index 0dedba8..6085e22 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -277,6 +277,17 @@ class FragilityContinuous(Converter):
 ############################# exposure #################################
 
 
+def get_optional(node, subnode, attr):
+    """
+    The given attribute of an optional subnode, or an empty string if
+    the subnode is missing
+    """
+    try:
+        return getattr(node, subnode)[attr]
+    except NameError:
+        return ''
+
+
 class Exposure(Converter):
     """A converter for exposureModel nodes"""
 
@@ -306,8 +317,8 @@ class Exposure(Converter):
                 node.description.text.strip(),
                 area_type,
                 area_unit,
-                conv.deductible['isAbsolute'],
-                conv.insuranceLimit['isAbsolute'])
+                get_optional(conv, 'deductible', 'isAbsolute'),
+                get_optional(conv, 'insuranceLimit', 'isAbsolute'))
         else:
             yield records.Exposure(
                 node['id'],
diff --git a/openquake/commonlib/records.py b/openquake/commonlib/records.py
index 7559089..fa63fa8 100644
--- a/openquake/commonlib/records.py
+++ b/openquake/commonlib/records.py
@@ -236,10 +236,12 @@ class Exposure(Record):
                 conv.append(Node('area', dict(type=self['area_type'],
                                               unit=self['area_unit'])))
             conv.append(Node('costTypes'))
-            conv.append(Node('deductible', dict(
-                isAbsolute=self['deductible_is_absolute'])))
-            conv.append(Node('insuranceLimit', dict(
-                isAbsolute=self['insurance_limit_is_absolute'])))
+            if self['deductible_is_absolute']:
+                conv.append(Node('deductible', dict(
+                    isAbsolute=self['deductible_is_absolute'])))
+            if self['insurance_limit_is_absolute']:
+                conv.append(Node('insuranceLimit', dict(
+                    isAbsolute=self['insurance_limit_is_absolute'])))
             node.append(conv)
         node.append(Node('assets'))
         return node
-- 
2.43.0


From 39758cca5c4ac83118f9b35f457c8cd344862f44 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 27/36] fix: the area of the conversions of a population
 exposure was lost when it was converted to CSV

---
 openquake/commonlib/converter.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index 6085e22..c6638ec 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -277,13 +277,17 @@ class FragilityContinuous(Converter):
 ############################# exposure #################################
 
 
-def get_optional(node, subnode, attr):
+def get_optional(node, path, attr):
     """
     The given attribute of an optional subnode, or an empty string if
     the subnode is missing
+
+    :param path: the names of the subnodes down to it, separated by dots
     """
     try:
-        return getattr(node, subnode)[attr]
+        for name in path.split('.'):
+            node = getattr(node, name)
+        return node[attr]
     except NameError:
         return ''
 
@@ -324,7 +328,9 @@ class Exposure(Converter):
                 node['id'],
                 node['category'],
                 taxonomysource,
-                node.description.text.strip())
+                node.description.text.strip(),
+                get_optional(node, 'conversions.area', 'type'),
+                get_optional(node, 'conversions.area', 'unit'))
 
         locations = {}  # location -> id
         loc_counter = itertools.count(1)
-- 
2.43.0


From 40dbb4dfccf2b1d93a122e9f98f384f25105e842 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 28/36] fix: safely_call raised instead of returning a pair if
 an argument could not be unpickled or the result pickled

---
 openquake/commonlib/parallel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index 29b13d8..019cd8d 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -93,10 +93,12 @@ def safely_call(func, args, pickle=False):
         if set, the input arguments are unpickled and the return value
         is pickled; otherwise they are left unchanged
     """
-    if pickle:
-        args = [a.unpickle() for a in args]
     try:
+        if pickle:
+            args = [a.unpickle() for a in args]
         res = func(*args), None
+        if pickle:
+            return Pickled(res)
     except:
         etype, exc, tb = sys.exc_info()
         tb_str = ''.join(traceback.format_tb(tb))
-- 
2.43.0


From e11e0c2dfc17eab9e6c41ef630962f6d20fb877b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 29/36] fix: exception classes that cannot be pickled broke the
 pool instead of being reported by the batch

---
 openquake/commonlib/parallel.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index 019cd8d..0bdc233 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -35,6 +35,7 @@ print map_reduce(sum_all, [(1, 2, 3), (4, 5), (6,)], operator.add, 0)
 
 import os
 import sys
+import inspect
 import cPickle
 import logging
 import traceback
@@ -79,6 +80,20 @@ def exception_repr(exc):
         return '<unprintable message>'
 
 
+def picklable_class(etype):
+    """
+    The given exception class if it can be sent back by the pool,
+    otherwise (for instance for a local class) its first base that can
+    """
+    for cls in inspect.getmro(etype):
+        try:
+            pik = cPickle.dumps(cls, cPickle.HIGHEST_PROTOCOL)
+            if cPickle.loads(pik) is cls:
+                return cls
+        except Exception:
+            continue
+
+
 def safely_call(func, args, pickle=False):
     """
     Call the given function with the given arguments safely, i.e.
@@ -106,7 +121,8 @@ def safely_call(func, args, pickle=False):
             msg = str(exc)
         except Exception:  # the message cannot be converted into a str
             msg = exception_repr(exc)
-        res = '\n%s%s: %s' % (tb_str, etype.__name__, msg), etype
+        res = ('\n%s%s: %s' % (tb_str, etype.__name__, msg),
+               picklable_class(etype))
     if pickle:
         return Pickled(res)
     return res
-- 
2.43.0


From 646ad4604a55cdd46b5ad5de01924430eb356d21 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 30/36] fix: models with an empty description could not be
 converted to CSV

---
 openquake/commonlib/converter.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index c6638ec..2af1b86 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -97,6 +97,14 @@ class Converter(object):
         raise NotImplementedError
 
 
+def get_text(node):
+    """
+    The text of the node, without leading and trailing spaces; an empty
+    string if there is none
+    """
+    return (node.text or '').strip()
+
+
 ############################# vulnerability #################################
 
 class Vulnerability(Converter):
@@ -167,7 +175,7 @@ class FragilityDiscrete(Converter):
         assert fmt == 'discrete'
         limitStates = node.limitStates.text.split()
         yield records.FragilityDiscrete(
-            fmt, node.description.text.strip(), node.limitStates.text.strip())
+            fmt, get_text(node.description), node.limitStates.text.strip())
         for ls in limitStates:
             yield records.FFLimitStateDiscrete(ls)
         for i, ffs in enumerate(node.getnodes('ffs'), 1):
@@ -229,7 +237,7 @@ class FragilityContinuous(Converter):
         assert fmt == 'continuous', fmt
         limitStates = node.limitStates.text.split()
         yield records.FragilityContinuous(
-            fmt, node.description.text.strip(), node.limitStates.text.strip())
+            fmt, get_text(node.description), node.limitStates.text.strip())
         for ls in limitStates:
             yield records.FFLimitStateContinuous(ls)
         for i, ffs in enumerate(node.getnodes('ffs'), 1):
@@ -318,7 +326,7 @@ class Exposure(Converter):
                 node['id'],
                 node['category'],
                 taxonomysource,
-                node.description.text.strip(),
+                get_text(node.description),
                 area_type,
                 area_unit,
                 get_optional(conv, 'deductible', 'isAbsolute'),
@@ -328,7 +336,7 @@ class Exposure(Converter):
                 node['id'],
                 node['category'],
                 taxonomysource,
-                node.description.text.strip(),
+                get_text(node.description),
                 get_optional(node, 'conversions.area', 'type'),
                 get_optional(node, 'conversions.area', 'unit'))
 
-- 
2.43.0


From eaf1d3fea4211adb49317f028b7333c0cd240490 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 31/36] fix: a CSVManager reading the same table again, for
 instance after an error, silently lost the records already read

---
 openquake/commonlib/csvmanager.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index ed97074..1823f68 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -314,7 +314,6 @@ class CSVManager(object):
         self.archive = archive
         self.prefix = prefix
         self.has_header = has_header
-        self.rt2reader = {}
         self.rt2writer = {}
         self.rt2file = {}
 
@@ -433,19 +432,19 @@ class CSVManager(object):
         """
         Read the records from the underlying CSV file. Returns an iterator.
         """
-        reader = self.rt2reader.get(recordtype)
-        if reader is None:
-            fname = '%s__%s.csv' % (self.prefix, recordtype.__name__)
-            self.rt2file[recordtype] = f = self.archive.open(fname, 'r')
-            self.rt2reader[recordtype] = reader = csv.reader(f)
+        # NB: the file is always opened again: a reader that was already
+        # consumed, even in part, would give less records
+        fname = '%s__%s.csv' % (self.prefix, recordtype.__name__)
+        with self.archive.open(fname, 'r') as f:
+            reader = csv.reader(f)
             if self.has_header:
                 header = reader.next()
                 if header != recordtype.fieldnames:
                     raise InvalidFile(
                         '%s: line 1: got %s as header, expected %s' %
                         (fname, header, recordtype.fieldnames))
-        for row in reader:
-            yield recordtype(*row)
+            for row in reader:
+                yield recordtype(*row)
 
     def readtable(self, recordtype):
         """
@@ -494,7 +493,6 @@ class CSVManager(object):
 
     def __enter__(self):
         """Initialize a few dictionaries"""
-        self.rt2reader = {}
         self.rt2writer = {}
         self.rt2file = {}
         self.archive.opened = set()
-- 
2.43.0


From 55ff0989c0fb3d99b9696f875d450c286376b03d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:43 +0000
Subject: [PATCH 32/36] fix: the levels after a skipped one were lost in the
 ground motion logic trees

---
 openquake/commonlib/logictree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index d520fe5..3a853bf 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -464,6 +464,8 @@ class BaseLogicTree(object):
                 self.apply_branchset(branchset_node, branchset)
             for branch in branchset.branches:
                 new_open_ends.add(branch)
+        if not new_open_ends:
+            return  # the whole level was skipped
         self.open_ends.clear()
         self.open_ends.update(new_open_ends)
 
-- 
2.43.0


From 50ab967115d40a737c6d93369265a46f5eca204d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 33/36] fix: NRMLconvert.py reported success on a missing
 input, creating an empty archive

---
 bin/NRMLconvert.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bin/NRMLconvert.py b/bin/NRMLconvert.py
index 3add5ee..08742a7 100644
--- a/bin/NRMLconvert.py
+++ b/bin/NRMLconvert.py
@@ -52,6 +52,8 @@ def main(input, output=None, limit=None):
     """
     if limit is not None:
         limit = int(limit)  # max number of errors
+    if not os.path.exists(input):  # otherwise an empty archive is created
+        sys.exit('There is no file or directory %r' % input)
     if input.endswith('.xml'):
         if not output:
             sys.exit('Please specify an output archive')
-- 
2.43.0


From 568e05514f9bc08ec8d21a864d43bbad273d1681 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:57 +0000
Subject: [PATCH 34/36] fix: the Gmf records of a scenario gmfSet refer to
 their set

They had the identifier 1 (not even a string, so that the table could not
be printed) while the GmfSet record and the data have '0'.
---
 openquake/commonlib/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index 2af1b86..fb88955 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -474,7 +474,7 @@ class GmfCollection(Converter):
                 imt = gmf['IMT']
                 if imt == 'SA':
                     imt += '(%s)' % gmf['saPeriod']
-                yield records.Gmf(1, imt, '')
+                yield records.Gmf('0', imt, '')
                 for n in gmf:
                     yield records.GmfData(
                         '0', imt, '', n['lon'], n['lat'], n['gmv'])
-- 
2.43.0


From 7c6a96083522277a61c8db56b055a49fb7cff88b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:21 +0000
Subject: [PATCH 35/36] fix: do not write the mesh spacing into the NRML planar
 surfaces

The attributes of the NRML object were used as the dictionary of keyword
arguments, so converting a characteristic source changed it, and two
threads with converters of different spacing gave each other's.
---
 openquake/commonlib/source.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index e7c0f54..7570e6f 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -491,7 +491,8 @@ class NrmlHazardlibConverter(object):
             # A collection of planar surfaces
             planar_surfaces = []
             for planar_surface in src.surface:
-                kwargs = planar_surface.__dict__
+                # a copy, the NRML object must not change
+                kwargs = dict(planar_surface.__dict__)
                 kwargs.update(dict(mesh_spacing=self.rupture_mesh_spacing))
 
                 planar_surfaces.append(geo.PlanarSurface(**kwargs))
-- 
2.43.0


From 16d672f19c322fcac4d97527e75ceec9dddbfc26 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:06 +0000
Subject: [PATCH 36/36] fix: recognise the files of models whose names contain
 two underscores

---
 openquake/commonlib/csvmanager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 1823f68..08d167c 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -330,7 +330,7 @@ class CSVManager(object):
                 ct[name] = value
         for fname in sorted(self.archive.extract_filenames()):
             try:
-                prefix, recordcsv = fname.split('__')
+                prefix, recordcsv = fname.rsplit('__', 1)
             except ValueError:
                 continue
             if not recordcsv.endswith('.csv'):
-- 
2.43.0

