From c603325ad47ad29fb733f5cf81d7cc50e913cda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:51 +0000
Subject: [PATCH 01/74] fix: do not end the search while a work chunk is still
 on its way to the queue

---
 libff/context.py    | 32 +++++++++++++++++++++++++++-----
 libff/processing.py | 10 ++++++----
 libff/walk.py       |  7 +++++--
 3 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/libff/context.py b/libff/context.py
index 174304a..1aff3f8 100644
--- a/libff/context.py
+++ b/libff/context.py
@@ -52,6 +52,7 @@ class Context:
         self.exitcode_object = None
         self.process_succeeded = None
         self.process_failed = None
+        self.pending = None
 
         self.cache_hits = None
         self.cache_misses = None
@@ -80,6 +81,11 @@ class Context:
         self.process_succeeded = multiprocessing.Value("L")
         self.process_failed = multiprocessing.Value("L")
 
+        # The number of chunks that were put in the walker's queue but whose processing is not
+        # completed yet. The queue may look empty although there is more to do, because a
+        # multiprocessing.Queue passes on its items asynchronously in a background thread.
+        self.pending = multiprocessing.Value("L")
+
         # Provide a shared counter for cache hits and misses.
         self.cache_hits = multiprocessing.Value("L")
         self.cache_misses = multiprocessing.Value("L")
@@ -114,16 +120,32 @@ class Context:
         return self._has_result.value == 1
 
     def barrier_wait(self, timeout=TIMEOUT):
-        """Wait for all processes to reach the Barrier. If all processes do that means that there
-           is no more input and processing is finished.
+        """Wait for all processes to reach the Barrier, i.e. until all of them are idle. Return True
+           if there is no more input and processing is finished.
         """
         try:
             self.barrier.wait(timeout)
         except threading.BrokenBarrierError:
             self.barrier.reset()
-            return self.is_stopping()
-        else:
-            return True
+        return self.is_stopping() or not self.has_pending()
+
+    def add_pending(self):
+        """Register a chunk that is about to be put in the walker's queue.
+        """
+        with self.pending.get_lock():
+            self.pending.value += 1
+
+    def remove_pending(self):
+        """Unregister a chunk after its processing is completed.
+        """
+        with self.pending.get_lock():
+            self.pending.value -= 1
+
+    def has_pending(self):
+        """Return True if there are chunks left to process. As only a pending chunk can produce new
+           chunks, there is nothing left to do once this method returned False.
+        """
+        return self.pending.value > 0
 
     def idle_processes(self):
         """Return the number of idle processes, i.e. processes that are waiting for the barrier
diff --git a/libff/processing.py b/libff/processing.py
index 58cf6a6..0ee2521 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -105,7 +105,8 @@ class BaseProcessing(BaseClass):
 
         if time.time() >= self.next_processes_check:
             for index, process in enumerate(self.walker.processes):
-                if not process.is_alive():
+                if not process.is_alive() and self.context.has_pending() and \
+                        not self.context.is_stopping():
                     self.logger.warning(f"process #{index} terminated abnormally")
                     self.context.set_exitcode(EX_PROCESS)
                     self.context.stop()
@@ -116,10 +117,11 @@ class BaseProcessing(BaseClass):
         return False
 
     def processing_done(self, timeout=TIMEOUT):
-        """Check if processing is done (because all processes wait on the barrier) or one or more
-           processes failed unexpectedly.
+        """Check if processing is done (because there is nothing left to do for the processes) or one
+           or more processes failed unexpectedly.
         """
-        return self.context.barrier_wait(timeout) or self.check_for_failed_processes()
+        return not self.context.has_pending() or self.context.barrier_wait(timeout) or \
+                self.check_for_failed_processes()
 
     def process(self, entries):
         """Process a chunk of Entry objects.
diff --git a/libff/walk.py b/libff/walk.py
index 16e31e2..df0ddbe 100644
--- a/libff/walk.py
+++ b/libff/walk.py
@@ -60,6 +60,7 @@ class FilesystemWalker(BaseClass):
            ImmediateExecProcessing processor to run as subprocesses in the context of the
            FilesystemWalker.
         """
+        self.context.add_pending()
         self.queue.put(chunk)
 
     def start_processes(self):
@@ -118,6 +119,8 @@ class FilesystemWalker(BaseClass):
                     for obj in objs:
                         self.process_arguments(obj)
 
+                self.context.remove_pending()
+
             self.cache.close()
 
         except Exception:
@@ -216,7 +219,7 @@ class FilesystemWalker(BaseClass):
                         self.context.idle_processes() / self.args.jobs > 0.25 and \
                         len(entries) > 10:
                     split = len(entries) // 2 + 1
-                    self.queue.put(Entries(parent, entries[split:]))
+                    self.put(Entries(parent, entries[split:]))
                     entries = entries[:split]
 
         except OSError as exc:
@@ -228,7 +231,7 @@ class FilesystemWalker(BaseClass):
             chunk_size = min(100, max(10, int(len(search) / self.args.jobs) + 1))
 
             for i in range(0, len(search), chunk_size):
-                self.queue.put(search[i:i + chunk_size])
+                self.put(search[i:i + chunk_size])
 
         while process:
             # Reduce number of Entry object that are sent in one go. This resolves issues with
-- 
2.43.0


From 643c655f77a4328fdabc8e7203e0c39220a9d6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 02/74] fix: wait for all results to arrive in the main process
 before finishing

---
 libff/processing.py | 98 +++++++++++++++++++++++++--------------------
 1 file changed, 55 insertions(+), 43 deletions(-)

diff --git a/libff/processing.py b/libff/processing.py
index 0ee2521..48921a6 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -105,8 +105,9 @@ class BaseProcessing(BaseClass):
 
         if time.time() >= self.next_processes_check:
             for index, process in enumerate(self.walker.processes):
-                if not process.is_alive() and self.context.has_pending() and \
-                        not self.context.is_stopping():
+                # Processes terminate normally when there is nothing left to do.
+                if not process.is_alive() and not self.context.is_stopping() and \
+                        (process.exitcode != 0 or self.context.has_pending()):
                     self.logger.warning(f"process #{index} terminated abnormally")
                     self.context.set_exitcode(EX_PROCESS)
                     self.context.stop()
@@ -212,21 +213,62 @@ class ImmediateConsoleProcessing(BaseConsoleProcessing):
     """
 
 
-class CollectiveMixin(BaseProcessing):
-    """Processing mixin class that collects all entries first and then does the processing
-       afterwards.
+class OutQueueMixin(BaseProcessing):
+    """Processing mixin class that passes on the entries from the Walker processes to the main
+       process.
     """
+    # pylint:disable=abstract-method
 
     def __init__(self, context):
         super().__init__(context)
 
         self.out_queue = multiprocessing.Queue()
-        self.entries = []
-        self.count = collections.Counter()
+
+        # The number of chunks that were put in the queue but did not arrive in the main process
+        # yet. We need this because a multiprocessing.Queue passes on its items asynchronously in a
+        # background thread, so it may look empty although there is more to come.
+        self.undelivered = multiprocessing.Value("L")
 
     def process(self, entries):
+        with self.undelivered.get_lock():
+            self.undelivered.value += 1
         self.out_queue.put(entries)
 
+    def chunks(self):
+        """Iterate over the chunks of entries from the Walker processes until there are no more.
+        """
+        while True:
+            try:
+                entries = self.out_queue.get(timeout=TIMEOUT)
+            except queue.Empty:
+                if self.processing_done() and self.delivery_done():
+                    break
+                else:
+                    continue
+
+            with self.undelivered.get_lock():
+                self.undelivered.value -= 1
+
+            yield entries
+
+    def delivery_done(self):
+        """Return True if there are no more chunks to be expected.
+        """
+        return self.undelivered.value == 0 or self.context.is_stopping() or \
+                self.check_for_failed_processes()
+
+
+class CollectiveMixin(OutQueueMixin):
+    """Processing mixin class that collects all entries first and then does the processing
+       afterwards.
+    """
+
+    def __init__(self, context):
+        super().__init__(context)
+
+        self.entries = []
+        self.count = collections.Counter()
+
     def entries_range(self):
         """Limit the list of entries according to the -l/--limit option.
         """
@@ -237,15 +279,7 @@ class CollectiveMixin(BaseProcessing):
             return self.entries[start:stop]
 
     def loop(self):
-        while True:
-            try:
-                entries = self.out_queue.get(timeout=TIMEOUT)
-            except queue.Empty:
-                if self.processing_done():
-                    break
-                else:
-                    continue
-
+        for entries in self.chunks():
             if self.args.count is not None:
                 self.collect_count(entries)
 
@@ -394,34 +428,20 @@ class CollectiveExecProcessing(CollectiveMixin, BaseProcessing):
             raise AssertionError("wrong usage of CollectiveExecProcessing class")
 
 
-class ImmediateGenerator(ImmediateBaseProcessing):
+class ImmediateGenerator(OutQueueMixin, ImmediateBaseProcessing):
     """Processing class that allows immediate iteration over the results.
     """
 
-    def __init__(self, context):
-        super().__init__(context)
-
-        self.out_queue = multiprocessing.Queue()
-
     def loop(self):
         pass
 
     def finalize(self):
         pass
 
-    def process(self, entries):
-        self.out_queue.put(entries)
-
     def __iter__(self):
-        while True:
-            try:
-                for entry in self.out_queue.get(timeout=TIMEOUT):
-                    yield self.args.output.to_dict(entry)
-            except queue.Empty:
-                if self.processing_done():
-                    break
-                else:
-                    continue
+        for entries in self.chunks():
+            for entry in entries:
+                yield self.args.output.to_dict(entry)
 
 
 class CollectiveGenerator(ImmediateGenerator):
@@ -434,15 +454,7 @@ class CollectiveGenerator(ImmediateGenerator):
         self.entries = []
 
     def loop(self):
-        while True:
-            try:
-                entries = self.out_queue.get(timeout=TIMEOUT)
-            except queue.Empty:
-                if self.processing_done():
-                    break
-                else:
-                    continue
-
+        for entries in self.chunks():
             self.entries += entries
 
     def finalize(self):
-- 
2.43.0


From e62bf683ea6564694b1b266491dddfc8cf6f4730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 03/74] fix: do not mix up output records of parallel processes

---
 libff/console.py | 28 +++++++++++++++-------------
 libff/context.py |  4 ++++
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/libff/console.py b/libff/console.py
index dd25215..1ade4a3 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -78,9 +78,10 @@ class JsonlConsole(BaseConsole):
     def _print_record(self, record):
         """Dump a newline delimited JSON object to standard output.
         """
-        json.dump(record, sys.stdout)
-        print()
-        sys.stdout.flush()
+        with self.context.output_lock:
+            json.dump(record, sys.stdout)
+            print()
+            sys.stdout.flush()
 
 
 class JsonConsole(JsonlConsole):
@@ -241,16 +242,17 @@ class Console(BaseConsole):
     def _write_line(self, line):
         """Print a line of output handling encoding errors.
         """
-        try:
-            print(line, end=self.args.newline)
-        except UnicodeEncodeError:
-            print(line.encode(self.encoding, "backslashreplace").decode(self.encoding),
-                    end=self.args.newline)
-
-        # If we don't flush stdout, printed results may be lost. That is because when the main
-        # process exits, all multiprocessing processes vanish instantly without pending output
-        # buffers being written.
-        sys.stdout.flush()
+        with self.context.output_lock:
+            try:
+                print(line, end=self.args.newline)
+            except UnicodeEncodeError:
+                print(line.encode(self.encoding, "backslashreplace").decode(self.encoding),
+                        end=self.args.newline)
+
+            # If we don't flush stdout, printed results may be lost. That is because when the main
+            # process exits, all multiprocessing processes vanish instantly without pending output
+            # buffers being written.
+            sys.stdout.flush()
 
 
 class ColorConsole(Console):
diff --git a/libff/context.py b/libff/context.py
index 1aff3f8..e950cdb 100644
--- a/libff/context.py
+++ b/libff/context.py
@@ -47,6 +47,7 @@ class Context:
         self.processing = None
 
         self.global_lock = None
+        self.output_lock = None
         self.stop_queue = None
         self.barrier = None
         self.exitcode_object = None
@@ -64,6 +65,9 @@ class Context:
         """
         self.global_lock = multiprocessing.Lock()
 
+        # Make sure that records that are printed by different processes do not get mixed up.
+        self.output_lock = multiprocessing.Lock()
+
         # We use a Queue object to emulate a stop event, because multiprocessing.Event did not work
         # the way I expected it.
         self.stop_queue = multiprocessing.Queue(self.args.jobs)
-- 
2.43.0


From 856295527897af62fc6b62ce39a5d64f2cd3ffd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 04/74] fix: --clean-cache failed if there were stale entries

---
 libff/cache.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libff/cache.py b/libff/cache.py
index 9a814f2..b1fe4e5 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -194,10 +194,12 @@ class Cache(NullCache):
     def clean(self):
         """Remove entries from the database for files that no longer exist.
         """
-        for table, in self.conn.execute("select name from sqlite_master where type = 'table'"):
-            for path, in self.conn.execute(f"select path from {table}"):
-                if not os.path.exists(path):
+        for table, in self.conn.execute(
+                "select name from sqlite_master where type = 'table'").fetchall():
+            for path, in self.conn.execute(f"select path from {table}").fetchall():
+                if not os.path.lexists(path):
                     self.conn.execute(f"delete from {table} where path = ?", (path,))
 
-        self.conn.execute("vacuum")
+        # There must be no open transaction for vacuum.
         self.conn.commit()
+        self.conn.execute("vacuum")
-- 
2.43.0


From 572501d4e433adf6726067a40ceaafa1bb27696f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:18 +0000
Subject: [PATCH 05/74] fix: use the file name as is as key for the cache

---
 libff/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libff/cache.py b/libff/cache.py
index b1fe4e5..b3de700 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -138,7 +138,7 @@ class Cache(NullCache):
     def get(self, plugin, path, tag):
         """Return a row of cached values.
         """
-        path = path.encode("utf-8", "backslashreplace")
+        path = os.fsencode(path)
         tag = pickle.dumps(tag, pickle.HIGHEST_PROTOCOL)
 
         for row in self.conn.execute(
@@ -153,7 +153,7 @@ class Cache(NullCache):
     def set(self, plugin, path, tag, obj):
         """Write data to the cache.
         """
-        path = path.encode("utf-8", "backslashreplace")
+        path = os.fsencode(path)
         tag = pickle.dumps(tag, pickle.HIGHEST_PROTOCOL)
         data = pickle.dumps(obj, pickle.HIGHEST_PROTOCOL)
 
-- 
2.43.0


From 6dbb971796c9c2bfb0b8396627127d13a04ef8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 06/74] fix: do not drop cache tables of other plugins with a
 similar name

---
 libff/cache.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/libff/cache.py b/libff/cache.py
index b3de700..7522d5c 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -109,12 +109,12 @@ class Cache(NullCache):
            older versions of this plugin.
         """
         # Ask the database if a table exists for this plugin.
-        curs = self.conn.execute(
-                "select name from sqlite_master where type = 'table' and name like ?",
-                (plugin_cls.sql_table_name.rstrip(string.digits) + "%",))
+        curs = self.conn.execute("select name from sqlite_master where type = 'table'")
 
-        # Create a table if there is none for this plugin.
-        tables = set(row[0] for row in curs)
+        # Create a table if there is none for this plugin. Tables from older versions have the same
+        # name except for the cache tag at the end. Do not touch the tables of other plugins.
+        prefix = plugin_cls.sql_table_name.rstrip(string.digits)
+        tables = set(row[0] for row in curs if row[0].rstrip(string.digits) == prefix)
         if plugin_cls.sql_table_name not in tables:
             for statement in self.get_sql_create_table(plugin_cls):
                 self.conn.execute(statement)
@@ -125,15 +125,15 @@ class Cache(NullCache):
         for table in tables:
             if __debug__:
                 self.logger.debug("cache", f"Removing old cache table {table!r}")
-            self.conn.execute(f"drop table {table}")
+            self.conn.execute(f"drop table if exists {table}")
 
     def get_sql_create_table(self, plugin_cls):
         """Return the statements needed to create a table for a specific Plugin class.
         """
         table_name = plugin_cls.sql_table_name
-        yield f"create table {table_name} "\
+        yield f"create table if not exists {table_name} "\
                 "(path text not null primary key, tag blob not null, data blob not null)"
-        yield f"create index {table_name}_idx on {table_name} (path, tag)"
+        yield f"create index if not exists {table_name}_idx on {table_name} (path, tag)"
 
     def get(self, plugin, path, tag):
         """Return a row of cached values.
-- 
2.43.0


From 7c534d2423d69cb93461cfaae88220846e96e211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 07/74] fix: do not share plugin objects and cache tables
 between searches

---
 libff/cache.py    | 3 +--
 libff/registry.py | 4 +++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/libff/cache.py b/libff/cache.py
index 7522d5c..2111cc2 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -64,8 +64,6 @@ class Cache(NullCache):
     """A cache that stores pickled Python objects in an sqlite3 database.
     """
 
-    registered = {}
-
     commit_every_seconds = 30
     commit_every_count = 500
 
@@ -74,6 +72,7 @@ class Cache(NullCache):
 
         self.conn = sqlite3.connect(self.context.args.cache, timeout=30)
 
+        self.registered = {}
         self.num_cached_rows = 0
         self.last_commit = time.time()
         self.cached_rows = {}
diff --git a/libff/registry.py b/libff/registry.py
index ff70017..2630de9 100644
--- a/libff/registry.py
+++ b/libff/registry.py
@@ -44,12 +44,14 @@ class Registry(BaseClass):
     registered_types = set()
     registered_plugins = {}
 
-    plugins = {}
     attributes = {}
 
     def __init__(self, context):
         super().__init__(context)
 
+        # The plugins that are in use, each search starts with new ones.
+        self.plugins = {}
+
         self.optimize_for_slow_plugins = False
 
         with self.context.global_lock:
-- 
2.43.0


From 7c989b4f16df28b021412cfe95c02f9cda5aa30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 08/74] fix: treat a cache that cannot be opened as a usage
 error

---
 libff/cache.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libff/cache.py b/libff/cache.py
index 2111cc2..9f48c20 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -25,6 +25,7 @@ import string
 import sqlite3
 
 from . import BaseClass
+from .exceptions import UsageError
 
 
 class NOTSET:
@@ -70,7 +71,10 @@ class Cache(NullCache):
     def __init__(self, context):
         super().__init__(context)
 
-        self.conn = sqlite3.connect(self.context.args.cache, timeout=30)
+        try:
+            self.conn = sqlite3.connect(self.context.args.cache, timeout=30)
+        except sqlite3.Error as exc:
+            raise UsageError(f"unable to open cache {self.context.args.cache!r}: {exc}") from exc
 
         self.registered = {}
         self.num_cached_rows = 0
-- 
2.43.0


From 9c6d1c92ff2b98736a17ff87a96ca8ca5454d0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 09/74] fix: --count failed for a mix of numbers and other
 values

---
 libff/processing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/processing.py b/libff/processing.py
index 48921a6..05974e9 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -365,8 +365,9 @@ class CollectiveMixin(OutQueueMixin):
         else:
             for key, value in sorted(count.items()):
                 if isinstance(value, dict):
+                    # Sort numbers first, they are not comparable to other strings.
                     for k, v in sorted(value.items(),
-                            key=lambda t: int(t[0]) if t[0].isdigit() else t[0]):
+                            key=lambda t: (0, int(t[0]), t[0]) if t[0].isdecimal() else (1, 0, t[0])):
                         print(f"{key}[{k}]={v}")
                 else:
                     print(f"{key}={value}")
-- 
2.43.0


From e07cf3010a0cfc0e671f2c798084b94c7eaa8f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 10/74] fix: --count printed no total if there were no results

---
 libff/processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/processing.py b/libff/processing.py
index 05974e9..75cd94d 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -267,7 +267,7 @@ class CollectiveMixin(OutQueueMixin):
         super().__init__(context)
 
         self.entries = []
-        self.count = collections.Counter()
+        self.count = collections.Counter(_total=0)
 
     def entries_range(self):
         """Limit the list of entries according to the -l/--limit option.
-- 
2.43.0


From 1f8f805407564b9fcfb11268340b5f7f12a031d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 11/74] fix: natural sorting failed for keys that are not
 comparable

---
 libff/field.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/libff/field.py b/libff/field.py
index 79121de..6b9332b 100644
--- a/libff/field.py
+++ b/libff/field.py
@@ -135,23 +135,21 @@ class SortFields(OutputFields):
         while component:
             comp, ext = os.path.splitext(component)
             ext = ext.lstrip(os.extsep)
-            if not ext or ext[0].isdigit():
+            if not ext or ext[0].isdecimal():
                 break
             component = comp
             extensions.insert(0, ext)
 
-        # Split the component into string and number parts. Make sure the list starts with a
-        # string.
+        # Split the component into string and number parts.
         parts = self.regex_digits.split(component)
-        if parts[0].isdigit():
-            parts.insert(0, "")
 
-        # Yield a list of tokens with all numbers converted to ints.
-        yield [int(p) if p.isdigit() else p for p in parts]
+        # Yield a list of tokens with all numbers converted to ints. Turn them into tuples, so that
+        # numbers and strings are comparable to each other.
+        yield [(0, int(p), "") if p.isdecimal() else (1, 0, p) for p in parts]
 
         # Yield extensions separately.
         if extensions:
-            yield extensions
+            yield [(1, 0, ext) for ext in extensions]
 
     def prepare_sort_key(self, value):
         """Prepare a sort key from a path for natural/version sorting.
@@ -171,12 +169,12 @@ class SortFields(OutputFields):
             try:
                 value = self.registry.get_attribute(entry, field.attribute)
             except KeyError:
-                output.append(field.type.sort_none)
+                value = field.type.sort_none
             else:
                 value = field.type.sort_key(value)
-                if field.modifier == "v":
-                    value = self.prepare_sort_key(value)
-                output.append(value)
+            if field.modifier == "v" and isinstance(value, str):
+                value = self.prepare_sort_key(value)
+            output.append(value)
         return tuple(output)
 
 
-- 
2.43.0


From 00837617ae1656159f3aeb3b7c938edebc19e4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:37 +0000
Subject: [PATCH 12/74] fix: reject empty expressions inside of brackets

---
 libff/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/parser.py b/libff/parser.py
index ba70ce7..2a6b446 100644
--- a/libff/parser.py
+++ b/libff/parser.py
@@ -130,7 +130,7 @@ class Parser(BaseClass):
                 continue
 
             elif token in self.CLOSING_BRACKETS:
-                if not sequences[-1]:
+                if any(not seq for seq in sequences):
                     raise ParserError("empty expression")
                 self.tokens.insert(0, token)
                 return
-- 
2.43.0


From aaf7153f61643ea2b54df387994e88d9bef55258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 13/74] fix: treat invalid option arguments as usage errors

---
 libff/argparse.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libff/argparse.py b/libff/argparse.py
index 576e1d9..a460daf 100644
--- a/libff/argparse.py
+++ b/libff/argparse.py
@@ -420,7 +420,7 @@ class ArgumentParser:
         if not argv:
             raise ArgumentError(f"{option.repr} requires an argument")
         else:
-            return option.type(argv.pop(0))
+            return self.convert_argument(option, argv.pop(0))
 
     def get_optional_argument(self, option, argv):
         """Fetch an optional argument from the argument list.
@@ -428,7 +428,15 @@ class ArgumentParser:
         if not argv or argv[0].startswith("-"):
             raise ArgumentError(f"{option.repr} requires an argument")
         else:
-            return option.type(argv.pop(0))
+            return self.convert_argument(option, argv.pop(0))
+
+    def convert_argument(self, option, string):
+        """Convert the argument of an option to the required type.
+        """
+        try:
+            return option.type(string)
+        except ValueError as exc:
+            raise ArgumentError(f"invalid argument {string!r} for {option.repr}: {exc}") from exc
 
     def parse_option(self, argv):
         """Parse a single option and act according to its action.
-- 
2.43.0


From 718fc72bbf9e70e4d7301f8ca28d50615d6bcdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 14/74] fix: check option arguments against the list of choices

---
 libff/argparse.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libff/argparse.py b/libff/argparse.py
index a460daf..4b2a91d 100644
--- a/libff/argparse.py
+++ b/libff/argparse.py
@@ -434,10 +434,16 @@ class ArgumentParser:
         """Convert the argument of an option to the required type.
         """
         try:
-            return option.type(string)
+            value = option.type(string)
         except ValueError as exc:
             raise ArgumentError(f"invalid argument {string!r} for {option.repr}: {exc}") from exc
 
+        if option.choices is not None and value not in option.choices:
+            raise ArgumentError(f"invalid argument {string!r} for {option.repr}, "\
+                    f"choose from {', '.join(option.choices)}")
+
+        return value
+
     def parse_option(self, argv):
         """Parse a single option and act according to its action.
         """
-- 
2.43.0


From 736c7fe50fbee9566b7189fac3b47280c9797190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 15/74] fix: allow bundled short options with a separate
 argument

---
 libff/argparse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/argparse.py b/libff/argparse.py
index 4b2a91d..610c49c 100644
--- a/libff/argparse.py
+++ b/libff/argparse.py
@@ -359,7 +359,8 @@ class ArgumentParser:
 
             if option.action in ("store", "store_optional", "append"):
                 argv.insert(i, short_option)
-                argv.insert(i + 1, arg[1:])
+                if arg[1:]:
+                    argv.insert(i + 1, arg[1:])
                 break
             else:
                 argv.insert(i, short_option)
-- 
2.43.0


From 73823aea38b6a4b19d28ecd8aad8f87a98715dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 16/74] fix: treat a missing start directory as a usage error

---
 libff/main.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libff/main.py b/libff/main.py
index f5cc1a2..6b7663f 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -173,7 +173,12 @@ class _Base(BaseClass):
                     self.logger.debug("info",
                             f"    found ignorefile in parent: {ignore}")
 
-            walker.put([Directory(StartDirectory(self.context.args, path), "", ignores)])
+            try:
+                start_directory = StartDirectory(self.context.args, path)
+            except OSError as exc:
+                raise UsageError(f"unable to search in {path!r}: {exc.strerror}") from exc
+
+            walker.put([Directory(start_directory, "", ignores)])
 
     def setup(self, args, error=None, warnings=None):
         """Set up context, components, processing and walkers.
-- 
2.43.0


From b02696b44538a36f79f431bc7dbb612bc55056a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:39 +0000
Subject: [PATCH 17/74] fix: do not search the same start directory twice

---
 libff/arguments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libff/arguments.py b/libff/arguments.py
index 393057e..1ccce0d 100644
--- a/libff/arguments.py
+++ b/libff/arguments.py
@@ -262,6 +262,8 @@ class ArgumentsPostProcessor:
         for directory in sorted(self.args.directories, reverse=True):
             for subdir in self.args.directories:
                 if subdir == directory:
+                    if self.args.directories.count(directory) > 1:
+                        raise UsageError(f"{directory!r} is specified more than once")
                     continue
                 # XXX With --one-file-system it would be okay to specify a directory argument that
                 # only looks like a subdirectory of another argument but actually lives on a
-- 
2.43.0


From dd80aa87e559a3ec7184cc9c59a9d477d631331f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 18/74] fix: reject invalid boolean values in optimized mode

---
 libff/type.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/type.py b/libff/type.py
index 0147ec7..30288ad 100644
--- a/libff/type.py
+++ b/libff/type.py
@@ -444,7 +444,8 @@ class Boolean(Type):
 
     @classmethod
     def input(cls, value):
-        assert value.lower() in cls.true + cls.false
+        if value.lower() not in cls.true + cls.false:
+            raise ValueError(f"unable to parse {value!r}")
         return value.lower() in cls.true
 
     @classmethod
-- 
2.43.0


From 44763fe19a6960df3760db95622a6e23718f1cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 19/74] fix: the shake_128 and shake_256 plugins failed for
 every file

---
 plugins/hash.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plugins/hash.py b/plugins/hash.py
index 193670a..18d6ba7 100644
--- a/plugins/hash.py
+++ b/plugins/hash.py
@@ -38,7 +38,11 @@ class _Hash(Plugin):
             with open(entry.path, "rb") as fobj:
                 while buf := fobj.read(8192):
                     h.update(buf)
-            return self.name, h.hexdigest()
+            if self.name.startswith("shake_"):
+                # The SHAKE algorithms have a variable length, use the same default as openssl(1).
+                return self.name, h.hexdigest(int(self.name.split("_")[1]) // 8)
+            else:
+                return self.name, h.hexdigest()
         except (OSError, EOFError) as exc:
             raise NoData from exc
 
-- 
2.43.0


From 94e91d3042c9dd57da81f63501f6b1d2069c0ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 20/74] fix: symbolic modes with several parts were mixed up

---
 libff/type.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/libff/type.py b/libff/type.py
index 30288ad..f2d65cd 100644
--- a/libff/type.py
+++ b/libff/type.py
@@ -285,7 +285,7 @@ class Mode(Type):
     sort_none = 0
     count = Count.COUNT
 
-    regex = re.compile(r"([ugoa]*)([-+=])([rwxXst]+)|([-+=])?([0-7]+)$")
+    regex = re.compile(r"(?:([ugoa]*)([-+=])([rwxXst]+)|([-+=])?([0-7]+))\Z")
 
     MODE_ALL = stat.S_ISUID | stat.S_ISGID | stat.S_ISVTX | \
                stat.S_IRWXU | stat.S_IRWXG | stat.S_IRWXO
@@ -295,9 +295,10 @@ class Mode(Type):
         """Parse an octal or symbolic file mode.
         """
         # pylint:disable=too-many-branches
-        affected = 0
         result = 0
         for part in value.split(","):
+            # Every part only affects its own permission bits.
+            affected = 0
             val = 0
 
             match = cls.regex.match(part)
@@ -346,12 +347,14 @@ class Mode(Type):
                 affected = cls.MODE_ALL
                 val = int(val, 8)
 
-            if operator in "+=":
-                result |= val
+            if operator == "=":
+                result = result & ~affected | affected & val
+            elif operator == "+":
+                result |= affected & val
             elif operator == "-":
-                result &= ~val
+                result &= ~(affected & val)
 
-        return affected & result
+        return result
 
     @classmethod
     def input(cls, value):
-- 
2.43.0


From 67eb843084dad5c1b432158019010a3891c02f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:40 +0000
Subject: [PATCH 21/74] fix: treat malformed exclude tests as usage errors

---
 libff/filter.py | 6 +++++-
 libff/main.py   | 9 ++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/libff/filter.py b/libff/filter.py
index c8654ee..3bb665f 100644
--- a/libff/filter.py
+++ b/libff/filter.py
@@ -21,7 +21,7 @@
 import itertools
 
 from . import BaseClass
-from .parser import Parser
+from .parser import Test, Parser, ParserError
 
 
 class MatcherParser(Parser):
@@ -65,6 +65,10 @@ class Excluder(Filter):
     def __init__(self, context, tokens):
         super().__init__(context, Parser(context, tokens))
 
+        for test in itertools.chain.from_iterable(self.parser):
+            if not isinstance(test, Test):
+                raise ParserError("only plain tests are supported")
+
     def test_empty(self, entry):
         """Default test method when the list of tests is empty.
         """
diff --git a/libff/main.py b/libff/main.py
index 6b7663f..6b54e87 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -137,9 +137,12 @@ class _Base(BaseClass):
         except ParserError as exc:
             raise UsageError(f"unable to parse tests: {exc}") from exc
 
-        # Setup the excluder from the command line arguments.
-        excluder = Excluder(self.context, args.exclude)
-        self.context.excluder = excluder
+        try:
+            # Setup the excluder from the command line arguments.
+            excluder = Excluder(self.context, args.exclude)
+            self.context.excluder = excluder
+        except ParserError as exc:
+            raise UsageError(f"unable to parse excludes: {exc}") from exc
 
     def setup_walker(self):
         """Set up the filesystem walker processes.
-- 
2.43.0


From 3c9ad248a0aa36607f316446d64145369ba8408f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:09 +0000
Subject: [PATCH 22/74] fix: do not skip the ignore files in the parent of a
 start directory

---
 libff/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/main.py b/libff/main.py
index 6b54e87..7635d26 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -165,7 +165,7 @@ class _Base(BaseClass):
                 # Find ignore files in parent directories.
                 if self.context.args.ignore:
                     ignores = GitIgnore.from_parent_directories(self.context.args.ignore_files,
-                            os.path.dirname(path))
+                            path)
                 else:
                     ignores = []
 
-- 
2.43.0


From 6abbb11ea2b517591410c6340459e1a2da6776c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:39 +0000
Subject: [PATCH 23/74] fix: remove newlines from the lines attribute

---
 libff/builtin/grep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/builtin/grep.py b/libff/builtin/grep.py
index 0cca127..15ad5e0 100644
--- a/libff/builtin/grep.py
+++ b/libff/builtin/grep.py
@@ -46,6 +46,6 @@ class Grep(Plugin):
                 else:
                     yield "text", True
                     yield "linecount", len(lines)
-                    yield "lines", lines
+                    yield "lines", [line.rstrip("\n") for line in lines]
         except OSError as exc:
             raise NoData from exc
-- 
2.43.0


From e982377cf05803951c4c0ce9f2b6fabe19624dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 24/74] fix: do not silently drop results if -X gets an
 argument that is too long

---
 libff/processing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libff/processing.py b/libff/processing.py
index 75cd94d..7be6dcf 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -417,6 +417,8 @@ class CollectiveExecProcessing(CollectiveMixin, BaseProcessing):
                         # to come up with a reliable heuristic based on SC_ARG_MAX, which is the
                         # maximum allowed size of the command line *plus* the environment.
                         split = len(entries) // 2
+                        if split == 0:
+                            raise SubprocessError(str(exc)) from exc
                         remainder = entries[split:] + remainder
                         entries = entries[:split]
                     else:
-- 
2.43.0


From e6a9871b1d7cb452de61a87ae204b95f1c73c3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 25/74] fix: stop() must never block

---
 libff/context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libff/context.py b/libff/context.py
index e950cdb..a6695a8 100644
--- a/libff/context.py
+++ b/libff/context.py
@@ -69,8 +69,8 @@ class Context:
         self.output_lock = multiprocessing.Lock()
 
         # We use a Queue object to emulate a stop event, because multiprocessing.Event did not work
-        # the way I expected it.
-        self.stop_queue = multiprocessing.Queue(self.args.jobs)
+        # the way I expected it. It must have room for all processes including the main process.
+        self.stop_queue = multiprocessing.Queue(self.args.jobs + 1)
 
         # Create a Barrier with the number of processes plus one for the main process.
         if __debug__ and self.args.profile:
-- 
2.43.0


From a217c44f088bff07486703e93206fabc811b9e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 26/74] fix: the git plugin did not recognize renamed files and
 files with special names

---
 plugins/git.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/plugins/git.py b/plugins/git.py
index 4f3c12a..ccba1b5 100644
--- a/plugins/git.py
+++ b/plugins/git.py
@@ -31,9 +31,10 @@ class Filelist(set):
     def __init__(self, dirname):
         super().__init__()
 
-        proc = subprocess.run(["git", "-C", dirname, "ls-files"], capture_output=True, text=True,
+        # Use NUL-terminated file names, they are not quoted by git.
+        proc = subprocess.run(["git", "-C", dirname, "ls-files", "-z"], capture_output=True,
                 check=False)
-        for filename in proc.stdout.splitlines():
+        for filename in os.fsdecode(proc.stdout).split("\0")[:-1]:
             self.add(os.path.join(dirname, filename))
 
 
@@ -44,12 +45,16 @@ class Status(set):
     def __init__(self, dirname):
         super().__init__()
 
-        proc = subprocess.run(["git", "-C", dirname, "status", "--porcelain"], capture_output=True,
-                text=True, check=False)
-        for line in proc.stdout.splitlines():
-            status, filename = line.split(None, 1)
+        proc = subprocess.run(["git", "-C", dirname, "status", "--porcelain", "-z"],
+                capture_output=True, check=False)
+        lines = iter(os.fsdecode(proc.stdout).split("\0")[:-1])
+        for line in lines:
+            status, filename = line[:2], line[3:]
             if status == "??":
                 continue
+            if "R" in status or "C" in status:
+                # In case of a rename or copy the next item is the original file name.
+                next(lines)
             self.add(os.path.join(dirname, filename))
 
 
-- 
2.43.0


From 074c16a2aefcce81311524b759f8222c612e9c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 27/74] fix: the git plugin did not recognize submodules and
 linked working trees

---
 plugins/git.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugins/git.py b/plugins/git.py
index ccba1b5..16e67d0 100644
--- a/plugins/git.py
+++ b/plugins/git.py
@@ -88,7 +88,8 @@ class Git(Plugin):
         """
         if dirname not in self._cache:
             path = os.path.join(dirname, ".git")
-            if os.path.isdir(path):
+            # In linked working trees and submodules .git is a regular file.
+            if os.path.exists(path):
                 self._cache[dirname] = dirname, Filelist(dirname), Status(dirname)
             else:
                 if dirname == os.sep:
-- 
2.43.0


From cf99fe62216cc8e575750de94567c15fb7b8fd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:46 +0000
Subject: [PATCH 28/74] fix: glob patterns did not match properly if there were
 newlines in a file name

---
 libff/ignore.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libff/ignore.py b/libff/ignore.py
index e04aa95..eeb7bee 100644
--- a/libff/ignore.py
+++ b/libff/ignore.py
@@ -91,11 +91,11 @@ class Glob:
         parts = []
         for part in re.split(r"(/\*\*/|\*\*/|/\*\*|\*|\?|\[![^\]]+\]|\[[^\]]+\])", pattern):
             if part == "/**/":
-                part = "(?:/|/.+/)"
+                part = "(?s:/|/.+/)"
             elif part == "**/":
-                part = "(?:.+/)?"
+                part = "(?s:.+/)?"
             elif part == "/**":
-                part = "(?:/.+)?"
+                part = "(?s:/.+)?"
             elif part == "*":
                 part = "[^/]*"
             elif part == "?":
@@ -108,7 +108,7 @@ class Glob:
                 part = re.escape(part)
             parts.append(part)
 
-        return "^" + "".join(parts) + "$", include, anchored, directory
+        return "^" + "".join(parts) + r"\Z", include, anchored, directory
 
     def match(self, path, basename=None, is_dir=None):
         """Match a path against the pattern. If the path matches the pattern, you must use the
-- 
2.43.0


From 627deaf198a8bd7e6fa79b7f2e214ee286c2c8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 29/74] fix: character classes in glob patterns were
 mistranslated

---
 libff/ignore.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/libff/ignore.py b/libff/ignore.py
index eeb7bee..527dfd9 100644
--- a/libff/ignore.py
+++ b/libff/ignore.py
@@ -89,8 +89,12 @@ class Glob:
 
         # Translate the wildcards to regular expression syntax.
         parts = []
-        for part in re.split(r"(/\*\*/|\*\*/|/\*\*|\*|\?|\[![^\]]+\]|\[[^\]]+\])", pattern):
-            if part == "/**/":
+        for i, part in enumerate(
+                re.split(r"(/\*\*/|\*\*/|/\*\*|\*|\?|\[![^\]]+\]|\[[^\]]+\])", pattern)):
+            if i % 2 == 0:
+                # The text between two wildcards.
+                part = re.escape(part)
+            elif part == "/**/":
                 part = "(?s:/|/.+/)"
             elif part == "**/":
                 part = "(?s:.+/)?"
@@ -100,16 +104,21 @@ class Glob:
                 part = "[^/]*"
             elif part == "?":
                 part = "[^/]"
-            elif part.startswith("[!"):
-                part = f"[^{part[2:-1]}]"
-            elif part.startswith("["):
-                part = f"[{part[1:-1]}]"
+            elif part.startswith("[!") and len(part) > 3:
+                part = f"(?!/)[^{Glob.escape_class(part[2:-1])}]"
             else:
-                part = re.escape(part)
+                part = f"(?!/)[{Glob.escape_class(part[1:-1])}]"
             parts.append(part)
 
         return "^" + "".join(parts) + r"\Z", include, anchored, directory
 
+    @staticmethod
+    def escape_class(chars):
+        """Escape everything in a character class that has a special meaning only in regular
+           expressions.
+        """
+        return re.sub(r"([\\\[&~|])", r"\\\1", chars)
+
     def match(self, path, basename=None, is_dir=None):
         """Match a path against the pattern. If the path matches the pattern, you must use the
            .include attribute to determine whether the path is to be added or removed from the
-- 
2.43.0


From ded2c1c91e1dd4192ed98fcc1c1b643cdfb2d1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 30/74] fix: invalid glob patterns made the search fail

---
 libff/ignore.py | 12 ++++++++++++
 libff/parser.py |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/libff/ignore.py b/libff/ignore.py
index 527dfd9..b838d51 100644
--- a/libff/ignore.py
+++ b/libff/ignore.py
@@ -48,6 +48,14 @@ class Glob:
             self._regex = re.compile(self.regex_pattern)
         return self._regex
 
+    def is_valid(self):
+        """Return True if the pattern can be used for matching.
+        """
+        try:
+            return self.regex is not None
+        except re.error:
+            return False
+
     @staticmethod
     def translate(pattern, path_pattern=True):
         """Translate the pattern to a regular expression.
@@ -194,6 +202,10 @@ class GitIgnore:
                 continue
 
             pattern = Glob(pattern)
+            if not pattern.is_valid():
+                # An invalid pattern never matches.
+                continue
+
             if pattern.get_group_key() != key:
                 # Start new group.
                 key = pattern.get_group_key()
diff --git a/libff/parser.py b/libff/parser.py
index 2a6b446..b28b150 100644
--- a/libff/parser.py
+++ b/libff/parser.py
@@ -318,5 +318,7 @@ class Parser(BaseClass):
 
             elif operator == "%":
                 value = Glob(value, path_pattern=issubclass(type_cls, Path))
+                if not value.is_valid():
+                    raise ExpressionError(f"Invalid glob pattern {value.pattern!r}")
 
         return Test(attribute, operator, type_cls, value, ignore_case)
-- 
2.43.0


From 3eadcb3b853543ac757120102519f1c8e89a4d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 31/74] fix: match glob patterns against the basename of the
 attribute value

---
 libff/type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/type.py b/libff/type.py
index f2d65cd..dc42bf3 100644
--- a/libff/type.py
+++ b/libff/type.py
@@ -170,7 +170,7 @@ class Path(String):
             value = value.lower()
 
         if test.operator == "%":
-            basename = entry.name.lower() if test.ignore_case else entry.name
+            basename = os.path.basename(value)
             is_dir = entry.is_dir()
 
             if test.value.match(value, basename, is_dir):
-- 
2.43.0


From 27f55c61a59a2274b15f27988a8897b0da8bd0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 32/74] fix: ignoring the case must not change the meaning of a
 regular expression

---
 libff/parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libff/parser.py b/libff/parser.py
index b28b150..603112b 100644
--- a/libff/parser.py
+++ b/libff/parser.py
@@ -306,13 +306,15 @@ class Parser(BaseClass):
             else:
                 ignore_case = self.args.case == "ignore"
 
-            if ignore_case:
+            # Regular expressions use re.IGNORECASE, because changing them to lower case would
+            # change the meaning of character classes like \\D.
+            if ignore_case and operator != "~":
                 value = value.lower()
 
             # Pre-compile regular expressions.
             if operator == "~":
                 try:
-                    value = re.compile(value)
+                    value = re.compile(value, re.IGNORECASE if ignore_case else 0)
                 except re.error as exc:
                     raise ExpressionError(f"Invalid regex pattern {value!r}: {exc}") from exc
 
-- 
2.43.0


From 3fe341c17c2c5613040a8e705b624592de536b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 33/74] fix: ignore files with undecodable characters made the
 search fail

---
 libff/ignore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/ignore.py b/libff/ignore.py
index b838d51..7a2e33e 100644
--- a/libff/ignore.py
+++ b/libff/ignore.py
@@ -186,7 +186,7 @@ class GitIgnore:
         self.path = join(dirname, name)
 
         # pylint:disable=unspecified-encoding
-        with open(self.path) as lines:
+        with open(self.path, errors="surrogateescape") as lines:
             self.lines = list(lines)
 
         # Collect the glob patterns from the gitignore file and translate them to regular
-- 
2.43.0


From 949ce7f98121d286d6f08b4d2f9d988045d76ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:23 +0000
Subject: [PATCH 34/74] fix: the tar plugin failed for damaged archives and its
 result was not ordered

---
 plugins/tar.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/plugins/tar.py b/plugins/tar.py
index 006867a..b0c98eb 100644
--- a/plugins/tar.py
+++ b/plugins/tar.py
@@ -18,6 +18,8 @@
 #
 # -----------------------------------------------------------------------
 
+import zlib
+import lzma
 import tarfile
 
 from libff.plugin import *
@@ -46,13 +48,13 @@ class Tar(Plugin):
             ".tar.xz", ".txz")
 
     def can_handle(self, entry):
-        return entry.name.endswith(self.extensions)
+        return entry.is_file() and entry.name.endswith(self.extensions)
 
     def cache(self, entry):
         try:
             with tarfile.open(entry.path) as tar:
-                return set(name for name in tar.getnames())
-        except (OSError, EOFError) as exc:
+                return sorted(set(tar.getnames()))
+        except (OSError, EOFError, tarfile.TarError, zlib.error, lzma.LZMAError) as exc:
             raise NoData from exc
 
     def process(self, entry, cached):
-- 
2.43.0


From 865468140101670de61a0576ec433638912452ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:48 +0000
Subject: [PATCH 35/74] fix: the shebang must be the first line of a file

---
 plugins/introspect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/plugins/introspect.py b/plugins/introspect.py
index f03604e..c40765f 100644
--- a/plugins/introspect.py
+++ b/plugins/introspect.py
@@ -94,9 +94,9 @@ class Shebang(Plugin):
         """
         try:
             with open(path, "rb") as lines:
-                for line in lines:
-                    if line.startswith(b"#!"):
-                        return line[2:].decode("ascii").rstrip()
+                line = lines.readline()
+                if line.startswith(b"#!"):
+                    return line[2:].decode("ascii").rstrip()
         except (OSError, UnicodeDecodeError):
             pass
 
-- 
2.43.0


From a9169b6c816164a7a399e7c06dcac0880a1d08b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 36/74] fix: the py plugin missed imports and blocked on named
 pipes

---
 plugins/introspect.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plugins/introspect.py b/plugins/introspect.py
index c40765f..4a01169 100644
--- a/plugins/introspect.py
+++ b/plugins/introspect.py
@@ -141,9 +141,12 @@ class Py(Plugin):
                         yield node.module
 
             elif isinstance(node, ast.Import):
-                yield node.names[0].name
+                for name in node.names:
+                    yield name.name
 
     def can_handle(self, entry):
+        if not entry.is_file():
+            return False
         if entry.ext.lower() == "py":
             return True
         shebang = Shebang.extract_shebang(entry.path)
-- 
2.43.0


From 1298ceada86830af7f935c9ffdb2d05250a9e313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 37/74] fix: . and .. are no hidden path components

---
 libff/entry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/entry.py b/libff/entry.py
index 791498e..d47e131 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -299,7 +299,8 @@ class Entry:
         """Whether the file is "hidden" or not, i.e. if one of the path components contains a
            leading dot.
         """
-        return any(part.startswith(".") for part in self.path.split(os.sep))
+        return any(part.startswith(".") and part not in (os.curdir, os.pardir)
+                for part in self.path.split(os.sep))
 
     @property
     def empty(self):
-- 
2.43.0


From 6ee333e4e034c6e876f47dbd3594d8618bb317ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 38/74] fix: allow reference files in the current directory if
 it is not searched

---
 libff/entry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/entry.py b/libff/entry.py
index d47e131..bee8f68 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -111,7 +111,7 @@ class Entry:
         else:
             directory, relpath = split(path)
 
-        start_directory = StartDirectory(args, directory)
+        start_directory = StartDirectory(args, directory or os.curdir)
         status = os.stat(path, follow_symlinks=args.follow_symlinks)
 
         return cls(start_directory, relpath, status)
-- 
2.43.0


From 8d870531aeab10eb7eaa0b738434f95481313120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 39/74] fix: arguments with null bytes are no reason to crash

---
 libff/context.py    | 3 ++-
 libff/processing.py | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/libff/context.py b/libff/context.py
index a6695a8..46ad542 100644
--- a/libff/context.py
+++ b/libff/context.py
@@ -195,7 +195,8 @@ class Context:
                 else:
                     process.terminate()
 
-        except OSError as exc:
+        except (OSError, ValueError) as exc:
+            # ValueError is raised for arguments with embedded null bytes.
             self.logger.error(exc, None)
 
         if exitcode != 0:
diff --git a/libff/processing.py b/libff/processing.py
index 7be6dcf..98d1ea5 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -410,6 +410,8 @@ class CollectiveExecProcessing(CollectiveMixin, BaseProcessing):
                     process = subprocess.run(args, check=False)
                     if process.returncode != 0:
                         self.context.set_exitcode(EX_SUBPROCESS)
+                except ValueError as exc:
+                    raise SubprocessError(str(exc)) from exc
                 except OSError as exc:
                     if exc.errno == errno.E2BIG:
                         # As long as the command line is too long to pass to a subprocess, split
-- 
2.43.0


From 27c1a818443780ae4b53b3895f6c39440008171b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 40/74] fix: stop the processes of an abandoned search and
 report failed ones

---
 libff/find.py       | 16 +++++++++++-----
 libff/processing.py |  7 +++++++
 libff/walk.py       |  6 ++++++
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/libff/find.py b/libff/find.py
index 506b968..a2f61b2 100644
--- a/libff/find.py
+++ b/libff/find.py
@@ -23,6 +23,7 @@ import argparse
 
 from .main import _Base
 from .ignore import IGNORE_FILES
+from .exceptions import EX_PROCESS, ProcessError
 from .arguments import Defaults, ArgumentsPostProcessor
 from .processing import ImmediateGenerator, CollectiveGenerator
 
@@ -125,11 +126,16 @@ class Find(_Base):
 
             yield from self.context.processing
 
-        except KeyboardInterrupt:
-            # Stop all processes immediately.
+        except BaseException:
+            # Stop all processes immediately (also in case the iteration is abandoned).
             self.context.stop()
             raise
 
-        self.context.close()
-        self.context.walker.close()
-        self.context.processing.close()
+        finally:
+            self.context.close()
+            self.context.walker.close()
+            self.context.processing.close()
+
+        if self.context.exitcode == EX_PROCESS:
+            raise ProcessError("One or more ff processes had unrecoverable errors! "\
+                    "Result is probably incomplete!")
diff --git a/libff/processing.py b/libff/processing.py
index 98d1ea5..b0d2bdc 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -138,6 +138,10 @@ class BaseProcessing(BaseClass):
            collects entries first).
         """
 
+    def cancel(self):
+        """Allow a Walker process to stop before all its results are delivered.
+        """
+
     def close(self):
         """Allow doing some clean up.
         """
@@ -234,6 +238,9 @@ class OutQueueMixin(BaseProcessing):
             self.undelivered.value += 1
         self.out_queue.put(entries)
 
+    def cancel(self):
+        self.out_queue.cancel_join_thread()
+
     def chunks(self):
         """Iterate over the chunks of entries from the Walker processes until there are no more.
         """
diff --git a/libff/walk.py b/libff/walk.py
index df0ddbe..abc5f9c 100644
--- a/libff/walk.py
+++ b/libff/walk.py
@@ -132,6 +132,12 @@ class FilesystemWalker(BaseClass):
             # multiprocessing to do it for us.
             traceback.print_exc()
 
+        if self.context.is_stopping():
+            # Nobody is going to fetch the remaining items from the queues, so do not wait for
+            # that.
+            self.queue.cancel_join_thread()
+            self.processing.cancel()
+
         if __debug__:
             self.logger.debug_proc(self.index, "stopped")
 
-- 
2.43.0


From 89b688a9c3b7c3206765323de6c38d2e37c72293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 41/74] fix: test values may contain newlines

---
 libff/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/parser.py b/libff/parser.py
index 603112b..c0bdf52 100644
--- a/libff/parser.py
+++ b/libff/parser.py
@@ -94,7 +94,7 @@ class Parser(BaseClass):
     expression_regex = re.compile(r"^\s*((?:\w+\.)?\w+?)\s*"\
                                   r"(=|:|~|%|>=|>|<=|<|\+=|\+|\-=|\-)"\
                                   r"(\{(?:\w+\.)?\w+?\}|\{\})?"\
-                                  r"\s*(.+)\s*$")
+                                  r"\s*(.+)\Z", re.DOTALL)
 
     def __init__(self, context, tokens):
         super().__init__(context)
-- 
2.43.0


From 7dcd0e2b9f7eb79d73fd7a446f7d8864cc1bf243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 42/74] fix: a reference to a list attribute made the search
 crash

---
 libff/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libff/parser.py b/libff/parser.py
index c0bdf52..b1c8b2a 100644
--- a/libff/parser.py
+++ b/libff/parser.py
@@ -285,6 +285,8 @@ class Parser(BaseClass):
             # from after evaluating the reference.
             if reference is not None:
                 value = self.get_reference_value(type_cls, attribute, reference, value)
+                if isinstance(value, (list, set)):
+                    raise UsageError(f"Attribute {attribute} cannot be used with a reference")
             else:
                 value = type_cls.input(value)
 
-- 
2.43.0


From 271e2a78ec029c2c2976940108f79e52cdc48014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 43/74] fix: sizes with a fraction lost a byte because of
 rounding errors

---
 libff/convert.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libff/convert.py b/libff/convert.py
index 6ef183c..ce0633f 100644
--- a/libff/convert.py
+++ b/libff/convert.py
@@ -21,6 +21,7 @@
 import re
 import time
 import datetime
+import fractions
 
 UNITS = ("", "K", "M", "G", "T", "P", "E", "Z", "Y")
 
@@ -71,7 +72,8 @@ def parse_size(string):
 
         exp = UNITS.index(prefix)
         base = 1000 if suffix == "B" else 1024
-        return int(float(number) * base ** exp)
+        # Use exact arithmetic, 1.001KB are 1001 bytes.
+        return int(fractions.Fraction(number) * base ** exp)
     else:
         return int(number_in_bytes)
 
-- 
2.43.0


From e9e394c517fbd42ebd591d3e5316c3243acb03cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:06 +0000
Subject: [PATCH 44/74] fix: a mountpoint was attributed to the filesystem
 above it

---
 libff/entry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/entry.py b/libff/entry.py
index bee8f68..98d4803 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -55,7 +55,7 @@ class Mountpoints:
         """Get the mountpoint, device name and filesystem type for path.
         """
         for mpath, devname, fstype in self.entries:
-            if mpath == path or path.startswith(mpath):
+            if (path + os.sep).startswith(mpath):
                 return mpath, devname, fstype
         return os.sep, "root_device", "rootfs"
 
-- 
2.43.0


From 590234618ea26039115185fa6280502cce59625a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:36 +0000
Subject: [PATCH 45/74] fix: path attributes of reference files were not
 absolute with -a

---
 libff/entry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libff/entry.py b/libff/entry.py
index 98d4803..1b6b9c7 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -101,6 +101,8 @@ class Entry:
         # from the command line, in order to emulate attributes like depth and samedev. If the
         # reference file is outside of the search area we use default values.
         abspath = os.path.abspath(path)
+        if args.absolute_path:
+            path = abspath
         for directory in args.directories:
             # Go through the list of search directories and pick the first one that matches the
             # reference file.
@@ -111,6 +113,8 @@ class Entry:
         else:
             directory, relpath = split(path)
 
+        if args.absolute_path and directory:
+            directory = os.path.abspath(directory)
         start_directory = StartDirectory(args, directory or os.curdir)
         status = os.stat(path, follow_symlinks=args.follow_symlinks)
 
-- 
2.43.0


From 3d7db96d0d1e72c7fcabd5d96b5d4aa49b9fcc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 46/74] fix: the root directory as a reference made the search
 crash

---
 libff/entry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/entry.py b/libff/entry.py
index 1b6b9c7..04fc1a7 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -143,7 +143,7 @@ class Entry:
             # Don't set link and target so that KeyError is raised in get_attribute().
             self.broken = False
 
-        self.hide = self.name[0] == "."
+        self.hide = self.name.startswith(".")
 
         self.mode = self.status.st_mode
 
-- 
2.43.0


From 8bdca9d82ebfce29e4d2283bb0d64d6d2812d7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:55 +0000
Subject: [PATCH 47/74] fix: trailing directory arguments were not recognized
 after leading ones

---
 libff/arguments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libff/arguments.py b/libff/arguments.py
index 1ccce0d..5be451a 100644
--- a/libff/arguments.py
+++ b/libff/arguments.py
@@ -245,8 +245,8 @@ class ArgumentsPostProcessor:
             # Check which arguments are existing directories and append them to
             # self.args.directories. We allow directory arguments only at the start or the end of
             # the list of tests.
-            for tests in (list(self.args.tests), reversed(self.args.tests)):
-                for test in tests:
+            for step in (1, -1):
+                for test in self.args.tests[::step]:
                     if os.sep in test and os.path.isdir(test):
                         self.args.tests.remove(test)
                         directory = os.path.normpath(test)
-- 
2.43.0


From 95206a6de356a6e8eb0249e6a113d881f3b4d8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 48/74] fix: target and broken were wrong for symbolic links
 with an absolute target

---
 libff/entry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/entry.py b/libff/entry.py
index 04fc1a7..871d348 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -137,7 +137,7 @@ class Entry:
         # Collect information early to avoid having OSErrors later on.
         if stat.S_ISLNK(self.status.st_mode):
             self.link = os.readlink(self.path)
-            self.target = os.path.realpath(join(self.dir, self.link))
+            self.target = os.path.realpath(self.path)
             self.broken = not os.path.exists(self.target)
         else:
             # Don't set link and target so that KeyError is raised in get_attribute().
-- 
2.43.0


From 194c7668a68b97be0d7dda67e5f7b46a2eb66841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:14 +0000
Subject: [PATCH 49/74] fix: durations with an unknown unit were accepted as
 zero

---
 libff/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/convert.py b/libff/convert.py
index ce0633f..0368f42 100644
--- a/libff/convert.py
+++ b/libff/convert.py
@@ -91,7 +91,7 @@ def format_duration(seconds):
         return f"{minutes}m{seconds:02}s"
 
 
-regex_duration = re.compile(r"(\d+)([smhdwMy])?")
+regex_duration = re.compile(r"(\d+)([smhdwMy])")
 
 def parse_duration(string):
     """Convert a human readable duration from a string to seconds.
-- 
2.43.0


From 7d52342ee4e153ad573902d52e6fe1f5266c13b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 50/74] fix: the filesystem of a file was wrong if a symbolic
 link led to it

---
 libff/entry.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/libff/entry.py b/libff/entry.py
index 871d348..b5f0941 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -365,19 +365,19 @@ class Entry:
     def mpath(self):
         """The path of the nearest mountpoint.
         """
-        return self._mountpoints.get(self.abspath)[0]
+        return self._mountpoints.get(self.realpath)[0]
 
     @property
     def devname(self):
         """The name of the device the file is located.
         """
-        return self._mountpoints.get(self.abspath)[1]
+        return self._mountpoints.get(self.realpath)[1]
 
     @property
     def fstype(self):
         """The type of the filesystem the file is located.
         """
-        return self._mountpoints.get(self.abspath)[2]
+        return self._mountpoints.get(self.realpath)[2]
 
     @property
     def pseudofs(self):
@@ -400,6 +400,14 @@ class Entry:
         """
         return self.name
 
+    @property
+    def realpath(self):
+        """The absolute path without any symbolic links on the way to the entry.
+        """
+        if self.is_symlink():
+            return join(os.path.realpath(os.path.dirname(self.abspath)), self.name)
+        return os.path.realpath(self.abspath)
+
     def is_dir(self):
         """Return True if the Entry is a directory.
         """
-- 
2.43.0


From b00c3608667ae00332a3cdf50b1effb8fee87c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 51/74] fix: --one-file-system found nothing in a start
 directory that is a link to another filesystem

---
 libff/entry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libff/entry.py b/libff/entry.py
index b5f0941..991c406 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -77,7 +77,9 @@ class StartDirectory:
     def __init__(self, args, root):
         self.root = root
         self.absroot = os.path.abspath(root)
-        self.status = os.stat(self.root, follow_symlinks=args.follow_symlinks)
+        # A start directory that is a symbolic link is entered no matter what, so it is always the
+        # directory behind it that counts.
+        self.status = os.stat(self.root)
         self.device = self.status.st_dev
 
 
-- 
2.43.0


From 155995e4b5f932ed983d2e8672ea19356b6244e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 52/74] fix: malformed FF_OPTIONS are a usage error

---
 libff/arguments.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libff/arguments.py b/libff/arguments.py
index 5be451a..14f2008 100644
--- a/libff/arguments.py
+++ b/libff/arguments.py
@@ -339,7 +339,10 @@ def parse_arguments():
     """
     parser = create_parser()
 
-    argv = collect_arguments()
+    try:
+        argv = collect_arguments()
+    except ValueError as exc:
+        parser.error(f"unable to parse FF_OPTIONS: {exc}")
     args = parser.parse_args(argv)
 
     if args.help == "all":
-- 
2.43.0


From 91491860480e4e77c1b60fb75bd55633351cc5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 53/74] fix: Find must not modify or depend on the caller's
 lists

---
 libff/find.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libff/find.py b/libff/find.py
index a2f61b2..9a1db27 100644
--- a/libff/find.py
+++ b/libff/find.py
@@ -74,7 +74,7 @@ class Find(_Base):
         elif isinstance(query, str):
             tests = shlex.split(query)
         else:
-            tests = query
+            tests = list(query)
 
         args = FindNamespace()
         args.tests = tests
@@ -85,7 +85,7 @@ class Find(_Base):
         args.reverse = reverse
         args.hide = hide
         args.ignore = ignore
-        args.ignore_files = ignore_files
+        args.ignore_files = set(ignore_files)
         args.one_file_system = one_file_system
         args.case = case
         args.si = si
-- 
2.43.0


From a9ffbd82e3a7e232262be1c70994f17d240203c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 54/74] fix: Find with jobs=0 never ended

---
 libff/find.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libff/find.py b/libff/find.py
index 9a1db27..d8235c7 100644
--- a/libff/find.py
+++ b/libff/find.py
@@ -69,6 +69,9 @@ class Find(_Base):
         if case not in Defaults.case_choices:
             raise ValueError(f"case argument must be one of {', '.join(Defaults.case_choices)}")
 
+        if jobs < 0:
+            raise ValueError("jobs argument must not be negative")
+
         if query is None:
             tests = []
         elif isinstance(query, str):
@@ -91,7 +94,7 @@ class Find(_Base):
         args.si = si
         args.follow_symlinks = follow_symlinks
         args.absolute_path = absolute_path
-        args.jobs = jobs
+        args.jobs = jobs or Defaults.jobs
         args.cache = cache
 
         processor = ArgumentsPostProcessor(args)
-- 
2.43.0


From 77161182c22700827b0b4086bc9ae464ce234c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 55/74] fix: a missing man(1) was reported with the exit status
 of --fail

---
 libff/help.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libff/help.py b/libff/help.py
index 2753c77..107ba24 100644
--- a/libff/help.py
+++ b/libff/help.py
@@ -262,9 +262,9 @@ class ManPage:
         try:
             subprocess.run(["man", "-l", "-"], input="\n".join(self.lines), text=True, check=True)
         except FileNotFoundError as exc:
-            raise SystemExit("unable to call man(1), is it installed?") from exc
+            raise exceptions.UsageError("unable to call man(1), is it installed?") from exc
         except subprocess.CalledProcessError as exc:
-            raise SystemExit("calling man(1) failed") from exc
+            raise exceptions.UsageError("calling man(1) failed") from exc
 
 
 class FullManPage(ManPage):
-- 
2.43.0


From 55f94ae8aa61447922b40fc8d9ac70d273a72045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:48 +0000
Subject: [PATCH 56/74] fix: a killed process could leave a lock behind that
 blocks the main process

---
 libff/context.py    | 26 ++++++++++++++++----------
 libff/processing.py | 18 +++++++++---------
 libff/walk.py       |  2 ++
 3 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/libff/context.py b/libff/context.py
index 46ad542..2ecdbed 100644
--- a/libff/context.py
+++ b/libff/context.py
@@ -53,7 +53,9 @@ class Context:
         self.exitcode_object = None
         self.process_succeeded = None
         self.process_failed = None
-        self.pending = None
+        self.process_index = 0
+        self.chunks_added = None
+        self.chunks_removed = None
 
         self.cache_hits = None
         self.cache_misses = None
@@ -85,10 +87,13 @@ class Context:
         self.process_succeeded = multiprocessing.Value("L")
         self.process_failed = multiprocessing.Value("L")
 
-        # The number of chunks that were put in the walker's queue but whose processing is not
-        # completed yet. The queue may look empty although there is more to do, because a
-        # multiprocessing.Queue passes on its items asynchronously in a background thread.
-        self.pending = multiprocessing.Value("L")
+        # The number of chunks that were put in the walker's queue, and of those whose processing is
+        # completed. The queue may look empty although there is more to do, because a
+        # multiprocessing.Queue passes on its items asynchronously in a background thread. Each
+        # process has its own pair of counters (the main process has the first one), so there is no
+        # need for a lock which a process that is killed would leave behind.
+        self.chunks_added = multiprocessing.sharedctypes.RawArray("L", self.args.jobs + 1)
+        self.chunks_removed = multiprocessing.sharedctypes.RawArray("L", self.args.jobs + 1)
 
         # Provide a shared counter for cache hits and misses.
         self.cache_hits = multiprocessing.Value("L")
@@ -136,20 +141,21 @@ class Context:
     def add_pending(self):
         """Register a chunk that is about to be put in the walker's queue.
         """
-        with self.pending.get_lock():
-            self.pending.value += 1
+        self.chunks_added[self.process_index] += 1
 
     def remove_pending(self):
         """Unregister a chunk after its processing is completed.
         """
-        with self.pending.get_lock():
-            self.pending.value -= 1
+        self.chunks_removed[self.process_index] += 1
 
     def has_pending(self):
         """Return True if there are chunks left to process. As only a pending chunk can produce new
            chunks, there is nothing left to do once this method returned False.
         """
-        return self.pending.value > 0
+        # The order is important: a chunk that is completed in the meantime must not be missed among
+        # those that were added.
+        removed = sum(self.chunks_removed)
+        return sum(self.chunks_added) > removed
 
     def idle_processes(self):
         """Return the number of idle processes, i.e. processes that are waiting for the barrier
diff --git a/libff/processing.py b/libff/processing.py
index b0d2bdc..ff65c3c 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -28,6 +28,7 @@ import threading
 import subprocess
 import collections
 import multiprocessing
+import multiprocessing.sharedctypes
 
 from . import TIMEOUT, BaseClass
 from .type import Count
@@ -228,14 +229,14 @@ class OutQueueMixin(BaseProcessing):
 
         self.out_queue = multiprocessing.Queue()
 
-        # The number of chunks that were put in the queue but did not arrive in the main process
-        # yet. We need this because a multiprocessing.Queue passes on its items asynchronously in a
-        # background thread, so it may look empty although there is more to come.
-        self.undelivered = multiprocessing.Value("L")
+        # The number of chunks that were put in the queue by each process, and of those that arrived
+        # in the main process. We need this because a multiprocessing.Queue passes on its items
+        # asynchronously in a background thread, so it may look empty although there is more to come.
+        self.sent = multiprocessing.sharedctypes.RawArray("L", self.args.jobs + 1)
+        self.received = 0
 
     def process(self, entries):
-        with self.undelivered.get_lock():
-            self.undelivered.value += 1
+        self.sent[self.context.process_index] += 1
         self.out_queue.put(entries)
 
     def cancel(self):
@@ -253,15 +254,14 @@ class OutQueueMixin(BaseProcessing):
                 else:
                     continue
 
-            with self.undelivered.get_lock():
-                self.undelivered.value -= 1
+            self.received += 1
 
             yield entries
 
     def delivery_done(self):
         """Return True if there are no more chunks to be expected.
         """
-        return self.undelivered.value == 0 or self.context.is_stopping() or \
+        return sum(self.sent) == self.received or self.context.is_stopping() or \
                 self.check_for_failed_processes()
 
 
diff --git a/libff/walk.py b/libff/walk.py
index abc5f9c..b770e1a 100644
--- a/libff/walk.py
+++ b/libff/walk.py
@@ -78,6 +78,8 @@ class FilesystemWalker(BaseClass):
         """Get arguments from the queue and process them until searching has finished.
         """
         # pylint:disable=too-many-branches,attribute-defined-outside-init,broad-except
+        self.context.process_index = index + 1
+
         if __debug__:
             self.index = index
             self.logger.debug_proc(self.index, "started")
-- 
2.43.0


From f637e22e7d0819eb52472cf95c65ea1fd0292626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:43 +0000
Subject: [PATCH 57/74] fix: a process that terminates while it delivers
 results could block the main process

---
 libff/processing.py | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/libff/processing.py b/libff/processing.py
index ff65c3c..bf3194c 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -235,6 +235,12 @@ class OutQueueMixin(BaseProcessing):
         self.sent = multiprocessing.sharedctypes.RawArray("L", self.args.jobs + 1)
         self.received = 0
 
+        # A process that is terminated while it delivers a chunk leaves an incomplete chunk in the
+        # queue which no one can ever finish reading. We must not be blocked by that.
+        self.in_queue = queue.SimpleQueue()
+        self.receiver = None
+        self.finished = False
+
     def process(self, entries):
         self.sent[self.context.process_index] += 1
         self.out_queue.put(entries)
@@ -242,12 +248,28 @@ class OutQueueMixin(BaseProcessing):
     def cancel(self):
         self.out_queue.cancel_join_thread()
 
+    def receive(self):
+        """Fetch the chunks of entries from the Walker processes in the background.
+        """
+        while not self.finished:
+            try:
+                self.in_queue.put(self.out_queue.get(timeout=TIMEOUT))
+            except queue.Empty:
+                continue
+            except Exception:
+                self.context.set_exitcode(EX_PROCESS)
+                self.context.stop()
+                raise
+
     def chunks(self):
         """Iterate over the chunks of entries from the Walker processes until there are no more.
         """
+        self.receiver = threading.Thread(target=self.receive, daemon=True)
+        self.receiver.start()
+
         while True:
             try:
-                entries = self.out_queue.get(timeout=TIMEOUT)
+                entries = self.in_queue.get(timeout=TIMEOUT)
             except queue.Empty:
                 if self.processing_done() and self.delivery_done():
                     break
@@ -258,12 +280,24 @@ class OutQueueMixin(BaseProcessing):
 
             yield entries
 
+        self.finished = True
+
     def delivery_done(self):
         """Return True if there are no more chunks to be expected.
         """
         return sum(self.sent) == self.received or self.context.is_stopping() or \
                 self.check_for_failed_processes()
 
+    def close(self):
+        super().close()
+
+        self.finished = True
+        if self.receiver is not None:
+            self.receiver.join(1)
+
+        if self.receiver is None or not self.receiver.is_alive():
+            self.out_queue.close()
+
 
 class CollectiveMixin(OutQueueMixin):
     """Processing mixin class that collects all entries first and then does the processing
@@ -302,8 +336,6 @@ class CollectiveMixin(OutQueueMixin):
     def close(self):
         super().close()
 
-        self.out_queue.close()
-
         if self.args.count is not None:
             self.print_count()
 
-- 
2.43.0


From bec7d96f5c0eff06ee79cbb00f35944bd96c6f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:13 +0000
Subject: [PATCH 58/74] fix: entries were left out of coloured output without
 LS_COLORS

---
 libff/console.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/console.py b/libff/console.py
index 1ade4a3..534ee47 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -322,7 +322,7 @@ class ColorConsole(Console):
     def colorize(self, rule, text):
         """Return a String object with text colorized according to rule.
         """
-        pair = self.colors[rule]
+        pair = self.colors.get(rule)
         if pair is None:
             return String(text, len(text))
         else:
-- 
2.43.0


From 712e16f4ebb4e8b55c560fd83e5e31703c70122b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:02 +0000
Subject: [PATCH 59/74] fix: the attribute 'ignored' disregarded parent
 directories without --ignore

---
 libff/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libff/main.py b/libff/main.py
index 7635d26..d78c212 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -162,8 +162,9 @@ class _Base(BaseClass):
                 # Don't use ignore files from parent directories.
                 ignores = []
             else:
-                # Find ignore files in parent directories.
-                if self.context.args.ignore:
+                # Find ignore files in parent directories. --ignore is just a short form for an
+                # exclude test, so it depends on whether the plugin is in use.
+                if "ignore" in self.context.registry.plugins:
                     ignores = GitIgnore.from_parent_directories(self.context.args.ignore_files,
                             path)
                 else:
-- 
2.43.0


From 08b03172f1bf8d4f560be381e988ca6990df6c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:32 +0000
Subject: [PATCH 60/74] fix: do not start the JSON output before the start
 directories are checked

---
 libff/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/main.py b/libff/main.py
index d78c212..cac1740 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -189,10 +189,11 @@ class _Base(BaseClass):
         """
         self.setup_context(args, error, warnings)
         self.setup_components()
+        # Check the start directories first, the console may already produce output.
+        self.setup_walker()
         self.setup_processing()
         if __debug__:
             self.show_debug_info()
-        self.setup_walker()
 
     def show_debug_info(self):
         """Show general debug information and the tests to be performed.
-- 
2.43.0


From 5eb3cad429e52afa383ec8a989677f3066ac4a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:12 +0000
Subject: [PATCH 61/74] fix: what the main process evaluated was never stored
 in the cache

---
 libff/find.py | 1 +
 libff/main.py | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/libff/find.py b/libff/find.py
index d8235c7..2c5a2d1 100644
--- a/libff/find.py
+++ b/libff/find.py
@@ -138,6 +138,7 @@ class Find(_Base):
             self.context.close()
             self.context.walker.close()
             self.context.processing.close()
+            self.context.cache.close()
 
         if self.context.exitcode == EX_PROCESS:
             raise ProcessError("One or more ff processes had unrecoverable errors! "\
diff --git a/libff/main.py b/libff/main.py
index cac1740..d5cc9a2 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -22,6 +22,7 @@ import os
 import sys
 import pstats
 import cProfile
+import traceback
 
 from . import BaseClass, __copyright__
 from .walk import Directory, FilesystemWalker
@@ -307,6 +308,13 @@ class Main(_Base):
         self.context.walker.close()
         self.context.processing.close()
 
+        try:
+            # The attributes that were evaluated in this process have to be stored as well.
+            self.context.cache.close()
+        except Exception:
+            self.context.set_exitcode(EX_PROCESS)
+            traceback.print_exc()
+
         if __debug__:
             hits = self.context.cache_hits.value
             misses = self.context.cache_misses.value
-- 
2.43.0


From ae6ecd931f26fcbc981f1f7b5e8f067eeb18ce6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:52 +0000
Subject: [PATCH 62/74] fix: searches with different versions of a plugin
 disturbed each other in the cache

---
 libff/cache.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/libff/cache.py b/libff/cache.py
index 9f48c20..aef1eeb 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -144,11 +144,16 @@ class Cache(NullCache):
         path = os.fsencode(path)
         tag = pickle.dumps(tag, pickle.HIGHEST_PROTOCOL)
 
-        for row in self.conn.execute(
-                f"select data from {plugin.sql_table_name} where path = ? and tag = ?",
-                (path, tag)):
-            self.hits += 1
-            return pickle.loads(row[0])
+        try:
+            for row in self.conn.execute(
+                    f"select data from {plugin.sql_table_name} where path = ? and tag = ?",
+                    (path, tag)):
+                self.hits += 1
+                return pickle.loads(row[0])
+        except sqlite3.OperationalError as exc:
+            # The table is removed if another process uses a different version of this plugin.
+            if "no such table" not in str(exc):
+                raise
 
         self.misses += 1
         return super().get(plugin, path, tag)
@@ -177,6 +182,8 @@ class Cache(NullCache):
         for plugin, rows in self.cached_rows.items():
             while True:
                 try:
+                    for statement in self.get_sql_create_table(plugin):
+                        self.conn.execute(statement)
                     self.conn.executemany(
                             f"insert or replace into {plugin.sql_table_name} values (?, ?, ?)",
                             rows)
@@ -199,9 +206,14 @@ class Cache(NullCache):
         """
         for table, in self.conn.execute(
                 "select name from sqlite_master where type = 'table'").fetchall():
-            for path, in self.conn.execute(f"select path from {table}").fetchall():
-                if not os.path.lexists(path):
-                    self.conn.execute(f"delete from {table} where path = ?", (path,))
+            try:
+                for path, in self.conn.execute(f"select path from {table}").fetchall():
+                    if not os.path.lexists(path):
+                        self.conn.execute(f"delete from {table} where path = ?", (path,))
+            except sqlite3.OperationalError as exc:
+                # The table may have been removed by another process in the meantime.
+                if "no such table" not in str(exc):
+                    raise
 
         # There must be no open transaction for vacuum.
         self.conn.commit()
-- 
2.43.0


From 6766f6e3c54d217ba75ecd4c49eedb186a6327bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:05 +0000
Subject: [PATCH 63/74] fix: the git plugin reported untracked files as dirty
 after git rm --cached

---
 plugins/git.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugins/git.py b/plugins/git.py
index 16e67d0..d1d81e3 100644
--- a/plugins/git.py
+++ b/plugins/git.py
@@ -119,6 +119,7 @@ class Git(Plugin):
                     abspath = entry.abspath + os.sep
                     data[key] = any(p.startswith(abspath) for p in paths)
                 else:
-                    data[key] = entry.abspath in paths
+                    # A file that is staged for removal is changed, but it is no longer tracked.
+                    data[key] = entry.abspath in paths and entry.abspath in filelist
 
             return data
-- 
2.43.0


From 4124b78b403bd643ca2d0a04c8e54df78386e3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:20 +0000
Subject: [PATCH 64/74] fix: the py plugin disregarded byte order marks and
 encoding declarations

---
 plugins/introspect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/introspect.py b/plugins/introspect.py
index 4a01169..71b9bd3 100644
--- a/plugins/introspect.py
+++ b/plugins/introspect.py
@@ -123,8 +123,8 @@ class Py(Plugin):
     def parse_imports(self, entry):
         """Extract the names of modules and packages that a Python script imports.
         """
-        # pylint:disable=unspecified-encoding
-        with open(entry.path) as fobj:
+        # Let the parser take care of a byte order mark or an encoding declaration.
+        with open(entry.path, "rb") as fobj:
             data = fobj.read()
 
         for node in ast.walk(ast.parse(data)):
-- 
2.43.0


From fd8b209d061a4bd3ff80f23faaf706be8e7773d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:54 +0000
Subject: [PATCH 65/74] fix: Python sources that the parser cannot handle made
 the search fail

---
 plugins/introspect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/introspect.py b/plugins/introspect.py
index 71b9bd3..3fb400f 100644
--- a/plugins/introspect.py
+++ b/plugins/introspect.py
@@ -155,5 +155,5 @@ class Py(Plugin):
     def process(self, entry, cached):
         try:
             yield "imports", sorted(self.parse_imports(entry))
-        except (OSError, SyntaxError, UnicodeDecodeError) as exc:
+        except (OSError, SyntaxError, ValueError, MemoryError, RecursionError) as exc:
             raise NoData from exc
-- 
2.43.0


From 1b6b05e7d2d26ca2cb336aeac7003db1e5049a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:40 +0000
Subject: [PATCH 66/74] fix: the py plugin named the wrong modules for imports
 from parent packages

---
 plugins/introspect.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/plugins/introspect.py b/plugins/introspect.py
index 3fb400f..5dfb299 100644
--- a/plugins/introspect.py
+++ b/plugins/introspect.py
@@ -131,12 +131,11 @@ class Py(Plugin):
             if isinstance(node, ast.ImportFrom):
                 if node.module is not None:
                     if node.level > 0:
-                        parts = [node.module]
+                        # A single dot is the package of the file itself.
                         dirname = entry.dir
-                        for _ in range(node.level):
-                            dirname, basename = os.path.split(dirname)
-                            parts.insert(0, basename)
-                        yield ".".join(parts)
+                        for _ in range(node.level - 1):
+                            dirname = os.path.dirname(dirname)
+                        yield os.path.basename(dirname) + "." + node.module
                     else:
                         yield node.module
 
-- 
2.43.0


From fc79f0484f1db80c646e8945a6cb11c07fe66573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:54 +0000
Subject: [PATCH 67/74] fix: the mime plugin had no data for files with
 undecodable names

---
 libff/builtin/mime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libff/builtin/mime.py b/libff/builtin/mime.py
index 98d1656..1764e23 100644
--- a/libff/builtin/mime.py
+++ b/libff/builtin/mime.py
@@ -18,6 +18,8 @@
 #
 # -----------------------------------------------------------------------
 
+import os
+
 from libff.plugin import *
 
 
@@ -53,7 +55,8 @@ class Mime(Plugin):
     def cache(self, entry):
         # pylint:disable=undefined-variable
         try:
-            detected = magic.detect_from_filename(entry.path)
+            # The name may contain bytes that cannot be encoded as UTF-8 by the magic module.
+            detected = magic.detect_from_filename(os.fsencode(entry.path))
             return detected.mime_type, detected.encoding, detected.name
         except (OSError, ValueError) as exc:
             raise NoData from exc
-- 
2.43.0


From dcac883b95975cfece9ca5734731a4fdab4bf9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:26 +0000
Subject: [PATCH 68/74] fix: the mime plugin described the symbolic link
 instead of the file if links are followed

---
 libff/builtin/mime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libff/builtin/mime.py b/libff/builtin/mime.py
index 1764e23..e07ed35 100644
--- a/libff/builtin/mime.py
+++ b/libff/builtin/mime.py
@@ -55,8 +55,9 @@ class Mime(Plugin):
     def cache(self, entry):
         # pylint:disable=undefined-variable
         try:
-            # The name may contain bytes that cannot be encoded as UTF-8 by the magic module.
-            detected = magic.detect_from_filename(os.fsencode(entry.path))
+            # The name may contain bytes that cannot be encoded as UTF-8 by the magic module, which
+            # also does not follow symbolic links.
+            detected = magic.detect_from_filename(os.fsencode(os.path.realpath(entry.path)))
             return detected.mime_type, detected.encoding, detected.name
         except (OSError, ValueError) as exc:
             raise NoData from exc
-- 
2.43.0


From e31346d549a2fdabb05e119d620bac72f14a4013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:16 +0000
Subject: [PATCH 69/74] fix: git plugin: do not overlook removed files while
 there are conflicts

With rename detection "git status" does not report a removed file that it takes
for the origin of an unmerged file, so git.dirty was wrong for its directory.
---
 plugins/git.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/plugins/git.py b/plugins/git.py
index d1d81e3..9652f42 100644
--- a/plugins/git.py
+++ b/plugins/git.py
@@ -45,16 +45,14 @@ class Status(set):
     def __init__(self, dirname):
         super().__init__()
 
-        proc = subprocess.run(["git", "-C", dirname, "status", "--porcelain", "-z"],
+        # Renames are not looked for, because a removed file that git takes for the origin of a
+        # conflicting file is not reported at all.
+        proc = subprocess.run(["git", "-C", dirname, "status", "--porcelain", "--no-renames", "-z"],
                 capture_output=True, check=False)
-        lines = iter(os.fsdecode(proc.stdout).split("\0")[:-1])
-        for line in lines:
+        for line in os.fsdecode(proc.stdout).split("\0")[:-1]:
             status, filename = line[:2], line[3:]
             if status == "??":
                 continue
-            if "R" in status or "C" in status:
-                # In case of a rename or copy the next item is the original file name.
-                next(lines)
             self.add(os.path.join(dirname, filename))
 
 
-- 
2.43.0


From e971fbb235b90b289306c696b7a27b9465241ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:44 +0000
Subject: [PATCH 70/74] fix: with absolute paths an empty start directory was
 taken for the current one

---
 libff/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/main.py b/libff/main.py
index d5cc9a2..e84e451 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -156,7 +156,7 @@ class _Base(BaseClass):
 
         # Preload the in-queue with the path arguments.
         for path in self.context.args.directories:
-            if self.context.args.absolute_path:
+            if self.context.args.absolute_path and path:
                 path = os.path.abspath(path)
 
             if self.context.args.no_parent_ignore:
-- 
2.43.0


From 0f1cddf284b9ad986c7d847d00e399cccf1d12f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:04 +0000
Subject: [PATCH 71/74] fix: a worker that is killed while it waits for work
 could block the main process

---
 libff/cache.py      |  6 ++----
 libff/context.py    | 41 +++++++++++++++++++----------------------
 libff/main.py       |  8 ++++----
 libff/processing.py |  4 ++--
 libff/walk.py       |  2 +-
 5 files changed, 28 insertions(+), 33 deletions(-)

diff --git a/libff/cache.py b/libff/cache.py
index aef1eeb..55b47c1 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -95,10 +95,8 @@ class Cache(NullCache):
 
         self.conn.close()
 
-        with self.context.cache_hits.get_lock():
-            self.context.cache_hits.value += self.hits
-        with self.context.cache_misses.get_lock():
-            self.context.cache_misses.value += self.misses
+        self.context.cache_hits[self.context.process_index] += self.hits
+        self.context.cache_misses[self.context.process_index] += self.misses
 
     def register_plugin(self, plugin_cls):
         """Register Plugin objects.
diff --git a/libff/context.py b/libff/context.py
index 2ecdbed..988bbcf 100644
--- a/libff/context.py
+++ b/libff/context.py
@@ -18,7 +18,7 @@
 #
 # -----------------------------------------------------------------------
 
-import threading
+import time
 import subprocess
 import multiprocessing
 import multiprocessing.sharedctypes
@@ -49,7 +49,7 @@ class Context:
         self.global_lock = None
         self.output_lock = None
         self.stop_queue = None
-        self.barrier = None
+        self.idle = None
         self.exitcode_object = None
         self.process_succeeded = None
         self.process_failed = None
@@ -74,12 +74,10 @@ class Context:
         # the way I expected it. It must have room for all processes including the main process.
         self.stop_queue = multiprocessing.Queue(self.args.jobs + 1)
 
-        # Create a Barrier with the number of processes plus one for the main process.
-        if __debug__ and self.args.profile:
-            num_jobs = 1
-        else:
-            num_jobs = self.args.jobs + 1
-        self.barrier = multiprocessing.Barrier(num_jobs)
+        # Each process (the main process is the first one) tells if it has nothing to do at the
+        # moment. This must not involve a lock (like a Barrier does) which a process that is killed
+        # would leave behind for the main process to wait for.
+        self.idle = multiprocessing.sharedctypes.RawArray("B", self.args.jobs + 1)
 
         # The exitcode object provides a way for --exec and --exec-batch processes to feed back
         # errors to the main process.
@@ -95,12 +93,12 @@ class Context:
         self.chunks_added = multiprocessing.sharedctypes.RawArray("L", self.args.jobs + 1)
         self.chunks_removed = multiprocessing.sharedctypes.RawArray("L", self.args.jobs + 1)
 
-        # Provide a shared counter for cache hits and misses.
-        self.cache_hits = multiprocessing.Value("L")
-        self.cache_misses = multiprocessing.Value("L")
+        # Provide counters for the cache hits and misses of each process.
+        self.cache_hits = multiprocessing.sharedctypes.RawArray("L", self.args.jobs + 1)
+        self.cache_misses = multiprocessing.sharedctypes.RawArray("L", self.args.jobs + 1)
 
         # Tell the main process that there were search results.
-        self._has_result = multiprocessing.Value("B", 0)
+        self._has_result = multiprocessing.sharedctypes.RawValue("B", 0)
 
     def close(self):
         """Close the Context and clean up.
@@ -128,14 +126,13 @@ class Context:
         """
         return self._has_result.value == 1
 
-    def barrier_wait(self, timeout=TIMEOUT):
-        """Wait for all processes to reach the Barrier, i.e. until all of them are idle. Return True
-           if there is no more input and processing is finished.
+    def idle_wait(self, timeout=TIMEOUT):
+        """Wait a moment for more input. Return True if there is no more input and processing is
+           finished.
         """
-        try:
-            self.barrier.wait(timeout)
-        except threading.BrokenBarrierError:
-            self.barrier.reset()
+        self.idle[self.process_index] = 1
+        time.sleep(timeout)
+        self.idle[self.process_index] = 0
         return self.is_stopping() or not self.has_pending()
 
     def add_pending(self):
@@ -158,10 +155,10 @@ class Context:
         return sum(self.chunks_added) > removed
 
     def idle_processes(self):
-        """Return the number of idle processes, i.e. processes that are waiting for the barrier
-           because there is nothing in the queue.
+        """Return the number of idle processes, i.e. processes that are waiting because
+           there is nothing in the queue.
         """
-        return self.barrier.n_waiting
+        return sum(self.idle)
 
     def is_stopping(self):
         """Return True all Processes are supposed to stop.
diff --git a/libff/main.py b/libff/main.py
index e84e451..9d73e77 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -316,8 +316,8 @@ class Main(_Base):
             traceback.print_exc()
 
         if __debug__:
-            hits = self.context.cache_hits.value
-            misses = self.context.cache_misses.value
+            hits = sum(self.context.cache_hits)
+            misses = sum(self.context.cache_misses)
             if hits or misses:
                 self.logger.debug("cache", f"Cache stats: {hits} hits, {misses} misses")
             else:
@@ -325,8 +325,8 @@ class Main(_Base):
 
         if self.context.exitcode == EX_SUBPROCESS:
             if self.args.exec:
-                succeeded = self.context.process_succeeded.value
-                failed = self.context.process_failed.value
+                succeeded = self.context.process_succeeded.get_obj().value
+                failed = self.context.process_failed.get_obj().value
                 raise SubprocessError("One or more -x/--exec commands had errors "\
                         f"(success: {succeeded}, failure: {failed})")
             else:
diff --git a/libff/processing.py b/libff/processing.py
index bf3194c..0d29096 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -122,7 +122,7 @@ class BaseProcessing(BaseClass):
         """Check if processing is done (because there is nothing left to do for the processes) or one
            or more processes failed unexpectedly.
         """
-        return not self.context.has_pending() or self.context.barrier_wait(timeout) or \
+        return not self.context.has_pending() or self.context.idle_wait(timeout) or \
                 self.check_for_failed_processes()
 
     def process(self, entries):
@@ -154,7 +154,7 @@ class ImmediateBaseProcessing(BaseProcessing):
     # pylint:disable=abstract-method
 
     def loop(self):
-        while not self.processing_done(1):
+        while not self.processing_done():
             pass
 
 
diff --git a/libff/walk.py b/libff/walk.py
index b770e1a..b73ad8b 100644
--- a/libff/walk.py
+++ b/libff/walk.py
@@ -94,7 +94,7 @@ class FilesystemWalker(BaseClass):
                 try:
                     objs = self.queue.get(timeout=TIMEOUT)
                 except queue.Empty:
-                    if self.context.barrier_wait():
+                    if self.context.idle_wait():
                         break
                     else:
                         continue
-- 
2.43.0


From 19716768c4283fc024132dab3ae146ca554f6d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:39 +0000
Subject: [PATCH 72/74] fix: pacman plugin: file names may be undecodable and
 end with white space

---
 plugins/pacman.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/plugins/pacman.py b/plugins/pacman.py
index c17f896..34bf96b 100644
--- a/plugins/pacman.py
+++ b/plugins/pacman.py
@@ -38,10 +38,10 @@ class Pacman(Plugin):
     def setup(self):
         self.pkglist = {}
         self.filelist = set()
-        with subprocess.Popen(["pacman", "-Ql"], stdout=subprocess.PIPE, text=True) as proc:
+        with subprocess.Popen(["pacman", "-Ql"], stdout=subprocess.PIPE) as proc:
             for line in proc.stdout:
-                line = line.strip()
-                pkgname, path = line.split(None, 1)
+                # File names may be undecodable and contain any kind of white space.
+                pkgname, path = os.fsdecode(line).rstrip("\n").split(" ", 1)
                 path = path.rstrip(os.sep)
                 self.filelist.add(path)
                 self.pkglist.setdefault(pkgname, set()).add(path)
-- 
2.43.0


From dc4ebcbbc6f575fa70f77461970cf467df0549f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:22 +0000
Subject: [PATCH 73/74] fix: the workers stayed behind if the main process was
 killed

---
 libff/walk.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libff/walk.py b/libff/walk.py
index b73ad8b..b9b22ae 100644
--- a/libff/walk.py
+++ b/libff/walk.py
@@ -21,8 +21,10 @@
 import os
 import queue
 import signal
+import threading
 import traceback
 import multiprocessing
+import multiprocessing.connection
 
 from . import TIMEOUT, Entries, BaseClass, Directory
 from .path import join
@@ -74,6 +76,14 @@ class FilesystemWalker(BaseClass):
             process.start()
             self.processes.append(process)
 
+    @staticmethod
+    def follow_parent():
+        """Terminate together with the main process. If the main process is killed, there is nobody
+           left who fetches the results or stops the processes.
+        """
+        multiprocessing.connection.wait([multiprocessing.parent_process().sentinel])
+        os._exit(EX_PROCESS)
+
     def loop(self, index):
         """Get arguments from the queue and process them until searching has finished.
         """
@@ -89,6 +99,8 @@ class FilesystemWalker(BaseClass):
             # KeyboardInterrupt.
             signal.signal(signal.SIGINT, signal.SIG_IGN)
 
+            threading.Thread(target=self.follow_parent, daemon=True).start()
+
         try:
             while not self.context.is_stopping():
                 try:
-- 
2.43.0


From 18325df69942fc8bc96f5cbdc7aa94acbedcfb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:12 +0000
Subject: [PATCH 74/74] fix: pacman plugin: relative paths were not found in
 the list of installed files

---
 plugins/pacman.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/pacman.py b/plugins/pacman.py
index 34bf96b..96ec22f 100644
--- a/plugins/pacman.py
+++ b/plugins/pacman.py
@@ -50,10 +50,10 @@ class Pacman(Plugin):
         return True
 
     def process(self, entry, cached):
-        if entry.path in self.filelist:
+        if entry.abspath in self.filelist:
             yield "installed", True
             for pkgname, filelist in self.pkglist.items():
-                if entry.path in filelist:
+                if entry.abspath in filelist:
                     yield "pkgname", pkgname
         else:
             yield "installed", False
-- 
2.43.0

