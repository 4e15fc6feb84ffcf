From 460a45c9ce9e8c6b0abdd9e3647063e2741bfbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:54 +0000
Subject: [PATCH 01/36] fix: only the worker holding the scheduler's lock may
 release it

Scheduler.interruptible() released the controlling lock from any thread, so a
thread that is not a worker (or a nested section) let a second task run and
then kept the lock.
---
 lib/fbuild/sched.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index 35718c7..22f0734 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -123,18 +123,20 @@ class Scheduler:
         context switching automatically.
         """
 
-        try:
+        # Only the worker thread that is running a task holds the lock. Any
+        # other thread must not release it on behalf of that worker.
+        thread = threading.current_thread()
+        was_locked = getattr(thread, 'held_lock', None) is self.__controlling_lock
+        if was_locked:
+            thread.held_lock = None
             self.__controlling_lock.release()
-        except (RuntimeError, _thread.error):
-            was_locked = False
-        else:
-            was_locked = True
         # time.sleep(0) is an easy way of forcing a context switch.
         try:
             yield lambda: time.sleep(0)
         finally:
             if was_locked:
                 self.__controlling_lock.acquire()
+                thread.held_lock = self.__controlling_lock
 
     def map(self, function, srcs):
         """Run the function over the input sources concurrently. This function
@@ -333,6 +335,9 @@ class WorkerThread(threading.Thread):
         self.__controlling_lock = controlling_lock
         self.__finished = False
 
+        # The controlling lock while this thread holds it, otherwise None.
+        self.held_lock = None
+
     def shutdown(self):
         """Tell the thread to exit."""
         self.__finished = True
@@ -343,8 +348,12 @@ class WorkerThread(threading.Thread):
                 with self.__logger.log_from_thread():
                     queue_task = self.read_task()
                     with self.__controlling_lock:
-                        if not self.run_one(queue_task):
-                            break
+                        self.held_lock = self.__controlling_lock
+                        try:
+                            if not self.run_one(queue_task):
+                                break
+                        finally:
+                            self.held_lock = None
         except KeyboardInterrupt:
             # let the main thread know we got a SIGINT
             _thread.interrupt_main()
-- 
2.43.0


From a2bcd7a0cd6e0471e42b14dbe18ed76487224054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:13 +0000
Subject: [PATCH 02/36] fix: do not swallow shutdown requests in nested batches

A worker waiting for a nested batch took the shutdown requests of the other
workers off the queue, so Scheduler.shutdown() could wait for them forever.
---
 lib/fbuild/sched.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index 22f0734..bbd41e7 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -247,7 +247,10 @@ class Scheduler:
                 except queue.Empty:
                     pass
                 else:
-                    current_thread.run_one(task)
+                    if not current_thread.run_one(task):
+                        # This was a request to shut down. Pass it on to a
+                        # thread that waits for work when we are done.
+                        current_thread.shutdowns += 1
 
                 # See if any of our tasks finished.
                 try:
@@ -335,6 +338,9 @@ class WorkerThread(threading.Thread):
         self.__controlling_lock = controlling_lock
         self.__finished = False
 
+        # The requests to shut down we read in the middle of a task.
+        self.shutdowns = 0
+
         # The controlling lock while this thread holds it, otherwise None.
         self.held_lock = None
 
@@ -354,6 +360,9 @@ class WorkerThread(threading.Thread):
                                 break
                         finally:
                             self.held_lock = None
+                            for i in range(self.shutdowns):
+                                self.__ready_queue.put(None)
+                            self.shutdowns = 0
         except KeyboardInterrupt:
             # let the main thread know we got a SIGINT
             _thread.interrupt_main()
-- 
2.43.0


From 57c0ec22e5bbec51e8fb3d68743cc2922633fe00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:13 +0000
Subject: [PATCH 03/36] fix: stop a batch when one of its tasks fails

After a task raised, map() raised at once while the other tasks of the batch
were still running, and its queued tasks were run later.
---
 lib/fbuild/sched.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index bbd41e7..7afb3ae 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -233,6 +233,9 @@ class Scheduler:
         # run another queued up function.
         current_thread = threading.current_thread()
 
+        # The exception of the first task that failed.
+        exc = None
+
         # The list of function results.
         results = []
 
@@ -267,12 +270,18 @@ class Scheduler:
 
             # If a task raised an exception, cancel the rest of the tasks and
             # error out.
-            if task.exc is not None:
+            if exc is None and task.exc is not None:
                 # Clear our queue of tasks.
                 for t in tasks:
-                    t.done = True
+                    t.cancelled = True
+
+                exc = task.exc
 
-                raise task.exc
+            # Wait for the tasks that are already running before we error out.
+            if exc is not None:
+                if count == 0:
+                    raise exc
+                continue
 
             # Otherwise, add it to our results.
             results.append(task)
@@ -410,6 +419,7 @@ class Task:
         self.index = index
         self.running = False
         self.done = False
+        self.cancelled = False
         self.dependencies = []
         self.exc = None
 
@@ -428,6 +438,9 @@ class Task:
     def run(self):
         """Run the task's function."""
 
+        if self.cancelled:
+            return
+
         try:
             self.result = self.function(self.src)
         except Exception as e:
-- 
2.43.0


From 0406942dcf7ec67d9afaccac19e80b247623656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 04/36] fix: deliver interrupts raised inside a task to the
 caller of the batch

A task that was interrupted was reported as done without a result, so its
dependents could run and map() could raise an AttributeError.
---
 lib/fbuild/sched.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index 7afb3ae..8997343 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -443,5 +443,6 @@ class Task:
 
         try:
             self.result = self.function(self.src)
-        except Exception as e:
+        except BaseException as e:
+            # Interrupts are raised by the thread waiting for this task.
             self.exc = e
-- 
2.43.0


From 5b68c114d284bcbbc5c118a0c5d6392fd49c9f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:08 +0000
Subject: [PATCH 05/36] fix: do not refuse calls right after the rpc thread was
 started

RPC.start() waited for the event that threading.Thread sets before run(), so it
could return before the thread accepted calls.
---
 lib/fbuild/rpc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/rpc.py b/lib/fbuild/rpc.py
index e8f6b0e..c770360 100644
--- a/lib/fbuild/rpc.py
+++ b/lib/fbuild/rpc.py
@@ -33,7 +33,8 @@ class RPC(threading.Thread):
         self._lock = threading.Lock()
         self._queue = queue.Queue()
         self._events = threading.local()
-        self._started = threading.Event()
+        # Thread uses self._started for itself.
+        self._ready = threading.Event()
         self._running = False
 
     def call(self, *args, **kwargs):
@@ -72,13 +73,13 @@ class RPC(threading.Thread):
     def start(self, *args, **kwargs):
         super().start(*args, **kwargs)
 
-        self._started.wait()
+        self._ready.wait()
 
     def run(self):
         """Run the rpc thread."""
 
-        self._started.set()
         self._running = True
+        self._ready.set()
 
         try:
             while True:
-- 
2.43.0


From 0548675d6b09767ef6bbabfaccfbbd3338ce1b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:08 +0000
Subject: [PATCH 06/36] fix: do not mix up rpc calls after an interrupted one

The event cached per thread was set by the answer to a call whose wait had been
interrupted, so the next call of that thread returned before it was made.
---
 lib/fbuild/rpc.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/lib/fbuild/rpc.py b/lib/fbuild/rpc.py
index c770360..9bfbc01 100644
--- a/lib/fbuild/rpc.py
+++ b/lib/fbuild/rpc.py
@@ -32,7 +32,6 @@ class RPC(threading.Thread):
         self._handler = handler
         self._lock = threading.Lock()
         self._queue = queue.Queue()
-        self._events = threading.local()
         # Thread uses self._started for itself.
         self._ready = threading.Event()
         self._running = False
@@ -47,14 +46,9 @@ class RPC(threading.Thread):
             # Create an object to hold the result of the function call.
             result = _Result()
 
-            # Since we will block while waiting for our function to get called, we
-            # can cache our events per thread.
-            try:
-                event = self._events.event
-            except AttributeError:
-                event = self._events.event = threading.Event()
-            else:
-                event.clear()
+            # We can't reuse an event, because the server still sets it if the
+            # wait for an earlier call was interrupted.
+            event = threading.Event()
 
             msg = (event, result, args, kwargs)
             self._queue.put(msg)
-- 
2.43.0


From c0a97eabf45159a365c034a3130f71ef7f3b127c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:51 +0000
Subject: [PATCH 07/36] fix: answer every rpc caller when the server thread
 stops

Two threads joining the server could wait for each other forever, and calls
that were queued when the handler died were never answered.
---
 lib/fbuild/rpc.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/lib/fbuild/rpc.py b/lib/fbuild/rpc.py
index 9bfbc01..75fd9ba 100644
--- a/lib/fbuild/rpc.py
+++ b/lib/fbuild/rpc.py
@@ -97,7 +97,16 @@ class RPC(threading.Thread):
         except BaseException as err:
             raise
         finally:
-            self._running = False
+            with self._lock:
+                self._running = False
+
+            # Nobody will answer the calls that are still in the queue.
+            while not self._queue.empty():
+                msg = self._queue.get()
+                if msg is not _NULL:
+                    event, result, args, kwargs = msg
+                    result.result = RPCNotRunning()
+                    event.set()
 
     def _process(self, msg):
         # Break up the message.
@@ -118,10 +127,13 @@ class RPC(threading.Thread):
     def join(self, *args, **kwargs):
         """Inform the thread to shut down."""
 
-        if self._running:
-            with self._lock:
+        with self._lock:
+            if self._running:
                 # Shut down the queue first.
+                self._running = False
                 self._queue.put(_NULL)
-                self._queue.join()
 
-                super().join(*args, **kwargs)
+        # Nobody may wait for the thread while holding the lock, as the thread
+        # needs it to stop.
+        if self._ready.is_set():
+            super().join(*args, **kwargs)
-- 
2.43.0


From 14785ba5e27723a85711406e00912de72909dd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:01 +0000
Subject: [PATCH 08/36] fix: do not forget the registered files of other calls
 when a file changes (sqlite)

---
 lib/fbuild/db/sqlite_backend.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index 9e1a561..75267f6 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -483,6 +483,10 @@ class SqliteBackend(fbuild.db.backend.Backend):
         assert isinstance(file_mtime, float), file_mtime
         assert isinstance(file_digest, str), file_digest
 
+        if file_id is None:
+            # We keep the row of a file that was deleted.
+            file_id, _, _ = self.find_file(file_name)
+
         if file_id is None:
             self.cursor.execute('''
                 INSERT INTO File (file_name,file_mtime,file_digest)
@@ -518,12 +522,8 @@ class SqliteBackend(fbuild.db.backend.Backend):
             'DELETE FROM CallFile WHERE file_id=?',
             (file_id,))
 
+        # The calls that registered the file still depend on it, so just forget
+        # what we know about its content.
         self.cursor.execute(
-            'DELETE FROM ExternalSrc WHERE file_id=?',
-            (file_id,))
-
-        self.cursor.execute(
-            'DELETE FROM ExternalDst WHERE file_id=?',
-            (file_id,))
-
-        self.cursor.execute('DELETE FROM File WHERE file_name=?', (file_name,))
+            'UPDATE File SET file_mtime=NULL, file_digest=NULL WHERE file_name=?',
+            (file_name,))
-- 
2.43.0


From 9ffe2a932fc0281a989b2640dab288b020c0f7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:01 +0000
Subject: [PATCH 09/36] fix: report whether --delete-function and --delete-file
 found something (sqlite)

---
 lib/fbuild/db/sqlite_backend.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index 75267f6..253dade 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -191,6 +191,8 @@ class SqliteBackend(fbuild.db.backend.Backend):
         # Make sure we got the right types.
         assert isinstance(fun_name, str), fun_name
 
+        fun_id, _, _ = self.find_function(fun_name)
+
         # Since the function was removed, all of this function's calls and call
         # files are dirty, so delete them.
         for call_id, in self.cursor.execute('''
@@ -218,6 +220,8 @@ class SqliteBackend(fbuild.db.backend.Backend):
             'DELETE FROM Function WHERE fun_name=?',
             (fun_name,))
 
+        return fun_id is not None
+
     # --------------------------------------------------------------------------
 
     def _pickle_dumps(self, obj):
@@ -506,16 +510,16 @@ class SqliteBackend(fbuild.db.backend.Backend):
         """Remove the file from the database."""
 
         self.cursor.execute(
-            'SELECT file_id FROM File WHERE file_name=?',
+            'SELECT file_id, file_digest FROM File WHERE file_name=?',
             (file_name,))
 
         rows = self.cursor.fetchall()
 
         # Exit early if we got nothing returned.
         if not rows:
-            return
+            return False
 
-        (file_id,), = rows
+        (file_id, file_digest), = rows
 
         # And delete all of the related call files.
         self.cursor.execute(
@@ -527,3 +531,5 @@ class SqliteBackend(fbuild.db.backend.Backend):
         self.cursor.execute(
             'UPDATE File SET file_mtime=NULL, file_digest=NULL WHERE file_name=?',
             (file_name,))
+
+        return file_digest is not None
-- 
2.43.0


From 5bf9170a7da8f74bd79bfc203837fc1ad559584c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:24 +0000
Subject: [PATCH 10/36] fix: keep every output registered by a call (sqlite)

---
 lib/fbuild/db/sqlite_backend.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index 253dade..6641912 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -445,17 +445,27 @@ class SqliteBackend(fbuild.db.backend.Backend):
         # ----------------------------------------------------------------------
 
         if dsts:
-            # We don't need to save a list here because we're only using it
-            # once.
-            # XXX: There's a python bug where you can't pass a generator that
-            # itself inserts into sqlite, so we need to force the generator.
-            dst_call_files = [self.check_call_file(call_id, dst)
-                for dst in dsts]
+            # The files do not have to exist, and may also be sources of the call.
+            dst_file_ids = [self._register_file(dst) for dst in dsts]
 
             self.cursor.executemany(
                 'INSERT INTO ExternalDst (call_id,file_id) VALUES (?,?)',
-                ((call_id, file_id)
-                    for dirty, file_id, file_digest in dst_call_files if dirty))
+                ((call_id, file_id) for file_id in dst_file_ids))
+
+
+    def _register_file(self, file_name):
+        """Return the id of the file, which may be unknown until now."""
+
+        file_id, _, _ = self.find_file(file_name)
+
+        if file_id is None:
+            self.cursor.execute(
+                'INSERT INTO File (file_name) VALUES (?)',
+                (file_name,))
+
+            file_id = self.cursor.lastrowid
+
+        return file_id
 
     # --------------------------------------------------------------------------
 
-- 
2.43.0


From 675103bece1f44197b587b20eb8ec2e72a10d432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:49 +0000
Subject: [PATCH 11/36] fix: notice changes to the constructor of a cached
 object

---
 lib/fbuild/db/database.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index cf635b0..3f02c1b 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -283,6 +283,11 @@ class Database:
             # the source. If the function is a builtin, we will raise
             # an exception.
             src = fbuild.inspect.getsource(function)
+
+            # Creating a persistent object runs the constructors of its class.
+            if function.__name__ == '__call_super__':
+                src += Database._constructors_source(function.__self__)
+
             digest = hashlib.md5(src.encode()).hexdigest()
         else:
             # The function is a functor so let it digest itself.
@@ -290,6 +295,21 @@ class Database:
 
         return digest
 
+    @staticmethod
+    def _constructors_source(cls):
+        """Return the source of all the constructors a class uses."""
+        srcs = []
+        for base in fbuild.inspect.getmro(cls):
+            init = fbuild.functools.unwrap(base.__dict__.get('__init__'))
+            if fbuild.inspect.isfunction(init):
+                try:
+                    srcs.append(fbuild.inspect.getsource(init))
+                except (IOError, TypeError):
+                    # There is no source, it is for instance a builtin.
+                    pass
+
+        return ''.join(srcs)
+
     def _find_call_filenames(self, function, args, kwargs):
         """Return the filenames needed for the function."""
 
-- 
2.43.0


From 377f7fbf94c41163033c4adeec7a3688d6e99c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:16 +0000
Subject: [PATCH 12/36] fix: track the running calls of each task instead of
 one shared call stack

Calls running at the same time on different worker threads mixed up their
dependents and registered files, and a call that raised an exception left its
entry on the stack.
---
 lib/fbuild/db/database.py | 60 ++++++++++++++++++++++++++-------------
 lib/fbuild/sched.py       | 20 +++++++++++++
 2 files changed, 60 insertions(+), 20 deletions(-)

diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index 3f02c1b..daecb7c 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -8,6 +8,7 @@ import fbuild.functools
 import fbuild.inspect
 import fbuild.path
 import fbuild.rpc
+import fbuild.sched
 
 import fbuild.db
 import fbuild.db.pickle_backend
@@ -16,6 +17,19 @@ import fbuild.db.sqlite_backend
 
 # ------------------------------------------------------------------------------
 
+class RunningCall:
+    """A cached call that is running."""
+
+    def __init__(self):
+        # The cached functions this call used.
+        self.dependents = []
+
+        # The files that were registered while it was running.
+        self.external_srcs = set()
+        self.external_dsts = set()
+
+# ------------------------------------------------------------------------------
+
 class Database:
     """L{Database} persistently stores the results of argument calls."""
 
@@ -26,7 +40,6 @@ class Database:
             return method(*args, **kwargs)
 
         self._ctx = ctx
-        self._callstack = []
         self._explain = explain
         self._connected = False
 
@@ -96,8 +109,9 @@ class Database:
 
         # If there is a call stack, then this function is a dependent of the
         # parent.
-        if self._callstack:
-            self._callstack[-1].append(fun_name)
+        callstack = fbuild.sched.task_state.calls
+        if callstack:
+            callstack[-1].dependents.append(fun_name)
 
         # Get the function digest.
         fun_digest = self.get_function_digest_from_map(fun_name)
@@ -146,6 +160,8 @@ class Database:
                 all_dsts.update(return_dsts)
                 # Update the active file list.
                 self.active_files.update(all_srcs | all_dsts)
+                # We did not run the function, so register its files.
+                self._register_external_files(external_srcs, external_dsts)
                 return old_result, all_srcs, all_dsts
 
         if self._explain:
@@ -173,16 +189,26 @@ class Database:
                 for dst in dirty_dsts:
                     self._ctx.logger.log('\t%s' % dst)
 
-        self._callstack.append([])
+        call = RunningCall()
 
         # Clear external srcs and dsts since they'll be recomputed inside
         # the function.
-        external_srcs = set()
-        external_dsts = set()
+        external_srcs = call.external_srcs
+        external_dsts = call.external_dsts
 
         # The call was dirty, so recompute it.
-        call_result = outer_function(*args, **kwargs)
-        fun_dependents = tuple(self._callstack.pop())
+        fbuild.sched.task_state.calls = callstack + (call,)
+        try:
+            call_result = outer_function(*args, **kwargs)
+        except BaseException:
+            # The caller might handle the exception, so it still depends on the
+            # functions this call used.
+            if callstack:
+                callstack[-1].dependents.extend(call.dependents)
+            raise
+        finally:
+            fbuild.sched.task_state.calls = callstack
+        fun_dependents = tuple(call.dependents)
 
         # Make sure the result is not a generator.
         assert not fbuild.inspect.isgenerator(call_result), \
@@ -336,17 +362,11 @@ class Database:
         a cached function and will error out if it is called from an
         uncached function."""
 
-        # Hack in additional dependencies
-        frame = fbuild.inspect.currentframe()
-
-        if frame is None:
-            return
-
-        frame = frame.f_back
+        self._register_external_files(tuple(srcs), tuple(dsts))
 
-        while frame:
-            if frame.f_code == self.call.__code__:
-                frame.f_locals['external_srcs'].update(srcs)
-                frame.f_locals['external_dsts'].update(dsts)
+    def _register_external_files(self, srcs, dsts):
+        """Add the files to all the calls that are running."""
 
-            frame = frame.f_back
+        for call in fbuild.sched.task_state.calls:
+            call.external_srcs.update(srcs)
+            call.external_dsts.update(dsts)
diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index 8997343..4fb7ec3 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -408,6 +408,18 @@ class WorkerThread(threading.Thread):
 
 # ------------------------------------------------------------------------------
 
+class TaskState(threading.local):
+    """
+    The state of the task the current thread is running.
+    """
+
+    # The stack of the cached calls that are running, outermost first.
+    calls = ()
+
+task_state = TaskState()
+
+# ------------------------------------------------------------------------------
+
 class Task:
     """
     Represent the state needed to run the function with one source.
@@ -423,6 +435,10 @@ class Task:
         self.dependencies = []
         self.exc = None
 
+        # The task is part of the calls that created it, no matter which thread
+        # is going to run it.
+        self.calls = task_state.calls
+
     def can_run(self):
         """Returns True if all of this task's dependencies are done. Otherwise
         return False."""
@@ -441,8 +457,12 @@ class Task:
         if self.cancelled:
             return
 
+        old_calls = task_state.calls
+        task_state.calls = self.calls
         try:
             self.result = self.function(self.src)
         except BaseException as e:
             # Interrupts are raised by the thread waiting for this task.
             self.exc = e
+        finally:
+            task_state.calls = old_calls
-- 
2.43.0


From 83670257f056b212a1e3ecc8043c11f15a841267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:43 +0000
Subject: [PATCH 13/36] fix: keep the records of functions and their callers
 consistent

Changed callees that were called directly before their callers, removed
functions, calls of one function using different functions, callees that
failed and calls that were saved by another thread in the meantime either left
stale records behind or broke the build.
---
 lib/fbuild/db/backend.py        | 64 ++++++++++++++++++++++++++++-----
 lib/fbuild/db/cache_backend.py  |  8 +++++
 lib/fbuild/db/sqlite_backend.py | 10 ++++++
 3 files changed, 73 insertions(+), 9 deletions(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index 099e6b4..404deca 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -96,17 +96,37 @@ class Backend:
             external_dsts):
         """Saves the function call into the database."""
 
+        # Work around a circular import.
+        from fbuild.db.database import Database
+
+        # Make sure we know all the functions this call used. They are not there
+        # if they raised an exception that the call handled.
+        for dep in fun_dependents:
+            dep_dirty, dep_id = self.check_function(dep)
+            if dep_dirty:
+                self.renew_function(dep_id, dep,
+                    Database.get_function_digest_from_map(dep), ())
+
+        # Other calls might have been saved while the function was running, so
+        # see how things are now.
+        fun_dirty, fun_id = self.check_function(fun_name)
+
         # Lock the db since we're updating data structures.
         if fun_dirty:
             # Since the function changed, delete out all the related data.
-            if fun_id is not None:
-                self.delete_function(fun_name)
-
-                # The fun_id is now invalid.
-                fun_id = None
+            fun_id = self.renew_function(fun_id, fun_name, fun_digest,
+                                         fun_dependents)
+            call_id = None
+        else:
+            # The other calls of this function might have used other functions.
+            _, _, old_dependents = self.find_function(fun_name)
+            new_dependents = [dep for dep in fun_dependents
+                if dep not in old_dependents]
+            if new_dependents:
+                fun_id = self.save_function(fun_id, fun_name, fun_digest,
+                    tuple(old_dependents) + tuple(new_dependents))
 
-            fun_id = self.save_function(fun_id, fun_name, fun_digest,
-                                        fun_dependents)
+            _, call_id, _ = self.find_call(fun_id, bound)
 
         # Get the real call_id to use in the call files.
         call_id = self.save_call(call_id, fun_id, bound, result)
@@ -127,15 +147,21 @@ class Backend:
             already_checked = set()
         already_checked.add(fun_name)
 
-        fun_digest = Database.get_function_digest_from_map(fun_name)
         fun_id, old_digest, fun_dependents = self.find_function(fun_name)
+        try:
+            fun_digest = Database.get_function_digest_from_map(fun_name)
+        except KeyError:
+            # The function does not exist anymore.
+            return True, fun_id
 
         # Has the function changed?
         fun_dirty = old_digest is None or fun_digest != old_digest
         if not fun_dirty:
             # Have any of it's dependents changed?
             for dep in set(fun_dependents) - already_checked:
-                dep_dirty, _ = self.check_function(dep)
+                if dep in already_checked:
+                    continue
+                dep_dirty, _ = self.check_function(dep, already_checked)
                 if dep_dirty:
                     fun_dirty = True
                     break
@@ -143,6 +169,26 @@ class Backend:
         return fun_dirty, fun_id
 
 
+    def renew_function(self, fun_id, fun_name, fun_digest, fun_dependents):
+        """Save the function after it changed and throw away everything that is
+        related to the old one."""
+
+        if fun_id is not None:
+            self.delete_function(fun_name)
+
+        # The functions that used the old one are dirty, and we could not tell
+        # anymore once the new one is saved.
+        for caller in self.find_callers(fun_name):
+            self.delete_function(caller)
+
+        return self.save_function(None, fun_name, fun_digest, fun_dependents)
+
+
+    def find_callers(self, fun_name):
+        """Returns the names of the functions that depend on the function."""
+        raise NotImplementedError
+
+
     def find_function(self, fun_name):
         """Returns the function record or None if it does not exist."""
         raise NotImplementedError
diff --git a/lib/fbuild/db/cache_backend.py b/lib/fbuild/db/cache_backend.py
index 6145abf..a9e869d 100644
--- a/lib/fbuild/db/cache_backend.py
+++ b/lib/fbuild/db/cache_backend.py
@@ -50,6 +50,14 @@ class CacheBackend(fbuild.db.backend.Backend):
         return fun_id, fun_digest, fun_dependents
 
 
+    def find_callers(self, fun_name):
+        """Returns the names of the functions that depend on the function."""
+
+        return [caller
+            for caller, (_, fun_dependents) in self._functions.items()
+            if fun_name in fun_dependents]
+
+
     def save_function(self, fun_id, fun_name, fun_digest, fun_dependents):
         """Insert or update the function's digest."""
 
diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index 6641912..be4eb11 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -161,6 +161,16 @@ class SqliteBackend(fbuild.db.backend.Backend):
             return fun_id, fun_digest, split_dependents
 
 
+    def find_callers(self, fun_name):
+        """Returns the names of the functions that depend on the function."""
+
+        self.cursor.execute('SELECT fun_name, fun_dependents FROM Function')
+
+        return [caller
+            for caller, fun_dependents in self.cursor.fetchall()
+            if fun_name in fun_dependents.split('\0')]
+
+
     def save_function(self, fun_id, fun_name, fun_digest, fun_dependents):
         """Insert or update the function's digest."""
 
-- 
2.43.0


From b6d0472e7c5a0c78bc26a5c181a1e33572de4cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:28 +0000
Subject: [PATCH 14/36] fix: notice edits within the same timestamp as the
 previous look at a file

---
 lib/fbuild/db/backend.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index 404deca..f929015 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -337,6 +337,11 @@ class Backend:
             if file_mtime == old_mtime and time.time() - file_mtime > 1.0:
                 return False, file_id, file_mtime, old_digest
 
+        # The same goes for the next time we look at the file. It could still
+        # change with the same mtime, so do not remember such an mtime.
+        if time.time() - file_mtime <= 1.0:
+            file_mtime = -1.0
+
         # The mtime changed, so let's see if the content's changed.
         digest = file_path.digest()
 
-- 
2.43.0


From 56e8a0c1a9cd1810a026eaeea5ea2f4ed65817bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:17 +0000
Subject: [PATCH 15/36] fix: run a call again when one of its registered
 sources is gone

---
 lib/fbuild/db/backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index f929015..1c8aad5 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -292,7 +292,8 @@ class Backend:
                 try:
                     d, file_id, file_digest = self.check_call_file(call_id, src)
                 except OSError:
-                    pass
+                    # The file does not exist anymore.
+                    external_digests.append((None, src, None))
                 else:
                     if d:
                         external_digests.append((file_id, src, file_digest))
-- 
2.43.0


From 3ac5166d4315e3b3225d7853e14d8ef370cc92b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:17 +0000
Subject: [PATCH 16/36] fix: never leave the build without a complete state
 file (pickle)

---
 lib/fbuild/db/pickle_backend.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/lib/fbuild/db/pickle_backend.py b/lib/fbuild/db/pickle_backend.py
index a3af2a7..7192068 100644
--- a/lib/fbuild/db/pickle_backend.py
+++ b/lib/fbuild/db/pickle_backend.py
@@ -1,4 +1,5 @@
 import io
+import os
 import pickle
 
 import fbuild.db.cache_backend
@@ -55,19 +56,14 @@ class PickleBackend(fbuild.db.cache_backend.CacheBackend):
 
         # Try to save the state as atomically as possible. Unfortunately, if
         # someone presses ctrl+c while we're saving, we might corrupt the db.
-        # So, we'll write to a temp file, then move the old state file out of
-        # the way, then rename the temp file to the filename.
+        # So, we'll write to a temp file, make sure it is on the disk, then
+        # replace the old state file with it.
         path = fbuild.path.Path(self._file_name)
         tmp = path + '.tmp'
-        old = path + '.old'
 
         with open(tmp, 'wb') as f:
             f.write(s)
+            f.flush()
+            os.fsync(f.fileno())
 
-        if path.exists():
-            path.rename(old)
-
-        tmp.rename(path)
-
-        if old.exists():
-            old.remove()
+        os.replace(tmp, path)
-- 
2.43.0


From 9ca55729b8a6e12db28de221242e032bdc59aac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:17 +0000
Subject: [PATCH 17/36] fix: do not mark outdated data as current before
 removing it

---
 lib/fbuild/db/backend.py        | 7 ++++++-
 lib/fbuild/db/sqlite_backend.py | 5 +++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index 1c8aad5..eecd653 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -29,7 +29,7 @@ class Backend:
         self._connect(*args, **kwargs)
         if self._file_name is not None and self.version() != self.latest_version():
             # Database cache spec has been updated in the mean time, so re-create it.
-            self.close()
+            self._discard()
             self._file_name.remove()
             self._connect(*args, **kwargs)
 
@@ -38,6 +38,11 @@ class Backend:
         raise NotImplementedError
 
 
+    def _discard(self):
+        """Close the connection without saving anything, since that would mark
+        the old data as current (backend implementation)."""
+
+
     def close(self, *args, **kwargs):
         """Close the connection to the database backend."""
         raise NotImplementedError
diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index be4eb11..d5e1e25 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -67,6 +67,11 @@ class SqliteBackend(fbuild.db.backend.Backend):
         self.conn.close()
 
 
+    def _discard(self):
+        """Close the connection without saving anything."""
+        self.conn.close()
+
+
     def _initialize_database(self):
         self.cursor.executescript('''
             PRAGMA foreign_keys = ON;
-- 
2.43.0


From 9db9265a848fd6f6588709b2d90c58b72f2871c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:17 +0000
Subject: [PATCH 18/36] fix: do not start over when the state file cannot be
 read (pickle)

---
 lib/fbuild/db/pickle_backend.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/fbuild/db/pickle_backend.py b/lib/fbuild/db/pickle_backend.py
index 7192068..1185e9b 100644
--- a/lib/fbuild/db/pickle_backend.py
+++ b/lib/fbuild/db/pickle_backend.py
@@ -15,8 +15,12 @@ class PickleBackend(fbuild.db.cache_backend.CacheBackend):
 
         self._file_name = fbuild.path.Path(filename)
 
-        if self._file_name.exists():
-            with open(self._file_name, 'rb') as f:
+        try:
+            f = open(self._file_name, 'rb')
+        except FileNotFoundError:
+            super()._connect()
+        else:
+            with f:
                 unpickler = fbuild.db.backend.Unpickler(self._ctx, f)
                 try:
                     data = unpickler.load()
@@ -33,8 +37,6 @@ class PickleBackend(fbuild.db.cache_backend.CacheBackend):
                 self._version, self._functions, self._function_calls, \
                     self._files, self._call_files, self._external_srcs, \
                     self._external_dsts = data
-        else:
-            super()._connect()
 
 
     def close(self):
-- 
2.43.0


From 2021d9ab825b23ba542d2b3941d42a06bf1144c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:17 +0000
Subject: [PATCH 19/36] fix: ignore stored calls whose classes do not exist
 anymore

---
 lib/fbuild/db/pickle_backend.py |  2 +-
 lib/fbuild/db/sqlite_backend.py | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/fbuild/db/pickle_backend.py b/lib/fbuild/db/pickle_backend.py
index 1185e9b..87adc73 100644
--- a/lib/fbuild/db/pickle_backend.py
+++ b/lib/fbuild/db/pickle_backend.py
@@ -24,7 +24,7 @@ class PickleBackend(fbuild.db.cache_backend.CacheBackend):
                 unpickler = fbuild.db.backend.Unpickler(self._ctx, f)
                 try:
                     data = unpickler.load()
-                except AttributeError:
+                except (AttributeError, ImportError):
                     # Likely a moved member. Just start clean!
                     super()._connect()
                     return
diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index d5e1e25..e692658 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -304,12 +304,16 @@ class SqliteBackend(fbuild.db.backend.Backend):
                 FROM Call
                 WHERE fun_id=?
                 ''', (fun_id,)):
-            old_bound = self._pickle_loads(old_bound)
+            try:
+                old_bound = self._pickle_loads(old_bound)
 
-            if bound == old_bound:
-                old_result = self._pickle_loads(old_result)
+                if bound == old_bound:
+                    old_result = self._pickle_loads(old_result)
 
-                return False, call_id, old_result
+                    return False, call_id, old_result
+            except (AttributeError, ImportError):
+                # Likely a moved member. We can't use this call anymore.
+                pass
         else:
             return True, None, None
 
-- 
2.43.0


From 178e9be566eef493a7c6622f8a782dd034ea5fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:09 +0000
Subject: [PATCH 20/36] fix: forget the stored result of a call that failed

A call that raised an exception, or was interrupted, might have overwritten
some of its outputs, so the result of an earlier run does not match them.
---
 lib/fbuild/db/backend.py        | 15 +++++++++++++++
 lib/fbuild/db/cache_backend.py  |  9 +++++++++
 lib/fbuild/db/database.py       |  2 ++
 lib/fbuild/db/sqlite_backend.py |  9 +++++++++
 4 files changed, 35 insertions(+)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index eecd653..2d9d04d 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -220,6 +220,21 @@ class Backend:
         """Insert or update the function call."""
         raise NotImplementedError
 
+
+    def forget_call(self, fun_name, bound):
+        """Clear the function call from the database."""
+
+        fun_id, _, _ = self.find_function(fun_name)
+        if fun_id is not None:
+            _, call_id, _ = self.find_call(fun_id, bound)
+            if call_id is not None:
+                self.delete_call(call_id)
+
+
+    def delete_call(self, call_id):
+        """Remove the function call from the database."""
+        raise NotImplementedError
+
     # --------------------------------------------------------------------------
 
     def check_call_files(self, call_id, file_names):
diff --git a/lib/fbuild/db/cache_backend.py b/lib/fbuild/db/cache_backend.py
index a9e869d..3064b2a 100644
--- a/lib/fbuild/db/cache_backend.py
+++ b/lib/fbuild/db/cache_backend.py
@@ -201,6 +201,15 @@ class CacheBackend(fbuild.db.backend.Backend):
 
         return (fun_id, call_index)
 
+
+    def delete_call(self, call_id):
+        """Remove the function call from the database."""
+
+        fun_name, call_index = call_id
+
+        # Nothing equals this, and the indices of the other calls stay the same.
+        self._function_calls[fun_name][call_index] = (None, None)
+
     # --------------------------------------------------------------------------
 
     def find_call_file(self, call_id, file_name):
diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index daecb7c..406355e 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -205,6 +205,8 @@ class Database:
             # functions this call used.
             if callstack:
                 callstack[-1].dependents.extend(call.dependents)
+            # It might have overwritten some of its outputs.
+            self._rpc.call(self._backend.forget_call, fun_name, call_bound)
             raise
         finally:
             fbuild.sched.task_state.calls = callstack
diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index e692658..8126ab5 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -348,6 +348,15 @@ class SqliteBackend(fbuild.db.backend.Backend):
 
         return call_id
 
+
+    def delete_call(self, call_id):
+        """Remove the function call from the database."""
+
+        for table in 'CallFile', 'ExternalSrc', 'ExternalDst', 'Call':
+            self.cursor.execute(
+                'DELETE FROM %s WHERE call_id=?' % table,
+                (call_id,))
+
     # --------------------------------------------------------------------------
 
     def find_call_file(self, call_id, file_id):
-- 
2.43.0


From c21deede6cbebb0fd4df0a26a91b917bf08b282b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:25 +0000
Subject: [PATCH 21/36] fix: do not keep a call when its registered files could
 not be saved

---
 lib/fbuild/db/backend.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index 2d9d04d..d82f842 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -135,9 +135,14 @@ class Backend:
 
         # Get the real call_id to use in the call files.
         call_id = self.save_call(call_id, fun_id, bound, result)
-        self.save_call_files(call_id, call_file_digests)
+        try:
+            self.save_call_files(call_id, call_file_digests)
 
-        self.save_external_files(call_id, external_srcs, external_dsts)
+            self.save_external_files(call_id, external_srcs, external_dsts)
+        except BaseException:
+            # The call is useless without knowing all of its files.
+            self.delete_call(call_id)
+            raise
 
     # --------------------------------------------------------------------------
 
-- 
2.43.0


From 2095fc4520f94b75df7a2ecc034a97d19852d413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 22/36] fix: wait for commands that were killed

Killing a command pretended to know its status, so that nobody ever waited for
it, leaving a zombie behind.
---
 lib/fbuild/subprocess/killableprocess.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/fbuild/subprocess/killableprocess.py b/lib/fbuild/subprocess/killableprocess.py
index 0e03167..55f391b 100644
--- a/lib/fbuild/subprocess/killableprocess.py
+++ b/lib/fbuild/subprocess/killableprocess.py
@@ -203,7 +203,6 @@ class Popen(subprocess.Popen):
             except OSError as ex:
                 if ex.errno != errno.ESRCH:
                     raise
-            self.returncode = -9
 
     def _try_wait(self, wait_flags):
         if wait_flags == 0:
-- 
2.43.0


From 95c16cbceea6a362ebddea67770ec5d76d93d035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:58 +0000
Subject: [PATCH 23/36] fix: stop the timer of a command as soon as it ended

It kept running while the thread waited for its turn to go on, so that a command
that ended in time was reported as timed out, and a process that got its number
in the meantime was killed.
---
 lib/fbuild/context.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/fbuild/context.py b/lib/fbuild/context.py
index 91b7615..aa7f59f 100644
--- a/lib/fbuild/context.py
+++ b/lib/fbuild/context.py
@@ -209,6 +209,10 @@ class Context:
                 with self.scheduler.interruptible():
                     stdout, stderr = p.communicate(input)
                     returncode = p.wait()
+
+                    # It might take long until we can go on.
+                    if timeout:
+                        timer.cancel()
             except KeyboardInterrupt:
                 # Make sure if we get a keyboard interrupt to kill the process.
                 p.kill(group=True, sigint=True)
-- 
2.43.0


From 0a7f6f8df1e2b92f19173ec7afb6a9b84f344fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 24/36] fix: install to the target itself, and set its
 permissions instead of the source's

---
 lib/fbuild/install.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/fbuild/install.py b/lib/fbuild/install.py
index 003c3dd..b093bc1 100644
--- a/lib/fbuild/install.py
+++ b/lib/fbuild/install.py
@@ -20,15 +20,19 @@ class LocalCommander:
     def install(self, file, target, perms=None):
         target.parent.makedirs(exist_ok=True)
 
+        # Replace what is there: do not write through a link, into a directory or
+        # into a file that may not be written to. Let the copy complain if this
+        # is the file to install.
+        if target.lexists() and not os.path.samestat(file.lstat(), target.lstat()):
+            target.remove()
+
         if file.islink():
             # Assume the user knows what they're doing, and just copy the link itself.
-            if target.exists():
-                target.remove()
             os.symlink(file.readlink(), target)
         else:
             file.copy(target)
-        if perms is not None:
-            file.chmod(perms)
+            if perms is not None:
+                target.chmod(perms)
 
     def close(self): pass
 
-- 
2.43.0


From f59b2e7b5cc89ec0c1713cefbc05be714ad35681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 25/36] fix: report every failure of the privileged install
 helper

---
 lib/fbuild/install.py | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/lib/fbuild/install.py b/lib/fbuild/install.py
index b093bc1..c6dcbb9 100644
--- a/lib/fbuild/install.py
+++ b/lib/fbuild/install.py
@@ -44,22 +44,36 @@ class PolkitCommander:
         self.closed = False
         self._send('chdir', os.getcwd())
 
+    def _write(self, *message):
+        self.proc.stdin.write(self._encode(message))
+        self.proc.stdin.write('\n')
+        self.proc.stdin.flush()
+
     def _send(self, *message):
         try:
-            encoded = self._encode(message)
-            self.proc.stdin.write(encoded)
-            self.proc.stdin.write('\n')
-            self.proc.stdin.flush()
-
+            self._write(*message)
             line = self.proc.stdout.readline()
         except OSError as ex:
             if ex.errno == errno.EPIPE:
                 # Broken pipe error...the child process probably died.
-                self.close(ask=False)
+                self._fail()
             raise
         else:
             if line != 'done\n':
-                self.close(ask=False)
+                self._fail()
+
+    def _fail(self):
+        self.closed = True
+
+        # It may still wait for something.
+        try:
+            self.proc.stdin.close()
+        except OSError:
+            pass
+
+        self.proc.wait()
+        self.ctx.logger.log("Failed to run 'fbuild install' via pkexec.", color='red')
+        sys.exit(self.proc.returncode or 1)
 
     @staticmethod
     def _encode(data):
@@ -72,18 +86,23 @@ class PolkitCommander:
     def install(self, file, target, perms=None):
         self._send('install', file, target, perms)
 
-    def close(self, *, ask=True):
+    def close(self):
         if self.closed:
             return
 
-        if ask:
-            self._send('close')
+        try:
+            # There is no answer to this.
+            self._write('close')
+            self.proc.stdin.close()
+        except OSError as ex:
+            if ex.errno != errno.EPIPE:
+                raise
+
         self.proc.wait()
         self.closed = True
 
         if self.proc.returncode != 0:
-            self.ctx.logger.log("Failed to run 'fbuild install' via pkexec.", color='red')
-            sys.exit(self.proc.returncode)
+            self._fail()
 
 
 def polkit_process():
-- 
2.43.0


From bf5a8ae84c8261938a6b8bda0d18bc7223d3ea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:32 +0000
Subject: [PATCH 26/36] fix: keep buffering the messages of a task after its
 first line, and write lines whole

---
 lib/fbuild/console.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/lib/fbuild/console.py b/lib/fbuild/console.py
index e7c475d..1b0c754 100644
--- a/lib/fbuild/console.py
+++ b/lib/fbuild/console.py
@@ -126,6 +126,7 @@ class Log:
             yield
         finally:
             self.flush()
+            self._thread_stack.pop()
 
     def write(self, msg, *, buffer=True, **kwargs):
         if not buffer or self._threadcount == 1:
@@ -137,7 +138,8 @@ class Log:
                 if msg.endswith('\n'):
                     self.flush()
             else:
-                self._write(msg, **kwargs)
+                with self._lock:
+                    self._write(msg, **kwargs)
 
     def _write(self, msg, color=None, verbose=0):
         # make sure message is a string
@@ -152,8 +154,8 @@ class Log:
         self.flush()
 
     def flush(self):
-        if self._thread_stack:
-            msgs = self._thread_stack.pop()
+        if self._thread_stack and self._thread_stack[-1]:
+            msgs, self._thread_stack[-1] = self._thread_stack[-1], []
             with self._lock:
                 for msg, kwargs in msgs:
                     self._write(msg, **kwargs)
@@ -177,13 +179,14 @@ class Log:
 
         msg = msg.ljust(self.maxlen) + ': '
 
-        if result is None:
-            self.write(msg, color=color, verbose=verbose)
-            self.write('\n', verbose=verbose + 1)
-        else:
-            self.write(msg, verbose=verbose)
-            self.write(result, color=color, verbose=verbose)
-            self.write('\n', verbose=verbose)
+        with self._lock:
+            if result is None:
+                self.write(msg, color=color, verbose=verbose)
+                self.write('\n', verbose=verbose + 1)
+            else:
+                self.write(msg, verbose=verbose)
+                self.write(result, color=color, verbose=verbose)
+                self.write('\n', verbose=verbose)
 
     def passed(self, msg='ok', color='green', **kwargs):
         self.log(msg, color=color, **kwargs)
-- 
2.43.0


From 6ec78ab7afd679ab983239d7c56ca954c84c4629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 27/36] fix: log messages of a task that are not strings

---
 lib/fbuild/console.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/console.py b/lib/fbuild/console.py
index 1b0c754..f5dd492 100644
--- a/lib/fbuild/console.py
+++ b/lib/fbuild/console.py
@@ -129,6 +129,9 @@ class Log:
             self._thread_stack.pop()
 
     def write(self, msg, *, buffer=True, **kwargs):
+        # make sure message is a string
+        msg = str(msg)
+
         if not buffer or self._threadcount == 1:
             with self._lock:
                 self._write(msg, **kwargs)
@@ -142,8 +145,6 @@ class Log:
                     self._write(msg, **kwargs)
 
     def _write(self, msg, color=None, verbose=0):
-        # make sure message is a string
-        msg = str(msg)
         if self.file:
             self.file.write(msg)
 
-- 
2.43.0


From e2a6508a2cd3a22c3f26ed69251ae924a1e18264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 28/36] fix: build after configuring when the targets are
 configure and install

---
 lib/fbuild/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/main.py b/lib/fbuild/main.py
index 2408145..3669c19 100644
--- a/lib/fbuild/main.py
+++ b/lib/fbuild/main.py
@@ -106,7 +106,7 @@ def build(ctx):
         if targets[-1] != 'install':
             raise fbuild.Error('install must be last target')
         if not set(targets) - {'configure', 'install'}:
-            targets.insert(targets.index('install')-1, 'build')
+            targets.insert(targets.index('install'), 'build')
 
     # Step through each target and execute it.
     for target_name in targets:
-- 
2.43.0


From d3a14facf7ce98f60ca2d1623affeb3bf4e4c61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 29/36] fix: do not keep old members when building a static
 library again

---
 lib/fbuild/builders/c/gcc/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/fbuild/builders/c/gcc/__init__.py b/lib/fbuild/builders/c/gcc/__init__.py
index 5638aab..5125a63 100644
--- a/lib/fbuild/builders/c/gcc/__init__.py
+++ b/lib/fbuild/builders/c/gcc/__init__.py
@@ -67,6 +67,11 @@ class Ar(fbuild.db.PersistentObject):
 
         srcs = list(Path.globall(srcs))
 
+        # ar adds to an archive that already exists, which would keep the
+        # members that are not part of the library anymore.
+        if dst.lexists():
+            dst.remove()
+
         cmd = [self.exe]
         cmd.extend(self.flags)
         cmd.extend(flags)
-- 
2.43.0


From b40b870d2e83293e52ad4d36211ea61bbe286c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 30/36] fix: link again when a library used by a library
 changed

---
 lib/fbuild/builders/__init__.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/lib/fbuild/builders/__init__.py b/lib/fbuild/builders/__init__.py
index bec6bec..12e1646 100644
--- a/lib/fbuild/builders/__init__.py
+++ b/lib/fbuild/builders/__init__.py
@@ -194,6 +194,25 @@ class AbstractCompiler(fbuild.db.PersistentObject):
 
 # ------------------------------------------------------------------------------
 
+def indirect_libs(libs):
+    """Return the paths of all the libraries that I{libs} were built with, as
+    whatever is linked with I{libs} is linked with these as well."""
+    paths = []
+
+    def f(lib):
+        for l in getattr(lib, 'libs', ()):
+            path = fbuild.path.Path(l)
+            if path not in paths:
+                paths.append(path)
+                f(l)
+
+    for lib in libs:
+        f(lib)
+
+    return paths
+
+# ------------------------------------------------------------------------------
+
 class AbstractLibLinker(AbstractCompiler):
     @fbuild.db.cachemethod
     @platform.auto_platform_options()
@@ -201,6 +220,7 @@ class AbstractLibLinker(AbstractCompiler):
             libs:fbuild.db.SRCS=(),
             **kwargs) -> fbuild.db.DST:
         """Link compiled files into a library and caches the results."""
+        self.ctx.db.add_external_dependencies_to_call(srcs=indirect_libs(libs))
         return self.uncached_link_lib(dst, srcs, *args, libs=libs, **kwargs)
 
     @abc.abstractmethod
@@ -273,6 +293,7 @@ class AbstractExeLinker(AbstractCompiler, AbstractRunner):
             libs:fbuild.db.SRCS=(),
             **kwargs) -> fbuild.db.DST:
         """Link compiled files into an executable."""
+        self.ctx.db.add_external_dependencies_to_call(srcs=indirect_libs(libs))
         return self.uncached_link_exe(dst, srcs, *args, libs=libs, **kwargs)
 
     @abc.abstractmethod
-- 
2.43.0


From a0483e1be8ade576e5878a0c6475622024b7b410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 31/36] fix: tell a cached method from the one of the base
 class it overrides

---
 lib/fbuild/db/database.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index 406355e..23bf48e 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -285,7 +285,8 @@ class Database:
             else:
                 if hasattr(wrapped_function, '__self__'):
                     is_bound_method = True
-                    cls = wrapped_function.__self__.__class__
+                    cls = Database._find_method_class(wrapped_function,
+                                                      function.__name__)
                 else:
                     assert member_of, function
                     cls = member_of
@@ -303,6 +304,25 @@ class Database:
 
         return fun_name, function, args, kwargs
 
+    @staticmethod
+    def _find_method_class(method, name):
+        """Find the class a bound method is named after."""
+        cls = method.__self__.__class__
+        overridden = False
+        for base in fbuild.inspect.getmro(cls):
+            member = base.__dict__.get(name)
+            if isinstance(member, (fbuild.db.cachemethod,
+                                   fbuild.db.cacheproperty)):
+                if member.method is method.__func__:
+                    # A method that is called with super() must not be mistaken
+                    # for the one that overrides it.
+                    if overridden and isinstance(base, fbuild.db.PersistentMeta):
+                        return base
+                    break
+                overridden = True
+
+        return cls
+
     @staticmethod
     def _digest_function(function):
         """Compute the digest for a function or a function object."""
-- 
2.43.0


From 11beba371b1ad4361529841633de59c33d32e83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:30 +0000
Subject: [PATCH 32/36] fix: build temporary files where they are, not in the
 build directory

---
 lib/fbuild/path.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/fbuild/path.py b/lib/fbuild/path.py
index 9fa5b12..afd5e99 100644
--- a/lib/fbuild/path.py
+++ b/lib/fbuild/path.py
@@ -122,6 +122,9 @@ class Path(str):
         """
         if not self.startswith(root):
             if os.path.isabs(self):
+                if self.startswith(os.path.abspath(root) + os.sep):
+                    # It is just spelled in another way.
+                    return Path(self)
                 path = os.path.split(self)[1]
             else:
                 path = self
-- 
2.43.0


From e61f2464b857ba41d4b6f37ba9914d4f4e93daa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:30 +0000
Subject: [PATCH 33/36] fix: notice that a configuration test changed

---
 lib/fbuild/db/database.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index 23bf48e..238fb6a 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -1,6 +1,7 @@
 import hashlib
 import itertools
 import pprint
+import re
 import threading
 
 import fbuild
@@ -336,6 +337,11 @@ class Database:
             if function.__name__ == '__call_super__':
                 src += Database._constructors_source(function.__self__)
 
+            # What a functor does depends on its attributes.
+            if function.__name__ == '__call__' and \
+                    fbuild.inspect.ismethod(function):
+                src += Database._functor_source(function.__self__)
+
             digest = hashlib.md5(src.encode()).hexdigest()
         else:
             # The function is a functor so let it digest itself.
@@ -343,6 +349,16 @@ class Database:
 
         return digest
 
+    @staticmethod
+    def _functor_source(functor):
+        """Return a description of a functor, which must be the same in every
+        process."""
+        attributes = sorted((name, value)
+            for name, value in vars(functor).items()
+            if not name.startswith('__fbuild'))
+
+        return re.sub(r' at 0x[0-9a-fA-F]+', '', repr(attributes))
+
     @staticmethod
     def _constructors_source(cls):
         """Return the source of all the constructors a class uses."""
-- 
2.43.0


From 1b5adb18ca3a2c1805a17b7a10fcb18fb9bf96c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:30 +0000
Subject: [PATCH 34/36] fix: compare and show the results of function and
 struct tests

---
 lib/fbuild/config/c/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/config/c/__init__.py b/lib/fbuild/config/c/__init__.py
index 53de6a0..76de303 100644
--- a/lib/fbuild/config/c/__init__.py
+++ b/lib/fbuild/config/c/__init__.py
@@ -25,7 +25,7 @@ class Function:
         return \
             type(self) is type(other) and \
             self.return_type == other.return_type and \
-            self.args == other.size
+            self.args == other.args
 
     def __hash__(self):
         return hash((self.__class__, self.return_type, self.args))
@@ -102,7 +102,7 @@ class Struct:
     def __repr__(self):
         return '%s(%s)' % (
             self.__class__.__name__,
-            ', ' + ', '.join(repr(m) for m in self.members) if members else '',
+            ', '.join(repr(m) for m in self.members),
         )
 
     def __eq__(self, other):
-- 
2.43.0


From 02511782252ceff8197c5f54ebc2e0a0c75ceb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:46 +0000
Subject: [PATCH 35/36] fix: compile files with spaces and dollar signs in the
 names of them or their headers

---
 lib/fbuild/builders/c/gcc/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/builders/c/gcc/__init__.py b/lib/fbuild/builders/c/gcc/__init__.py
index 5125a63..25d0554 100644
--- a/lib/fbuild/builders/c/gcc/__init__.py
+++ b/lib/fbuild/builders/c/gcc/__init__.py
@@ -456,14 +456,16 @@ class Builder(fbuild.builders.c.Builder):
                 # Parse the output and return the module dependencies.
                 stdout = f.read().replace(b'\\\n', b'')
 
-        # Parse the output and return the module dependencies.
-        m = re.match(b'\s*\S+:(?: (.*))?$', stdout)
+        # Parse the output and return the module dependencies. Spaces inside of
+        # names are escaped.
+        m = re.match(b'\s*(?:\\\\\s|\S)+:(?: (.*))?$', stdout)
         if not m:
             raise fbuild.ExecutionError('unable to understand %r' % stdout)
 
         s = m.group(1)
         if s is not None:
-            deps = s.decode().split()
+            deps = [re.sub(r'\\([\s#])', r'\1', dep).replace('$$', '$')
+                for dep in re.findall(r'(?:\\\s|\S)+', s.decode())]
             self.ctx.db.add_external_dependencies_to_call(srcs=deps)
 
         return obj
-- 
2.43.0


From 669f0efd9b25dbde884eea1a2c9d239477407c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:02 +0000
Subject: [PATCH 36/36] fix: an interrupt while the main thread writes to the
 log hung the program

---
 lib/fbuild/console.py | 11 ++++++++---
 lib/fbuild/main.py    |  6 +++++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/lib/fbuild/console.py b/lib/fbuild/console.py
index f5dd492..fd95dad 100644
--- a/lib/fbuild/console.py
+++ b/lib/fbuild/console.py
@@ -161,9 +161,14 @@ class Log:
                 for msg, kwargs in msgs:
                     self._write(msg, **kwargs)
 
-        if self.file:
-            self.file.flush()
-        sys.stdout.flush()
+        with self._lock:
+            if self.file:
+                self.file.flush()
+            sys.stdout.flush()
+
+    def is_held(self):
+        """Return whether the current thread is writing to the log."""
+        return self._lock._is_owned()
 
     def log(self, msg, color=None, verbose=0):
         with self._lock:
diff --git a/lib/fbuild/main.py b/lib/fbuild/main.py
index 3669c19..3dd5c72 100644
--- a/lib/fbuild/main.py
+++ b/lib/fbuild/main.py
@@ -159,7 +159,10 @@ def main(argv=None):
     old_handler = signal.getsignal(signal.SIGINT)
 
     def handle_interrupt(signum, frame):
-        ctx.scheduler.shutdown()
+        # The worker threads may be waiting for the log. If it's us who holds
+        # it, we can't wait for them before we let go of it.
+        if not ctx.logger.is_held():
+            ctx.scheduler.shutdown()
         old_handler(signum, frame)
 
     signal.signal(signal.SIGINT, handle_interrupt)
@@ -200,6 +203,7 @@ def main(argv=None):
             # between the finally and the mutex.release call.  So, we can find
             # ourselves exiting functions with the lock still held.  This could
             # then cause deadlocks if that lock was ever acquired again.  Oiy.
+            ctx.scheduler.shutdown()
             print('Interrupted, saving state...')
             raise
         else:
-- 
2.43.0

