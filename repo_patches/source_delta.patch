From 4b4182e9521cda3f4b1ef61219b29b8e5b7ab667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:43 +0000
Subject: [PATCH 01/73] fix: leave the call stack balanced when a cached
 function raises

If the function raised, its entry stayed on Database._callstack, so every
function called afterwards was recorded as a dependent of the failed call
instead of its real caller.
---
 lib/fbuild/db/database.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index cf635b0..993a586 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -181,8 +181,11 @@ class Database:
         external_dsts = set()
 
         # The call was dirty, so recompute it.
-        call_result = outer_function(*args, **kwargs)
-        fun_dependents = tuple(self._callstack.pop())
+        try:
+            call_result = outer_function(*args, **kwargs)
+        finally:
+            # Even if the function failed, it's not running anymore.
+            fun_dependents = tuple(self._callstack.pop())
 
         # Make sure the result is not a generator.
         assert not fbuild.inspect.isgenerator(call_result), \
-- 
2.43.0


From a2c14717f5595b805f14b928db4e9d029151d474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:43 +0000
Subject: [PATCH 02/73] fix: treat a missing external source file as a change

A discovered source file that could not be read was skipped, so the cached
result was used although one of its sources was gone.
---
 lib/fbuild/db/backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index 099e6b4..fed9eea 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -246,7 +246,8 @@ class Backend:
                 try:
                     d, file_id, file_digest = self.check_call_file(call_id, src)
                 except OSError:
-                    pass
+                    # The file's gone, so the call is out of date.
+                    external_digests.append((None, src, None))
                 else:
                     if d:
                         external_digests.append((file_id, src, file_digest))
-- 
2.43.0


From 24448fa447de84f9981e6cabe29e2f5d18bceb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:43 +0000
Subject: [PATCH 03/73] fix: keep discovered dependencies when a file changes

Deleting the changed file made the sqlite backend drop the ExternalSrc and
ExternalDst rows of every call that used it. Only the first call to notice the
change ran again; the others, or that call itself if it then failed, were
answered from the cache.
---
 lib/fbuild/db/backend.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index fed9eea..0cab75b 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -300,15 +300,10 @@ class Backend:
             self.save_file(file_id, file_name, file_mtime, digest)
             return False, file_id, file_mtime, digest
 
-        if file_id is not None:
-            # Since the function changed, all of the calls that used this
-            # function are dirty.
-            self.delete_file(file_name)
-
-            # The file_id is now invalid.
-            file_id = None
-
-        # Now, add the file back to the database.
+        # Save the new digest. All of the calls that used the old contents still
+        # have the old digest recorded, so they will notice that they are dirty.
+        # Do not delete the file here, since that would make the calls that did
+        # not run again yet forget that they depend on it.
         file_id = self.save_file(file_id, file_name, file_mtime, digest)
 
         # Returns True since the file changed.
-- 
2.43.0


From 7e1902cf9513110509332aa4e11ef726dd9334f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:43 +0000
Subject: [PATCH 04/73] fix: save every external destination in the sqlite
 backend

Destinations whose digest was already recorded for the call were left out, so
deleting them later did not run the call again.
---
 lib/fbuild/db/sqlite_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index 9e1a561..f7cc6db 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -451,7 +451,7 @@ class SqliteBackend(fbuild.db.backend.Backend):
             self.cursor.executemany(
                 'INSERT INTO ExternalDst (call_id,file_id) VALUES (?,?)',
                 ((call_id, file_id)
-                    for dirty, file_id, file_digest in dst_call_files if dirty))
+                    for dirty, file_id, file_digest in dst_call_files))
 
     # --------------------------------------------------------------------------
 
-- 
2.43.0


From 31c6b16348e6af5da2ad29c5a01e74b3edc95ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:43 +0000
Subject: [PATCH 05/73] fix: report whether the sqlite backend deleted
 something

delete_function and delete_file always returned None, so --delete-function and
--delete-file reported an error even after deleting the record.
---
 lib/fbuild/db/sqlite_backend.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index f7cc6db..fe826f1 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -218,6 +218,8 @@ class SqliteBackend(fbuild.db.backend.Backend):
             'DELETE FROM Function WHERE fun_name=?',
             (fun_name,))
 
+        return self.cursor.rowcount > 0
+
     # --------------------------------------------------------------------------
 
     def _pickle_dumps(self, obj):
@@ -509,7 +511,7 @@ class SqliteBackend(fbuild.db.backend.Backend):
 
         # Exit early if we got nothing returned.
         if not rows:
-            return
+            return False
 
         (file_id,), = rows
 
@@ -527,3 +529,5 @@ class SqliteBackend(fbuild.db.backend.Backend):
             (file_id,))
 
         self.cursor.execute('DELETE FROM File WHERE file_name=?', (file_name,))
+
+        return True
-- 
2.43.0


From 6b9c05b33e0a52fb063659f975baa6cfb0394dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:43 +0000
Subject: [PATCH 06/73] fix: do not recurse forever on functions that depend on
 each other

check_function did not pass on which functions were already checked, so two
cached functions that call each other made it recurse without end.
---
 lib/fbuild/db/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index 0cab75b..592f533 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -135,7 +135,7 @@ class Backend:
         if not fun_dirty:
             # Have any of it's dependents changed?
             for dep in set(fun_dependents) - already_checked:
-                dep_dirty, _ = self.check_function(dep)
+                dep_dirty, _ = self.check_function(dep, already_checked)
                 if dep_dirty:
                     fun_dirty = True
                     break
-- 
2.43.0


From e923d1621f5c46599c2a255af14511a74d0b2cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:10 +0000
Subject: [PATCH 07/73] fix: rerun the calls that discovered a deleted file

Deleting a file from the sqlite backend dropped the discovered dependencies on
it but kept the calls, which then were answered from the cache without
looking at the file ever again.
---
 lib/fbuild/db/sqlite_backend.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index fe826f1..8ee209b 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -520,6 +520,15 @@ class SqliteBackend(fbuild.db.backend.Backend):
             'DELETE FROM CallFile WHERE file_id=?',
             (file_id,))
 
+        # The calls that discovered this file can't be kept without their
+        # dependency on it, so they have to be run again.
+        self.cursor.execute('''
+            DELETE FROM Call WHERE call_id IN (
+                SELECT call_id FROM ExternalSrc WHERE file_id=?
+                UNION
+                SELECT call_id FROM ExternalDst WHERE file_id=?)
+            ''', (file_id, file_id))
+
         self.cursor.execute(
             'DELETE FROM ExternalSrc WHERE file_id=?',
             (file_id,))
-- 
2.43.0


From 6b0abb8175bf3e2e4d236645bf73c44f77f1e9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 08/73] fix: pass on the discovered dependencies of cached
 inner calls

When a cached function ran again and an inner call was answered from the
cache, the files the inner call had discovered were not recorded for the
outer one, which then missed later changes to them.
---
 lib/fbuild/db/database.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index 993a586..98ea210 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -140,7 +140,14 @@ class Database:
                     dirty_dsts.add(dst)
                     break
             else:
-                # The call was not dirty, so return the cached value.
+                # The call was not dirty, so return the cached value. The calls
+                # that are running still depend on everything this one found.
+                external_srcs = set(external_srcs)
+                external_dsts = set(external_dsts)
+                self.add_external_dependencies_to_call(
+                    srcs=external_srcs,
+                    dsts=external_dsts)
+
                 all_srcs = srcs.union(external_srcs)
                 all_dsts = dsts.union(external_dsts)
                 all_dsts.update(return_dsts)
-- 
2.43.0


From 13710920542f4182c04cc13e317d943e70e56f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 09/73] fix: treat a dependent function that is not known
 anymore as changed

If a function that a cached function called before was removed, renamed, or its
module was not imported yet, looking up its digest ended the build with a
KeyError.
---
 lib/fbuild/db/backend.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index 592f533..05e51b6 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -127,9 +127,15 @@ class Backend:
             already_checked = set()
         already_checked.add(fun_name)
 
-        fun_digest = Database.get_function_digest_from_map(fun_name)
         fun_id, old_digest, fun_dependents = self.find_function(fun_name)
 
+        try:
+            fun_digest = Database.get_function_digest_from_map(fun_name)
+        except KeyError:
+            # The function is gone, or at least it was not loaded yet, so we
+            # can't tell if it's still the same.
+            return True, fun_id
+
         # Has the function changed?
         fun_dirty = old_digest is None or fun_digest != old_digest
         if not fun_dirty:
-- 
2.43.0


From 05fd885700320e551bf9894dd84f0326f917da27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:24 +0000
Subject: [PATCH 10/73] fix: forget the callers of a function that changed

Once a changed function was saved with its new digest, functions that had
called the old one found nothing changed anymore if they were called later, and
returned results computed with the old function.
---
 lib/fbuild/db/backend.py        | 18 ++++++++++++++++++
 lib/fbuild/db/cache_backend.py  | 11 +++++++++++
 lib/fbuild/db/sqlite_backend.py | 13 +++++++++++++
 3 files changed, 42 insertions(+)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index 05e51b6..111c993 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -105,6 +105,10 @@ class Backend:
                 # The fun_id is now invalid.
                 fun_id = None
 
+            # The functions that called this one are dirty as well. They could
+            # not notice that anymore once this function is saved.
+            self.delete_callers(fun_name)
+
             fun_id = self.save_function(fun_id, fun_name, fun_digest,
                                         fun_dependents)
 
@@ -163,6 +167,20 @@ class Backend:
         """Clear the function from the database."""
         raise NotImplementedError
 
+
+    def find_callers(self, fun_name):
+        """Returns the names of the functions that depend on the function."""
+        raise NotImplementedError
+
+
+    def delete_callers(self, fun_name):
+        """Clear all the functions that depend on the function, directly or
+        through other functions, from the database."""
+
+        for caller in self.find_callers(fun_name):
+            if self.delete_function(caller):
+                self.delete_callers(caller)
+
     # --------------------------------------------------------------------------
 
     def find_call(self, fun_id, bound):
diff --git a/lib/fbuild/db/cache_backend.py b/lib/fbuild/db/cache_backend.py
index 6145abf..06a3fbd 100644
--- a/lib/fbuild/db/cache_backend.py
+++ b/lib/fbuild/db/cache_backend.py
@@ -131,6 +131,17 @@ class CacheBackend(fbuild.db.backend.Backend):
 
         return function_existed
 
+
+    def find_callers(self, fun_name):
+        """Returns the names of the functions that depend on the function."""
+
+        # Make sure we have the right types.
+        assert isinstance(fun_name, str), fun_name
+
+        return [caller
+            for caller, (fun_digest, fun_dependents) in self._functions.items()
+            if fun_name in fun_dependents]
+
     # --------------------------------------------------------------------------
 
     def find_call(self, fun_id, bound):
diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index 8ee209b..62e95a1 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -220,6 +220,19 @@ class SqliteBackend(fbuild.db.backend.Backend):
 
         return self.cursor.rowcount > 0
 
+
+    def find_callers(self, fun_name):
+        """Returns the names of the functions that depend on the function."""
+
+        # Make sure we got the right types.
+        assert isinstance(fun_name, str), fun_name
+
+        self.cursor.execute('SELECT fun_name,fun_dependents FROM Function')
+
+        return [caller
+            for caller, fun_dependents in self.cursor.fetchall()
+            if fun_name in fun_dependents.split('\0')]
+
     # --------------------------------------------------------------------------
 
     def _pickle_dumps(self, obj):
-- 
2.43.0


From f06d09073cb118654c4d6dc739b6c51a3ada9b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:38 +0000
Subject: [PATCH 11/73] fix: record the dependents found by later calls of a
 function

Only the first call after a function changed recorded which functions it
called. A function first called by a later call, with other arguments, could
change without that call being run again.
---
 lib/fbuild/db/backend.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index 111c993..9a206a7 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -111,6 +111,15 @@ class Backend:
 
             fun_id = self.save_function(fun_id, fun_name, fun_digest,
                                         fun_dependents)
+        else:
+            # The function may have called other functions than before.
+            _, _, old_dependents = self.find_function(fun_name)
+            new_dependents = set(fun_dependents) - set(old_dependents)
+
+            if new_dependents:
+                self.save_function(fun_id, fun_name, fun_digest,
+                                   tuple(old_dependents) +
+                                   tuple(sorted(new_dependents)))
 
         # Get the real call_id to use in the call files.
         call_id = self.save_call(call_id, fun_id, bound, result)
-- 
2.43.0


From fa351d01572f85564754bb9d04b650a8bb66b2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 12/73] fix: save a function only once when its calls overlap

When a function called itself, or two threads called it, while it was not saved
yet, the sqlite backend failed with an IntegrityError on the second save and
the other engines lost the dependents recorded by the first one.
---
 lib/fbuild/db/backend.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index 9a206a7..cbfae9a 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -97,6 +97,11 @@ class Backend:
         """Saves the function call into the database."""
 
         # Lock the db since we're updating data structures.
+        if fun_dirty:
+            # Another call, maybe made by this one, may have saved the function
+            # in the meantime.
+            fun_dirty, fun_id = self.check_function(fun_name)
+
         if fun_dirty:
             # Since the function changed, delete out all the related data.
             if fun_id is not None:
-- 
2.43.0


From 108d8c36000f66bbb05501642502b395508a0de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:05 +0000
Subject: [PATCH 13/73] fix: accept requests as soon as RPC.start returns

The thread reported that it started before it set _running, so a call made
right after start could be refused with RPCNotRunning.
---
 lib/fbuild/rpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/rpc.py b/lib/fbuild/rpc.py
index e8f6b0e..fbbedde 100644
--- a/lib/fbuild/rpc.py
+++ b/lib/fbuild/rpc.py
@@ -77,8 +77,8 @@ class RPC(threading.Thread):
     def run(self):
         """Run the rpc thread."""
 
-        self._started.set()
         self._running = True
+        self._started.set()
 
         try:
             while True:
-- 
2.43.0


From a2117938ca076fcf681b5f588d25b56759d722f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:05 +0000
Subject: [PATCH 14/73] fix: apply the permissions to the installed file

Installing with permissions changed the mode of the file in the build
directory and left the installed one as it was.
---
 lib/fbuild/install.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/install.py b/lib/fbuild/install.py
index 003c3dd..16b6622 100644
--- a/lib/fbuild/install.py
+++ b/lib/fbuild/install.py
@@ -28,7 +28,7 @@ class LocalCommander:
         else:
             file.copy(target)
         if perms is not None:
-            file.chmod(perms)
+            target.chmod(perms)
 
     def close(self): pass
 
-- 
2.43.0


From e12cde4c924dab2c8a99f51f7ec203c98e501354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:35 +0000
Subject: [PATCH 15/73] fix: replace dangling links and pass PYTHONPATH when
 installing

Installing a link over a dangling link failed because exists() follows links.
The environment prepared for the privileged helper was never passed to it.
---
 lib/fbuild/install.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/install.py b/lib/fbuild/install.py
index 16b6622..be060ee 100644
--- a/lib/fbuild/install.py
+++ b/lib/fbuild/install.py
@@ -22,7 +22,7 @@ class LocalCommander:
 
         if file.islink():
             # Assume the user knows what they're doing, and just copy the link itself.
-            if target.exists():
+            if target.lexists():
                 target.remove()
             os.symlink(file.readlink(), target)
         else:
@@ -140,7 +140,8 @@ class Installer:
         cmd = [pkexec, sys.executable, '-m', 'fbuild.install', 'polkit']
         proc = fbuild.subprocess.killableprocess.Popen(cmd, stdin=subprocess.PIPE,
                                                        stdout=subprocess.PIPE,
-                                                       universal_newlines=True)
+                                                       universal_newlines=True,
+                                                       env=env)
 
         # Make sure it's ready first.
         proc.stdout.readline()
-- 
2.43.0


From 72ad222086dd14fadc7339a5ddfd8213a5708cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:35 +0000
Subject: [PATCH 16/73] fix: configure before the build that install implies

'fbuild configure install' ran build before configure.
---
 lib/fbuild/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/main.py b/lib/fbuild/main.py
index 2408145..3669c19 100644
--- a/lib/fbuild/main.py
+++ b/lib/fbuild/main.py
@@ -106,7 +106,7 @@ def build(ctx):
         if targets[-1] != 'install':
             raise fbuild.Error('install must be last target')
         if not set(targets) - {'configure', 'install'}:
-            targets.insert(targets.index('install')-1, 'build')
+            targets.insert(targets.index('install'), 'build')
 
     # Step through each target and execute it.
     for target_name in targets:
-- 
2.43.0


From 3b533f6523578bc436cf44b9df3db830dba2c630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:35 +0000
Subject: [PATCH 17/73] fix: call the preexec_fn given to killableprocess.Popen

apply does not exist anymore, so every command started with a preexec_fn
failed.
---
 lib/fbuild/subprocess/killableprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/subprocess/killableprocess.py b/lib/fbuild/subprocess/killableprocess.py
index 0e03167..d77fe25 100644
--- a/lib/fbuild/subprocess/killableprocess.py
+++ b/lib/fbuild/subprocess/killableprocess.py
@@ -104,7 +104,7 @@ class Popen(subprocess.Popen):
             def setsid_preexec_fn():
                 os.setsid()
                 if real_preexec_fn:
-                    apply(real_preexec_fn)
+                    real_preexec_fn()
 
             kwargs['preexec_fn'] = setsid_preexec_fn
 
-- 
2.43.0


From e897d623b72b47e1fa563634791d560621661f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:35 +0000
Subject: [PATCH 18/73] fix: pass on the arguments of the Path operations that
 need them

removedirs called an undefined name, and samefile, chown, link and others
never got the arguments that the operation needs, so they always failed.
---
 lib/fbuild/path.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/fbuild/path.py b/lib/fbuild/path.py
index 9fa5b12..31976fe 100644
--- a/lib/fbuild/path.py
+++ b/lib/fbuild/path.py
@@ -339,7 +339,7 @@ class Path(str):
         return os.remove(self)
 
     def removedirs(self):
-        return removedirs(self)
+        return os.removedirs(self)
 
     def removeroot(self, root):
         """Remove the root of the path with "root", unless it doesn't already
@@ -460,25 +460,25 @@ class Path(str):
     # os-specific functions
 
     if hasattr(os, 'chflags'):
-        def chflags(self):  return os.chflags(self)
+        def chflags(self, *args, **kw): return os.chflags(self, *args, **kw)
 
     if hasattr(os, 'chown'):
-        def chown(self):    return os.chown(self)
+        def chown(self, *args, **kw): return os.chown(self, *args, **kw)
 
     if hasattr(os, 'chroot'):
         def chroot(self):   return os.chroot(self)
 
     if hasattr(os, 'lchflags'):
-        def lchflags(self): return os.lchflags(self)
+        def lchflags(self, *args, **kw): return os.lchflags(self, *args, **kw)
 
     if hasattr(os, 'lchmod'):
-        def lchmod(self):   return os.lchmod(self)
+        def lchmod(self, *args, **kw): return os.lchmod(self, *args, **kw)
 
     if hasattr(os, 'lchown'):
-        def lchown(self):   return os.lchown(self)
+        def lchown(self, *args, **kw): return os.lchown(self, *args, **kw)
 
     if hasattr(os, 'link'):
-        def link(self):     return os.link(self)
+        def link(self, *args, **kw): return os.link(self, *args, **kw)
 
     if hasattr(os, 'mkfifo'):
         def mkfifo(self):   return os.mkfifo(self)
@@ -493,7 +493,7 @@ class Path(str):
         def symlink(self, target):  return os.symlink(self, target)
 
     if hasattr(os.path, 'samefile'):
-        def samefile(self): return os.path.samefile(self)
+        def samefile(self, other): return os.path.samefile(self, other)
 
     if hasattr(os.path, 'splitunc'):
         def splitunc(self):
-- 
2.43.0


From 95d94b91da1bbdb3527e62000849f732f57c2cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:34 +0000
Subject: [PATCH 19/73] fix: reap a killed process and report its real exit
 status

kill() made up a return code, so wait() never reaped the process after a
timeout, and a process that had already exited by itself was reported as
killed. An exception during the wait left the SIGCHLD handler in place.
---
 lib/fbuild/subprocess/killableprocess.py | 27 ++++++++++++------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/lib/fbuild/subprocess/killableprocess.py b/lib/fbuild/subprocess/killableprocess.py
index d77fe25..39edc7d 100644
--- a/lib/fbuild/subprocess/killableprocess.py
+++ b/lib/fbuild/subprocess/killableprocess.py
@@ -203,7 +203,6 @@ class Popen(subprocess.Popen):
             except OSError as ex:
                 if ex.errno != errno.ESRCH:
                     raise
-            self.returncode = -9
 
     def _try_wait(self, wait_flags):
         if wait_flags == 0:
@@ -240,20 +239,22 @@ class Popen(subprocess.Popen):
             # Make sure there is a signal handler for SIGCHLD installed
             oldsignal = signal.signal(signal.SIGCHLD, DoNothing)
 
-            while time.time() < starttime + timeout - 0.01:
-                pid, sts = os.waitpid(self.pid, os.WNOHANG)
-                if pid != 0:
-                    self._handle_exitstatus(sts)
-                    signal.signal(signal.SIGCHLD, oldsignal)
-                    return self.returncode
+            try:
+                while time.time() < starttime + timeout - 0.01:
+                    pid, sts = os.waitpid(self.pid, os.WNOHANG)
+                    if pid != 0:
+                        self._handle_exitstatus(sts)
+                        return self.returncode
+
+                    # time.sleep is interrupted by signals (good!)
+                    newtimeout = timeout - time.time() + starttime
+                    time.sleep(newtimeout)
+                    time.sleep(0.1)
 
-                # time.sleep is interrupted by signals (good!)
-                newtimeout = timeout - time.time() + starttime
-                time.sleep(newtimeout)
-                time.sleep(0.1)
+                self.kill(group)
+            finally:
+                signal.signal(signal.SIGCHLD, oldsignal)
 
-            self.kill(group)
-            signal.signal(signal.SIGCHLD, oldsignal)
             subprocess.Popen.wait(self)
 
         return self.returncode
-- 
2.43.0


From ab57e4f39260b55f98d73dfaabf311af86d91b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:05 +0000
Subject: [PATCH 20/73] fix: guess the shared builder for g++

The shared entry of the g++ line named the static builder, so guess.shared made
static libraries on a system where only g++ works.
---
 lib/fbuild/builders/cxx/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/cxx/__init__.py b/lib/fbuild/builders/cxx/__init__.py
index 854e812..e4e309e 100644
--- a/lib/fbuild/builders/cxx/__init__.py
+++ b/lib/fbuild/builders/cxx/__init__.py
@@ -18,7 +18,7 @@ guess = fbuild.builders.c.Guesser('c++', {'msvc++', 'g++', 'clang++', 'icpc'}, (
         ({'clang++'}, 'fbuild.builders.cxx.clangxx.static',
                       'fbuild.builders.cxx.clangxx.shared'),
         ({'g++'}, 'fbuild.builders.cxx.gxx.static',
-                  'fbuild.builders.cxx.gxx.static'),
+                  'fbuild.builders.cxx.gxx.shared'),
         ({'icpc'}, 'fbuild.builders.cxx.intelxx.static',
                    'fbuild.builders.cxx.intelxx.shared'),
     ))
-- 
2.43.0


From 07ccf3c1f08780869263a1ff9898e70b468812b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:05 +0000
Subject: [PATCH 21/73] fix: return a list from Nm.object_dependencies

The result of a cached method was an iterator: it was empty when used a second
time and could not be stored.
---
 lib/fbuild/builders/nm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/nm.py b/lib/fbuild/builders/nm.py
index e7b911d..19684a6 100644
--- a/lib/fbuild/builders/nm.py
+++ b/lib/fbuild/builders/nm.py
@@ -45,7 +45,7 @@ class Nm(fbuild.db.PersistentObject):
         for obj in objs:
             f(obj)
 
-        return reversed(new_objs)
+        return list(reversed(new_objs))
 
     def _run(self, obj:fbuild.db.SRC):
         obj = fbuild.path.Path(obj)
-- 
2.43.0


From 8bad837eb112b330bc759720195f14792e711f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:05 +0000
Subject: [PATCH 22/73] fix: track the files of Llvm_as

Neither the source nor the output were declared, so llvm-as did not run again
after the source changed.
---
 lib/fbuild/builders/llvm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/llvm.py b/lib/fbuild/builders/llvm.py
index 446d286..7a2c5b9 100644
--- a/lib/fbuild/builders/llvm.py
+++ b/lib/fbuild/builders/llvm.py
@@ -170,7 +170,10 @@ class Llvm_as(fbuild.db.PersistentObject):
         self.flags = flags
 
     @fbuild.db.cachemethod
-    def __call__(self, src, dst=None, *, pre_flags=(), flags=(), **kwargs):
+    def __call__(self, src:fbuild.db.SRC, dst=None, *,
+            pre_flags=(),
+            flags=(),
+            **kwargs) -> fbuild.db.DST:
         dst = fbuild.path.Path(dst or src).replaceext('.bc')
 
         cmd = [self.exe]
-- 
2.43.0


From 382110cb1b418689457e5483e39e1728586af55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:11 +0000
Subject: [PATCH 23/73] fix: do not modify lists passed along with
 platform_options

Adding an option with '+' extended the caller's own list in place, so the
option leaked into every later call using the same list.
---
 lib/fbuild/builders/platform.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/fbuild/builders/platform.py b/lib/fbuild/builders/platform.py
index 41cff87..7941f97 100644
--- a/lib/fbuild/builders/platform.py
+++ b/lib/fbuild/builders/platform.py
@@ -1,3 +1,4 @@
+import copy
 import platform
 import os
 
@@ -242,6 +243,11 @@ def auto_platform_options(pass_platform=False):
                 ctx = args[0]
 
             if ctx is not None:
+                # parse_platform_options extends lists and sets in place, but
+                # these belong to the caller.
+                kw = {key: copy.copy(value) if isinstance(value, (list, set))
+                           else value for key, value in kw.items()}
+
                 parse_platform_options(ctx, kw.get('platform', None),
                                        kw.pop('platform_options', []), kw)
             if not pass_platform:
-- 
2.43.0


From 51548e731a88445463ca6f88e62af665d703182a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:28 +0000
Subject: [PATCH 24/73] fix: report an unknown compiler given to a Guesser

The error message used an undefined name, so a NameError was raised instead.
---
 lib/fbuild/builders/c/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/c/__init__.py b/lib/fbuild/builders/c/__init__.py
index 8e56724..eab7c4f 100644
--- a/lib/fbuild/builders/c/__init__.py
+++ b/lib/fbuild/builders/c/__init__.py
@@ -396,7 +396,7 @@ class Guesser:
         if exe is not None:
             tp = identify_compiler(ctx, exe)
             if tp is None:
-                raise fbuild.ConfigFailed('cannot identify exe given for %s' % name)
+                raise fbuild.ConfigFailed('cannot identify exe given for %s' % self.lang)
             # Grab only the compiler type pertaining to this guess call.
             platform |= tp & self.compilers
         else:
-- 
2.43.0


From 00276936f0afa2d27931ab070e51c59c023a0183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:28 +0000
Subject: [PATCH 25/73] fix: use defined names in the felix builder

build_objects and tempfile_run always failed with an AttributeError or NameError.
---
 lib/fbuild/builders/felix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/builders/felix.py b/lib/fbuild/builders/felix.py
index b694701..73c2555 100644
--- a/lib/fbuild/builders/felix.py
+++ b/lib/fbuild/builders/felix.py
@@ -148,7 +148,7 @@ class Felix(fbuild.builders.AbstractCompiler):
 
     @fbuild.builders.platform.auto_platform_options()
     def build_objects(self, srcs, **kwargs):
-        return fbuild.scheduler.map(partial(self.compile, **kwargs), srcs)
+        return self.ctx.scheduler.map(partial(self.compile, **kwargs), srcs)
 
     @fbuild.builders.platform.auto_platform_options()
     def run(self, src, *args, **kwargs):
@@ -160,5 +160,5 @@ class Felix(fbuild.builders.AbstractCompiler):
     @fbuild.builders.platform.auto_platform_options()
     def tempfile_run(self, code='', *, quieter=1, **kwargs):
         with self.tempfile(code) as src:
-            exe = self.uncached_compile(src, quieter=quieter, **ckwargs)
+            exe = self.uncached_compile(src, quieter=quieter, **kwargs)
             return self.run(exe, quieter=quieter, **kwargs)
-- 
2.43.0


From e127807ffebed22680ec0bf9c1f607f1edbbf93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:28 +0000
Subject: [PATCH 26/73] fix: use a defined name in OcamlfindBuilderMixin.where

---
 lib/fbuild/builders/ocaml/ocamlfind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/ocaml/ocamlfind.py b/lib/fbuild/builders/ocaml/ocamlfind.py
index 53464a3..1d9b62c 100644
--- a/lib/fbuild/builders/ocaml/ocamlfind.py
+++ b/lib/fbuild/builders/ocaml/ocamlfind.py
@@ -61,7 +61,7 @@ class OcamlfindBuilderMixin:
         stdout, stderr = self.ctx.execute(
             [self.exe, self.ocamlfind_cmd, '-where'],
             quieter=1)
-        return Path(stdout.decode().strip())
+        return fbuild.path.Path(stdout.decode().strip())
 
     def version(self):
         """Return the version of the ocaml executable."""
-- 
2.43.0


From e609b537bb0840ef0924bc4f40f76c47d9ce97c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:28 +0000
Subject: [PATCH 27/73] fix: use a defined name in Struct.__repr__

---
 lib/fbuild/config/c/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/config/c/__init__.py b/lib/fbuild/config/c/__init__.py
index 53de6a0..0861eb6 100644
--- a/lib/fbuild/config/c/__init__.py
+++ b/lib/fbuild/config/c/__init__.py
@@ -102,7 +102,7 @@ class Struct:
     def __repr__(self):
         return '%s(%s)' % (
             self.__class__.__name__,
-            ', ' + ', '.join(repr(m) for m in self.members) if members else '',
+            ', ' + ', '.join(repr(m) for m in self.members) if self.members else '',
         )
 
     def __eq__(self, other):
-- 
2.43.0


From 0f95e01da513bc92644ab9e7ddc4becaef21ca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:28 +0000
Subject: [PATCH 28/73] fix: use a defined name in the C++ struct_test

---
 lib/fbuild/config/cxx/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/config/cxx/__init__.py b/lib/fbuild/config/cxx/__init__.py
index 716ec94..e0760ae 100644
--- a/lib/fbuild/config/cxx/__init__.py
+++ b/lib/fbuild/config/cxx/__init__.py
@@ -18,7 +18,7 @@ class struct_test(c.struct_test):
         self.__name__ = key
         if self.name is None:
             self.name = key
-        cacheproperty(self).contribute_to_class(cls, key)
+        c.cacheproperty(self).contribute_to_class(cls, key)
 
 variable_test = c.variable_test
 
-- 
2.43.0


From 40df481c9499d57024a036376d9842852fa33927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:41 +0000
Subject: [PATCH 29/73] fix: use a defined name when compiling for bytecode and
 native code

Ocaml.compile and uncached_compile always failed with a NameError.
---
 lib/fbuild/builders/ocaml/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/builders/ocaml/__init__.py b/lib/fbuild/builders/ocaml/__init__.py
index 8f72bff..d83e775 100644
--- a/lib/fbuild/builders/ocaml/__init__.py
+++ b/lib/fbuild/builders/ocaml/__init__.py
@@ -933,16 +933,16 @@ class Ocaml(fbuild.builders.AbstractCompilerBuilder):
 
     # --------------------------------------------------------------------------
 
-    def _compile(self, bcompile, ncompile, *args, **kwargs):
+    def _compile(self, bcompile, ncompile, src, *args, **kwargs):
         """Actually compile the source using the bytecode and native
         compilers."""
-        bobj = bcompile(*args, **kwargs)
+        bobj = bcompile(src, *args, **kwargs)
 
         if src.endswith('.mli'):
             # We only need to generate the interface once.
             nobj = bobj
         else:
-            nobj = ncompile(*args, **kwargs)
+            nobj = ncompile(src, *args, **kwargs)
 
         return self.Tuple(bobj, nobj)
 
-- 
2.43.0


From c4d4b2b9961810898c35af7fc135fea5e4c02b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:12 +0000
Subject: [PATCH 30/73] fix: add generated dependencies to every running call

A generator given to add_external_dependencies_to_call was used up by the
innermost cached call, so the calls around it missed the dependencies.
---
 lib/fbuild/db/database.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index 98ea210..e125d84 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -326,6 +326,10 @@ class Database:
         a cached function and will error out if it is called from an
         uncached function."""
 
+        # These may be generators, but every running call needs them.
+        srcs = list(srcs)
+        dsts = list(dsts)
+
         # Hack in additional dependencies
         frame = fbuild.inspect.currentframe()
 
-- 
2.43.0


From aa4d64acb699368d3c0ab445c48a2ce007a2192a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:12 +0000
Subject: [PATCH 31/73] fix: use the profile_flags given to an Ocamlopt call

---
 lib/fbuild/builders/ocaml/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/ocaml/__init__.py b/lib/fbuild/builders/ocaml/__init__.py
index d83e775..585f4e8 100644
--- a/lib/fbuild/builders/ocaml/__init__.py
+++ b/lib/fbuild/builders/ocaml/__init__.py
@@ -765,7 +765,7 @@ class Ocamlopt(Builder):
             if profile_flags is None:
                 profile_flags = self.profile_flags
 
-            flags = tuple(chain(flags, self.profile_flags))
+            flags = tuple(chain(flags, profile_flags))
 
         return super()._run(*args, flags=flags, **kwargs)
 
-- 
2.43.0


From a785ae736acbd4ce91b6a7ce52d372e6c9677b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:12 +0000
Subject: [PATCH 32/73] fix: pack the objects given to build_pack

---
 lib/fbuild/builders/ocaml/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/builders/ocaml/__init__.py b/lib/fbuild/builders/ocaml/__init__.py
index 585f4e8..c658e53 100644
--- a/lib/fbuild/builders/ocaml/__init__.py
+++ b/lib/fbuild/builders/ocaml/__init__.py
@@ -539,10 +539,10 @@ class Builder(fbuild.builders.AbstractCompilerBuilder):
         for_pack = for_pack[0].upper() + for_pack[1:]
 
         objs = list(objs)
-        objs = self.build_objects(srcs,
+        objs.extend(self.build_objects(srcs,
             for_pack=for_pack,
             pre_flags=pre_flags,
-            **kwargs)
+            **kwargs))
 
         # We need to filter out any .cmi files.
         objs = [obj for obj in objs if not obj.endswith('.cmi')]
-- 
2.43.0


From b300cd9607ff99243efcceebbb8fe88c33ee3afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:12 +0000
Subject: [PATCH 33/73] fix: use the includes given to Flx

---
 lib/fbuild/builders/felix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/fbuild/builders/felix.py b/lib/fbuild/builders/felix.py
index 73c2555..8452785 100644
--- a/lib/fbuild/builders/felix.py
+++ b/lib/fbuild/builders/felix.py
@@ -47,6 +47,7 @@ class Flx(fbuild.db.PersistentObject):
         if stdout:
             cmd.append('--stdout='+stdout)
 
+        includes = set(chain(self.includes, includes))
         cmd.extend('-I' + i for i in sorted(includes) if Path(i).exists())
         cmd.extend(self.flags)
         cmd.extend(flags)
-- 
2.43.0


From 96c70022afffa5d2e020d5e53de8f8bed0f09b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:12 +0000
Subject: [PATCH 34/73] fix: use the ldlibs given to the msvc linker

---
 lib/fbuild/builders/c/msvc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/fbuild/builders/c/msvc.py b/lib/fbuild/builders/c/msvc.py
index e42f594..9ba4174 100644
--- a/lib/fbuild/builders/c/msvc.py
+++ b/lib/fbuild/builders/c/msvc.py
@@ -322,6 +322,7 @@ class Link(fbuild.db.PersistentObject):
 
         cmd.extend(srcs)
 
+        cmd.extend(self.ldlibs)
         cmd.extend(ldlibs)
 
         stdout, stderr = self.ctx.execute(cmd, str(self),
-- 
2.43.0


From d51313bb2496d773e5e2b2ea2deda28e1ae76442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:12 +0000
Subject: [PATCH 35/73] fix: use the flags given to Llc and Llvm_as

---
 lib/fbuild/builders/llvm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/fbuild/builders/llvm.py b/lib/fbuild/builders/llvm.py
index 7a2c5b9..a8c2af2 100644
--- a/lib/fbuild/builders/llvm.py
+++ b/lib/fbuild/builders/llvm.py
@@ -141,6 +141,7 @@ class Llc(fbuild.builders.AbstractCompiler):
         if filetype is not None:
             cmd.append('-filetype=' + filetype)
 
+        cmd.extend(self.flags)
         cmd.extend(flags)
         cmd.extend(args)
 
@@ -179,6 +180,7 @@ class Llvm_as(fbuild.db.PersistentObject):
         cmd = [self.exe]
         cmd.extend(pre_flags)
         cmd.extend(('-o', dst))
+        cmd.extend(self.flags)
         cmd.extend(flags)
         cmd.append(src)
 
-- 
2.43.0


From b54fbcbdf5ef472d9a24fbca8dfb11327792a034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:12 +0000
Subject: [PATCH 36/73] fix: compare all the attributes of persistent objects

An object that lacks an attribute of the other one was equal to it, so a call
with it could be answered with the result remembered for the other one.
---
 lib/fbuild/db/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/db/__init__.py b/lib/fbuild/db/__init__.py
index be56d8c..f19dc58 100644
--- a/lib/fbuild/db/__init__.py
+++ b/lib/fbuild/db/__init__.py
@@ -143,7 +143,7 @@ class PersistentObject(metaclass=PersistentMeta):
 
         # Step through the members and exit if they aren't equal.
         try:
-            for key in self.__dict__:
+            for key in self.__dict__.keys() | other.__dict__.keys():
                 if getattr(self, key) != getattr(other, key):
                     return False
         except AttributeError:
-- 
2.43.0


From 736a394443d1be0aef594f47008c26a593f681cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 37/73] fix: reject positional arguments given beyond the
 positional parameters

---
 lib/fbuild/functools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/functools.py b/lib/fbuild/functools.py
index e22d64a..72ba568 100644
--- a/lib/fbuild/functools.py
+++ b/lib/fbuild/functools.py
@@ -121,7 +121,7 @@ def normalize_args(function, args, kwargs):
     fn_totalargs = fn_argcount + fn_kwargcount
 
     # Error out if we specified too many arguments and we aren't taking varargs
-    if len(args) > fn_totalargs and not varargs:
+    if len(args) > fn_argcount and not varargs:
         raise TypeError(
             '%s.%s() takes %s %d %spositional argument%s (%d given)' % (
                 function.__module__,
-- 
2.43.0


From 133b587fd5a6877ad64ea0d00c6f42660e1e1c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:46 +0000
Subject: [PATCH 38/73] fix: record discovered destinations that do not exist
 in the sqlite backend

The other backends accept them, and the call runs again until they exist.
---
 lib/fbuild/db/sqlite_backend.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index 62e95a1..184458c 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -456,17 +456,16 @@ class SqliteBackend(fbuild.db.backend.Backend):
         # ----------------------------------------------------------------------
 
         if dsts:
-            # We don't need to save a list here because we're only using it
-            # once.
-            # XXX: There's a python bug where you can't pass a generator that
-            # itself inserts into sqlite, so we need to force the generator.
-            dst_call_files = [self.check_call_file(call_id, dst)
-                for dst in dsts]
-
+            # The call may not have created these files, so we can't look at
+            # them. All we need is their name.
             self.cursor.executemany(
-                'INSERT INTO ExternalDst (call_id,file_id) VALUES (?,?)',
-                ((call_id, file_id)
-                    for dirty, file_id, file_digest in dst_call_files))
+                'INSERT OR IGNORE INTO File (file_name) VALUES (?)',
+                [(dst,) for dst in dsts])
+
+            self.cursor.executemany('''
+                INSERT INTO ExternalDst (call_id,file_id)
+                SELECT ?,file_id FROM File WHERE file_name=?
+                ''', [(call_id, dst) for dst in dsts])
 
     # --------------------------------------------------------------------------
 
-- 
2.43.0


From 4e65a02d27790cdde9bd94bac9031d16dce89527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:27 +0000
Subject: [PATCH 39/73] fix: do not stamp state from another version as current
 before discarding it

---
 lib/fbuild/db/backend.py        | 8 +++++++-
 lib/fbuild/db/cache_backend.py  | 7 ++++++-
 lib/fbuild/db/sqlite_backend.py | 8 +++++++-
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index cbfae9a..03b3d53 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -29,7 +29,8 @@ class Backend:
         self._connect(*args, **kwargs)
         if self._file_name is not None and self.version() != self.latest_version():
             # Database cache spec has been updated in the mean time, so re-create it.
-            self.close()
+            # Closing it would save it as if it had the current version.
+            self._disconnect()
             self._file_name.remove()
             self._connect(*args, **kwargs)
 
@@ -38,6 +39,11 @@ class Backend:
         raise NotImplementedError
 
 
+    def _disconnect(self):
+        """Drop the connection to the database without saving anything."""
+        raise NotImplementedError
+
+
     def close(self, *args, **kwargs):
         """Close the connection to the database backend."""
         raise NotImplementedError
diff --git a/lib/fbuild/db/cache_backend.py b/lib/fbuild/db/cache_backend.py
index 06a3fbd..b061018 100644
--- a/lib/fbuild/db/cache_backend.py
+++ b/lib/fbuild/db/cache_backend.py
@@ -18,7 +18,7 @@ class CacheBackend(fbuild.db.backend.Backend):
         self._external_srcs = {}
         self._external_dsts = {}
 
-    def close(self):
+    def _disconnect(self):
         """Clear the database cache."""
 
         del self._functions
@@ -28,6 +28,11 @@ class CacheBackend(fbuild.db.backend.Backend):
         del self._external_srcs
         del self._external_dsts
 
+    def close(self):
+        """Clear the database cache."""
+
+        self._disconnect()
+
     # --------------------------------------------------------------------------
 
     def find_function(self, fun_name):
diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index 184458c..17882c4 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -53,6 +53,12 @@ class SqliteBackend(fbuild.db.backend.Backend):
         self._version = rows[0][0] if rows else self._NULL_VERSION
 
 
+    def _disconnect(self):
+        """Drop the connection to the database without saving anything."""
+
+        self.conn.close()
+
+
     def close(self):
         # Update the version.
 
@@ -64,7 +70,7 @@ class SqliteBackend(fbuild.db.backend.Backend):
                                 self._LATEST_VERSION)
         self.conn.commit()
 
-        self.conn.close()
+        self._disconnect()
 
 
     def _initialize_database(self):
-- 
2.43.0


From ceeb3c887f7f04ca0f5e18afa6348d2247e039fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:43 +0000
Subject: [PATCH 40/73] fix: do not take the end of an interrupted request for
 the end of a later one

---
 lib/fbuild/rpc.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/lib/fbuild/rpc.py b/lib/fbuild/rpc.py
index fbbedde..22bf043 100644
--- a/lib/fbuild/rpc.py
+++ b/lib/fbuild/rpc.py
@@ -32,7 +32,6 @@ class RPC(threading.Thread):
         self._handler = handler
         self._lock = threading.Lock()
         self._queue = queue.Queue()
-        self._events = threading.local()
         self._started = threading.Event()
         self._running = False
 
@@ -46,14 +45,10 @@ class RPC(threading.Thread):
             # Create an object to hold the result of the function call.
             result = _Result()
 
-            # Since we will block while waiting for our function to get called, we
-            # can cache our events per thread.
-            try:
-                event = self._events.event
-            except AttributeError:
-                event = self._events.event = threading.Event()
-            else:
-                event.clear()
+            # A thread that was interrupted while it waited for an earlier
+            # call must not take the end of that one for the end of this one,
+            # so every call has an event of its own.
+            event = threading.Event()
 
             msg = (event, result, args, kwargs)
             self._queue.put(msg)
-- 
2.43.0


From 99a61ebc6005dc8d8e51a1619f26ea14e3eaa6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:43 +0000
Subject: [PATCH 41/73] fix: return an exception a request produced as its
 value instead of raising it

---
 lib/fbuild/rpc.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/lib/fbuild/rpc.py b/lib/fbuild/rpc.py
index 22bf043..eba89ba 100644
--- a/lib/fbuild/rpc.py
+++ b/lib/fbuild/rpc.py
@@ -20,6 +20,7 @@ class _Result:
 
     def __init__(self):
         self.result = _NULL
+        self.error = None
 
 # ------------------------------------------------------------------------------
 
@@ -56,13 +57,13 @@ class RPC(threading.Thread):
         # Wait for the message to be processed.
         event.wait()
 
+        # Raise any exceptions we've received.
+        if result.error is not None:
+            raise result.error
+
         assert result.result is not _NULL, "function failed to get called!"
 
-        # Raise any exceptions we've received.
-        if isinstance(result.result, BaseException):
-            raise result.result
-        else:
-            return result.result
+        return result.result
 
     def start(self, *args, **kwargs):
         super().start(*args, **kwargs)
@@ -106,10 +107,10 @@ class RPC(threading.Thread):
         try:
             result.result = self._handler(*args, **kwargs)
         except Exception as err:
-            result.result = err
+            result.error = err
         except BaseException as err:
             # Let the client know that we had a fatal error.
-            result.result = err
+            result.error = err
             raise
         finally:
             # Let the client know that we finished.
-- 
2.43.0


From 30b6c049059b016107f96a5d8cce039e117c66ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:43 +0000
Subject: [PATCH 42/73] fix: answer the requests left over when the service
 thread ends

---
 lib/fbuild/rpc.py | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/lib/fbuild/rpc.py b/lib/fbuild/rpc.py
index eba89ba..e9f398e 100644
--- a/lib/fbuild/rpc.py
+++ b/lib/fbuild/rpc.py
@@ -79,17 +79,14 @@ class RPC(threading.Thread):
         try:
             while True:
                 msg = self._queue.get()
-                try:
-                    # If we received a null value, then we're supposed to shut
-                    # down.
-                    if msg is _NULL:
-                        sys.stdout.flush()
-                        break
 
-                    self._process(msg)
-                finally:
-                    # ... and let the queue know we finished.
-                    self._queue.task_done()
+                # If we received a null value, then we're supposed to shut
+                # down.
+                if msg is _NULL:
+                    sys.stdout.flush()
+                    break
+
+                self._process(msg)
         except KeyboardInterrupt:
             # let the main thread know we got a SIGINT
             import _thread
@@ -98,7 +95,20 @@ class RPC(threading.Thread):
         except BaseException as err:
             raise
         finally:
-            self._running = False
+            with self._lock:
+                self._running = False
+
+                # Nobody will process what is left in the queue.
+                while True:
+                    try:
+                        msg = self._queue.get_nowait()
+                    except queue.Empty:
+                        break
+
+                    if msg is not _NULL:
+                        event, result, args, kwargs = msg
+                        result.error = RPCNotRunning()
+                        event.set()
 
     def _process(self, msg):
         # Break up the message.
@@ -119,10 +129,12 @@ class RPC(threading.Thread):
     def join(self, *args, **kwargs):
         """Inform the thread to shut down."""
 
-        if self._running:
-            with self._lock:
+        with self._lock:
+            running = self._running
+            if running:
                 # Shut down the queue first.
                 self._queue.put(_NULL)
-                self._queue.join()
 
-                super().join(*args, **kwargs)
+        # Don't keep the lock, the thread needs it in order to end.
+        if running:
+            super().join(*args, **kwargs)
-- 
2.43.0


From cac7607f262ba791a6b7973831b85e074539c0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 43/73] fix: report everything a task raises to the caller
 instead of losing SystemExit and interrupts

---
 lib/fbuild/sched.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index 35718c7..ed8adeb 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -412,5 +412,11 @@ class Task:
 
         try:
             self.result = self.function(self.src)
-        except Exception as e:
+        except BaseException as e:
+            # Tell the caller about everything that was raised, it would take
+            # the task for a finished one otherwise.
             self.exc = e
+
+            # Only an interrupt ends the worker as well.
+            if isinstance(e, KeyboardInterrupt):
+                raise
-- 
2.43.0


From 096d259d68fb079863e3f34967c706a4fbef3be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 44/73] fix: do not release the scheduler's lock when another
 thread holds it

---
 lib/fbuild/sched.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index ed8adeb..0445c9f 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -88,8 +88,9 @@ class Scheduler:
             import fbuild.console
             logger = fbuild.console.Log()
 
-        # Set up the controlling lock.
-        self.__controlling_lock = threading.Lock()
+        # Set up the controlling lock. This needs to know which thread holds it
+        # so that interruptible doesn't release the lock of another thread.
+        self.__controlling_lock = threading.RLock()
 
         # Spin up our threads!
         for i in range(threadcount):
-- 
2.43.0


From 8c2817ff3f786368967d43c1e886892b018639cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 45/73] fix: do not hang in shutdown when a nested map took the
 wake up calls of other workers

---
 lib/fbuild/sched.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index 0445c9f..2109bba 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -306,12 +306,14 @@ class Scheduler:
     def shutdown(self):
         """Tell the worker threads to shut down."""
 
-        # make sure we wake the threads before we kill them.
+        # Tell all the threads to exit before we wake any of them.
+        for thread in self.__threads:
+            thread.shutdown()
+
         for thread in self.__threads:
             self.__ready_queue.put(None)
 
         for thread in self.__threads:
-            thread.shutdown()
             thread.join()
 
         # Reset our thread list.
@@ -350,6 +352,11 @@ class WorkerThread(threading.Thread):
             # let the main thread know we got a SIGINT
             _thread.interrupt_main()
             raise
+        finally:
+            # A thread that was running tasks recursively may have taken more
+            # than one of the wake up calls, so pass ours on.
+            if self.__finished:
+                self.__ready_queue.put(None)
 
     def read_task(self, *args, **kwargs):
         """
-- 
2.43.0


From c7d966c4ddcfb16fda29356a45c7c23d24c5ce51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 46/73] fix: stop the store service also when saving the state
 fails

---
 lib/fbuild/main.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/main.py b/lib/fbuild/main.py
index 3669c19..485fcd4 100644
--- a/lib/fbuild/main.py
+++ b/lib/fbuild/main.py
@@ -206,8 +206,10 @@ def main(argv=None):
             # Only delete the temporary directory if the build succeeded.
             ctx.clear_temp_dir()
         finally:
-            ctx.save_configuration()
-            ctx.db.shutdown()
+            try:
+                ctx.save_configuration()
+            finally:
+                ctx.db.shutdown()
     finally:
         ctx.scheduler.shutdown()
 
-- 
2.43.0


From 22573d6a51053fb599734614468108dbd5108795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 47/73] fix: do not change the mode of what an installed link
 points to

---
 lib/fbuild/install.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/install.py b/lib/fbuild/install.py
index be060ee..9238e13 100644
--- a/lib/fbuild/install.py
+++ b/lib/fbuild/install.py
@@ -27,8 +27,8 @@ class LocalCommander:
             os.symlink(file.readlink(), target)
         else:
             file.copy(target)
-        if perms is not None:
-            target.chmod(perms)
+            if perms is not None:
+                target.chmod(perms)
 
     def close(self): pass
 
-- 
2.43.0


From aad93a2318ea01372b0967495b9281526bbab943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:13 +0000
Subject: [PATCH 48/73] fix: keep installed files beneath the destination root

---
 lib/fbuild/context.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/context.py b/lib/fbuild/context.py
index 91b7615..4d44014 100644
--- a/lib/fbuild/context.py
+++ b/lib/fbuild/context.py
@@ -268,10 +268,9 @@ class Context:
         prefix = Path(self.install_prefix)
 
         if subdir.startswith('/'):
-            target_root = destdir / subdir[1:]
+            target_root = destdir / subdir.lstrip('/')
         else:
-            if prefix.startswith('/'):
-                prefix = prefix[1:]
+            prefix = prefix.lstrip('/')
             target_root = destdir / prefix / subdir
 
         # Generate the target path.
-- 
2.43.0


From 5f4788084849379ac31081cdbdf32cae8680b869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:29 +0000
Subject: [PATCH 49/73] fix: let worker threads log messages that are not
 strings

---
 lib/fbuild/console.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/console.py b/lib/fbuild/console.py
index e7c475d..dfaaf44 100644
--- a/lib/fbuild/console.py
+++ b/lib/fbuild/console.py
@@ -134,7 +134,7 @@ class Log:
         else:
             if buffer and self._thread_stack:
                 self._thread_stack[-1].append((msg, kwargs))
-                if msg.endswith('\n'):
+                if str(msg).endswith('\n'):
                     self.flush()
             else:
                 self._write(msg, **kwargs)
-- 
2.43.0


From 51cd20a3ba9e60becab6f7ade137e730df53659d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:29 +0000
Subject: [PATCH 50/73] fix: keep buffering a worker's messages after its first
 line and write the others under the lock

---
 lib/fbuild/console.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/console.py b/lib/fbuild/console.py
index dfaaf44..26f0154 100644
--- a/lib/fbuild/console.py
+++ b/lib/fbuild/console.py
@@ -126,6 +126,7 @@ class Log:
             yield
         finally:
             self.flush()
+            self._thread_stack.pop()
 
     def write(self, msg, *, buffer=True, **kwargs):
         if not buffer or self._threadcount == 1:
@@ -137,7 +138,8 @@ class Log:
                 if str(msg).endswith('\n'):
                     self.flush()
             else:
-                self._write(msg, **kwargs)
+                with self._lock:
+                    self._write(msg, **kwargs)
 
     def _write(self, msg, color=None, verbose=0):
         # make sure message is a string
@@ -153,7 +155,9 @@ class Log:
 
     def flush(self):
         if self._thread_stack:
-            msgs = self._thread_stack.pop()
+            # Leave a buffer in place, as the thread may not be done yet.
+            msgs = self._thread_stack[-1]
+            self._thread_stack[-1] = []
             with self._lock:
                 for msg, kwargs in msgs:
                     self._write(msg, **kwargs)
-- 
2.43.0


From be438266fd51f759dfa1488f615e6bb3cd5a1450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 51/73] fix: exclude what was asked for also from nested lists
 of patterns

---
 lib/fbuild/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/path.py b/lib/fbuild/path.py
index 31976fe..58c3365 100644
--- a/lib/fbuild/path.py
+++ b/lib/fbuild/path.py
@@ -528,7 +528,7 @@ class Path(str):
             if \
                     not isinstance(pattern, str) and \
                     isinstance(pattern, collections.Iterable):
-                paths = Path.igloball(*pattern)
+                paths = Path.igloball(*pattern, **kwargs)
             else:
                 paths = Path.glob(pattern, **kwargs)
 
-- 
2.43.0


From 8370b0876c61c5fb4d8f99c6f3b7e795a9e86110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 52/73] fix: return paths from Path.splitall, splitdrive and
 readlink

---
 lib/fbuild/path.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/path.py b/lib/fbuild/path.py
index 58c3365..ec2b2e0 100644
--- a/lib/fbuild/path.py
+++ b/lib/fbuild/path.py
@@ -416,7 +416,7 @@ class Path(str):
 
             if path == old_path:
                 if path:
-                    paths.append(path)
+                    paths.append(Path(path))
                 break
             else:
                 old_path = path
@@ -428,7 +428,7 @@ class Path(str):
         """Split a pathname into drive and path. On Posix, drive is always
         empty."""
         drive, tail = os.path.splitdrive(self)
-        return Path(drive), tail
+        return Path(drive), Path(tail)
 
     def splitext(self):
         """Split the extension from a pathname.
@@ -484,7 +484,7 @@ class Path(str):
         def mkfifo(self):   return os.mkfifo(self)
 
     if hasattr(os, 'readlink'):
-        def readlink(self): return os.readlink(self)
+        def readlink(self): return Path(os.readlink(self))
 
     if hasattr(os, 'statvfs'):
         def statvfs(self):  return os.statvfs(self)
-- 
2.43.0


From 0d01d54e221df86b87d726dcc1dd10ce66768d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:55 +0000
Subject: [PATCH 53/73] fix: do not modify the platform set given to a Guesser

---
 lib/fbuild/builders/c/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/builders/c/__init__.py b/lib/fbuild/builders/c/__init__.py
index eab7c4f..21ef8e2 100644
--- a/lib/fbuild/builders/c/__init__.py
+++ b/lib/fbuild/builders/c/__init__.py
@@ -398,10 +398,10 @@ class Guesser:
             if tp is None:
                 raise fbuild.ConfigFailed('cannot identify exe given for %s' % self.lang)
             # Grab only the compiler type pertaining to this guess call.
-            platform |= tp & self.compilers
+            platform = platform | (tp & self.compilers)
         else:
             # We're open to using all compilers.
-            platform |= self.compilers
+            platform = platform | self.compilers
 
         builders = {'static': static, 'shared': shared}
 
-- 
2.43.0


From f3d5b9922bc6825636d58b0d4904d852a2563043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:55 +0000
Subject: [PATCH 54/73] fix: do not extend the lists in platform_options

---
 lib/fbuild/builders/platform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/platform.py b/lib/fbuild/builders/platform.py
index 7941f97..2557c1c 100644
--- a/lib/fbuild/builders/platform.py
+++ b/lib/fbuild/builders/platform.py
@@ -221,7 +221,9 @@ def parse_platform_options(ctx, platform, platform_options, kwargs):
 
                     kwargs[key] = value
                 else:
-                    kwargs[key] = modifier
+                    # A later entry may extend it in place, but the list in
+                    # platform_options belongs to the caller.
+                    kwargs[key] = copy.copy(modifier)
 
 
 def auto_platform_options(pass_platform=False):
-- 
2.43.0


From a9daeb06733983472a36179e2e8552149a343a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 55/73] fix: let a platform option add to a set

---
 lib/fbuild/builders/platform.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/platform.py b/lib/fbuild/builders/platform.py
index 2557c1c..490436f 100644
--- a/lib/fbuild/builders/platform.py
+++ b/lib/fbuild/builders/platform.py
@@ -208,7 +208,11 @@ def parse_platform_options(ctx, platform, platform_options, kwargs):
                         value = type(modifier)()
 
                     if operation == '+':
-                        value += modifier
+                        # Sets support the operations, but not +.
+                        if isinstance(value, set):
+                            value |= modifier
+                        else:
+                            value += modifier
                     elif operation == '-':
                         filtered = (x for x in value if x not in modifier)
 
-- 
2.43.0


From 196d0e5b2751a061dfd1ba962d686592d0863955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 56/73] fix: let the avr builder find its archiver

---
 lib/fbuild/builders/c/gcc/avr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/c/gcc/avr.py b/lib/fbuild/builders/c/gcc/avr.py
index 1a0a576..ba5d613 100644
--- a/lib/fbuild/builders/c/gcc/avr.py
+++ b/lib/fbuild/builders/c/gcc/avr.py
@@ -32,7 +32,7 @@ def make_cc(ctx, exe=None, default_exes=['avr-gcc'], **kwargs):
 def static(*args, make_cc=make_cc, **kwargs):
     return fbuild.builders.c.gcc.static(*args,
         make_cc=make_cc,
-        make_lib_linker=fbuild.builders.ar.avr.Ar,
+        make_lib_linker=Ar,
         cross_compiler=True,
         **kwargs)
 
-- 
2.43.0


From e2760f83d50dcc7d293f1706f2dc3cd09eeb85be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 57/73] fix: make the directory a jar is written to

---
 lib/fbuild/builders/java.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/fbuild/builders/java.py b/lib/fbuild/builders/java.py
index 19700da..0000bcb 100644
--- a/lib/fbuild/builders/java.py
+++ b/lib/fbuild/builders/java.py
@@ -42,6 +42,7 @@ class Jar(fbuild.db.PersistentObject):
         buildroot = buildroot or self.ctx.buildroot
         cwd = cwd or buildroot
         dst = Path(dst).addroot(buildroot)
+        dst.parent.makedirs()
 
         # We need ot make sure jars have sources passed in
         assert srcs, "%s: no sources passed in" % dst
-- 
2.43.0


From d50aa0de2631dc8237d7ddf9128c72c4e6b67bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 58/73] fix: let llvm-as write under the build root

---
 lib/fbuild/builders/llvm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/fbuild/builders/llvm.py b/lib/fbuild/builders/llvm.py
index a8c2af2..9033799 100644
--- a/lib/fbuild/builders/llvm.py
+++ b/lib/fbuild/builders/llvm.py
@@ -176,6 +176,8 @@ class Llvm_as(fbuild.db.PersistentObject):
             flags=(),
             **kwargs) -> fbuild.db.DST:
         dst = fbuild.path.Path(dst or src).replaceext('.bc')
+        dst = dst.addroot(self.ctx.buildroot)
+        dst.parent.makedirs()
 
         cmd = [self.exe]
         cmd.extend(pre_flags)
-- 
2.43.0


From ca6fa5d0f4086b4f96fd33dcd21ad57d8f7a0856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 59/73] fix: build a packed object under the build root asked
 for

---
 lib/fbuild/builders/ocaml/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/fbuild/builders/ocaml/__init__.py b/lib/fbuild/builders/ocaml/__init__.py
index c658e53..0267439 100644
--- a/lib/fbuild/builders/ocaml/__init__.py
+++ b/lib/fbuild/builders/ocaml/__init__.py
@@ -542,6 +542,7 @@ class Builder(fbuild.builders.AbstractCompilerBuilder):
         objs.extend(self.build_objects(srcs,
             for_pack=for_pack,
             pre_flags=pre_flags,
+            buildroot=buildroot,
             **kwargs))
 
         # We need to filter out any .cmi files.
@@ -553,6 +554,7 @@ class Builder(fbuild.builders.AbstractCompilerBuilder):
         dst = self._run(dst, objs,
             color='link',
             pre_flags=pre_flags,
+            buildroot=buildroot,
             **kwargs)
 
         self.ctx.db.add_external_dependencies_to_call(
-- 
2.43.0


From 938466f410223c9a72a7503d4ee6edd8dac3a202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 60/73] fix: return the jar a scala script is compiled to

---
 lib/fbuild/builders/scala.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/scala.py b/lib/fbuild/builders/scala.py
index 2746732..6c252f5 100644
--- a/lib/fbuild/builders/scala.py
+++ b/lib/fbuild/builders/scala.py
@@ -41,7 +41,7 @@ class Scala(AbstractCompiler):
         src = Path(src)
         buildroot = buildroot or self.ctx.buildroot
         src_buildroot = src.addroot(buildroot)
-        dst = src.replaceext('.jar')
+        dst = src_buildroot.replaceext('.jar')
 
         # We need to copy the src into the buildroot so we don't pollute our
         # tree.
-- 
2.43.0


From 1aaf167316aac190f4c087e6d1b050d4b2fb59e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 61/73] fix: tell the java compilers the build root asked for

---
 lib/fbuild/builders/java.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/fbuild/builders/java.py b/lib/fbuild/builders/java.py
index 0000bcb..0b627a1 100644
--- a/lib/fbuild/builders/java.py
+++ b/lib/fbuild/builders/java.py
@@ -255,6 +255,7 @@ class AbstractBuilder(fbuild.builders.AbstractLibLinker):
                 flags=list(chain(('-verbose',), flags)),
                 quieter=quieter,
                 stderr_quieter=1 if stderr_quieter == 0 else stderr_quieter,
+                buildroot=buildroot,
                 **kwargs)
         except fbuild.ExecutionError as e:
             if quieter == 0 and stderr_quieter == 0:
-- 
2.43.0


From 0d887c8c39068f492d4329dae0cc3b099a598461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 62/73] fix: understand headers with blanks in their names

---
 lib/fbuild/builders/c/gcc/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/builders/c/gcc/__init__.py b/lib/fbuild/builders/c/gcc/__init__.py
index 5638aab..53f654f 100644
--- a/lib/fbuild/builders/c/gcc/__init__.py
+++ b/lib/fbuild/builders/c/gcc/__init__.py
@@ -452,13 +452,15 @@ class Builder(fbuild.builders.c.Builder):
                 stdout = f.read().replace(b'\\\n', b'')
 
         # Parse the output and return the module dependencies.
-        m = re.match(b'\s*\S+:(?: (.*))?$', stdout)
+        m = re.match(br'\s*(?:\\ |\S)+:(?: (.*))?$', stdout)
         if not m:
             raise fbuild.ExecutionError('unable to understand %r' % stdout)
 
         s = m.group(1)
         if s is not None:
-            deps = s.decode().split()
+            # The blanks in a filename are escaped.
+            deps = [dep.replace('\\ ', ' ')
+                for dep in re.findall(r'(?:\\ |\S)+', s.decode())]
             self.ctx.db.add_external_dependencies_to_call(srcs=deps)
 
         return obj
-- 
2.43.0


From 194c00d2e5307770f7970c7d5fb5dd889d186b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 63/73] fix: link again when a library of a library changed

---
 lib/fbuild/builders/c/__init__.py | 38 +++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/lib/fbuild/builders/c/__init__.py b/lib/fbuild/builders/c/__init__.py
index 21ef8e2..e2bf43c 100644
--- a/lib/fbuild/builders/c/__init__.py
+++ b/lib/fbuild/builders/c/__init__.py
@@ -122,6 +122,44 @@ class Builder(fbuild.builders.AbstractCompilerBuilder):
 
     # --------------------------------------------------------------------------
 
+    @fbuild.db.cachemethod
+    @fbuild.builders.platform.auto_platform_options()
+    def link_lib(self, dst, srcs:fbuild.db.SRCS, *args,
+            libs:fbuild.db.SRCS=(),
+            **kwargs) -> fbuild.db.DST:
+        """Link compiled files into a library and caches the results."""
+        self._add_link_dependencies(libs)
+        return self.uncached_link_lib(dst, srcs, *args, libs=libs, **kwargs)
+
+    @fbuild.db.cachemethod
+    @fbuild.builders.platform.auto_platform_options()
+    def link_exe(self, dst, srcs:fbuild.db.SRCS, *args,
+            libs:fbuild.db.SRCS=(),
+            **kwargs) -> fbuild.db.DST:
+        """Link compiled files into an executable."""
+        self._add_link_dependencies(libs)
+        return self.uncached_link_exe(dst, srcs, *args, libs=libs, **kwargs)
+
+    def _add_link_dependencies(self, libs):
+        # The libraries pull in the libraries they were linked with, so those
+        # are read as well.
+        deps = set()
+        def f(lib):
+            if isinstance(lib, Library):
+                for l in lib.libs:
+                    if l not in deps:
+                        deps.add(l)
+                        f(l)
+
+        for lib in libs:
+            f(lib)
+
+        # This function must be called by a cached function.
+        if deps:
+            self.ctx.db.add_external_dependencies_to_call(srcs=deps)
+
+    # --------------------------------------------------------------------------
+
     @fbuild.builders.platform.auto_platform_options()
     def build_lib(self, dst, srcs, *args, **kwargs):
         """Compile all of the passed in L{srcs} in parallel, then link them
-- 
2.43.0


From 2a3e91e20f8844ba870dbecb26f94784e541a720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 64/73] fix: ask llvm-config for the object root

---
 lib/fbuild/builders/llvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/llvm.py b/lib/fbuild/builders/llvm.py
index 9033799..916a5ef 100644
--- a/lib/fbuild/builders/llvm.py
+++ b/lib/fbuild/builders/llvm.py
@@ -40,7 +40,7 @@ class LlvmConfig(fbuild.db.PersistentObject):
 
     def obj_root(self, *args, **kwargs):
         """Return the object root used to build LLVM."""
-        return fbuild.path.Path(self(('--src-root',), *args, **kwargs))
+        return fbuild.path.Path(self(('--obj-root',), *args, **kwargs))
 
     def bindir(self, *args, **kwargs):
         """Return the directory containing the LLVM executables."""
-- 
2.43.0


From f989a25ee67655c45d82826b56182b6c36f824fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 65/73] fix: run flx in the directory asked for

---
 lib/fbuild/builders/felix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/felix.py b/lib/fbuild/builders/felix.py
index 8452785..0f59744 100644
--- a/lib/fbuild/builders/felix.py
+++ b/lib/fbuild/builders/felix.py
@@ -53,7 +53,7 @@ class Flx(fbuild.db.PersistentObject):
         cmd.extend(flags)
         cmd.append(src)
 
-        return self.ctx.execute(cmd, *args, **kwargs)
+        return self.ctx.execute(cmd, *args, cwd=cwd, **kwargs)
 
     def check_flags(self, flags=[]):
         if flags:
-- 
2.43.0


From b574a38ec2f077b7917a12b310fb1458cdf456f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 66/73] fix: use the archiver given to the gcc builder

---
 lib/fbuild/builders/c/gcc/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/c/gcc/__init__.py b/lib/fbuild/builders/c/gcc/__init__.py
index 53f654f..3e0e740 100644
--- a/lib/fbuild/builders/c/gcc/__init__.py
+++ b/lib/fbuild/builders/c/gcc/__init__.py
@@ -528,6 +528,9 @@ def static(ctx, exe=None, *args,
     lib_prefix = lib_prefix or 'lib'
     lib_suffix = lib_suffix or '.a'
 
+    # Allow the user to overload the archiver.
+    lib_linker_args = () if ar is None else (ar,)
+
     if exe_suffix is None:
         exe_suffix = fbuild.builders.platform.exe_suffix(ctx, platform)
 
@@ -535,7 +538,7 @@ def static(ctx, exe=None, *args,
         compiler=make_compiler(ctx, cc,
             flags=list(chain(flags, compile_flags)),
             suffix=obj_suffix),
-        lib_linker=make_lib_linker(ctx,
+        lib_linker=make_lib_linker(ctx, *lib_linker_args,
             libs=libs,
             libpaths=libpaths,
             prefix=lib_prefix,
-- 
2.43.0


From 629b017d7e594b8d8d2f99e41123fe175ef6d3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 67/73] fix: use the compiler given to the msvc builders

---
 lib/fbuild/builders/c/msvc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/builders/c/msvc.py b/lib/fbuild/builders/c/msvc.py
index 9ba4174..dcb77ef 100644
--- a/lib/fbuild/builders/c/msvc.py
+++ b/lib/fbuild/builders/c/msvc.py
@@ -529,7 +529,7 @@ def static(ctx, exe=None, *args,
         exe_suffix = fbuild.builders.platform.exe_suffix(ctx, platform)
 
     return Builder(ctx,
-        compiler=Compiler(ctx, Cl(ctx, **kwargs),
+        compiler=Compiler(ctx, Cl(ctx, exe or 'cl', **kwargs),
             flags=list(chain(flags, compile_flags)),
             suffix=obj_suffix),
         lib_linker=Lib(ctx,
@@ -580,7 +580,7 @@ def shared(ctx, exe=None, *args,
         exe_suffix = fbuild.builders.platform.exe_suffix(ctx, platform)
 
     return Builder(ctx,
-        compiler=Compiler(ctx, Cl(ctx, **kwargs),
+        compiler=Compiler(ctx, Cl(ctx, exe or 'cl', **kwargs),
             flags=list(chain(flags, compile_flags)),
             suffix=obj_suffix),
         lib_linker=DllLink(ctx,
-- 
2.43.0


From ee4a9561095c336462476f86fbc0433b067bf331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 68/73] fix: name libraries of the msvc builder as asked for

---
 lib/fbuild/builders/c/msvc.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/fbuild/builders/c/msvc.py b/lib/fbuild/builders/c/msvc.py
index dcb77ef..f754386 100644
--- a/lib/fbuild/builders/c/msvc.py
+++ b/lib/fbuild/builders/c/msvc.py
@@ -176,8 +176,8 @@ class Lib(fbuild.db.PersistentObject):
         super().__init__(ctx)
 
         self.exe = fbuild.builders.find_program(ctx, [exe])
-        self.prefix = '' # XXX: This probably should't even be here!
-        self.suffix = '.lib'
+        self.prefix = prefix or ''
+        self.suffix = suffix or '.lib'
         self.pre_flags = pre_flags
         self.flags = flags
         self.libpaths = libpaths
@@ -522,8 +522,11 @@ def static(ctx, exe=None, *args,
     if obj_suffix is None:
         obj_suffix = fbuild.builders.platform.static_obj_suffix(ctx, platform)
 
-    lib_prefix = ''
-    lib_suffix = '.lib'
+    if lib_prefix is None:
+        lib_prefix = ''
+
+    if lib_suffix is None:
+        lib_suffix = '.lib'
 
     if exe_suffix is None:
         exe_suffix = fbuild.builders.platform.exe_suffix(ctx, platform)
-- 
2.43.0


From fc92a27a5d18607ceee40cf3b89ac85bbb13f8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:45 +0000
Subject: [PATCH 69/73] fix: let the java builders name their sources

---
 lib/fbuild/builders/java.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/java.py b/lib/fbuild/builders/java.py
index 0b627a1..0261509 100644
--- a/lib/fbuild/builders/java.py
+++ b/lib/fbuild/builders/java.py
@@ -228,7 +228,7 @@ class Javac(AbstractCompiler):
 
 class AbstractBuilder(fbuild.builders.AbstractLibLinker):
     def __init__(self, ctx, *, jar='jar', java='java', **kwargs):
-        super().__init__(ctx, src_suffix='.class')
+        super().__init__(ctx, **kwargs)
 
         self.jar = fbuild.builders.java.Jar(ctx, jar)
         self.java = fbuild.builders.java.Java(ctx, java)
-- 
2.43.0


From 6d078010e4e7fa23c82c5a753ef9bbbe7c4ef655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:50 +0000
Subject: [PATCH 70/73] fix: compare the arguments of C functions, not the size
 they do not have

---
 lib/fbuild/config/c/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/config/c/__init__.py b/lib/fbuild/config/c/__init__.py
index 0861eb6..27aaae7 100644
--- a/lib/fbuild/config/c/__init__.py
+++ b/lib/fbuild/config/c/__init__.py
@@ -25,7 +25,7 @@ class Function:
         return \
             type(self) is type(other) and \
             self.return_type == other.return_type and \
-            self.args == other.size
+            self.args == other.args
 
     def __hash__(self):
         return hash((self.__class__, self.return_type, self.args))
-- 
2.43.0


From ff8323005f50b9461ba3fc8e6ce1d43578a93681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:10 +0000
Subject: [PATCH 71/73] fix: tests of different headers no longer compare equal

---
 lib/fbuild/config/c/__init__.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/lib/fbuild/config/c/__init__.py b/lib/fbuild/config/c/__init__.py
index 27aaae7..8fa0aad 100644
--- a/lib/fbuild/config/c/__init__.py
+++ b/lib/fbuild/config/c/__init__.py
@@ -627,10 +627,6 @@ class Test(fbuild.config.Test, metaclass=TestMeta):
                     yield field.method.name, f
 
     def __eq__(self, other):
-        return super().__eq__(other) and \
-            self.builder == other.builder and \
-            self.platform == other.platform and \
-            self.flags == other.flags and \
-            self.libpaths == other.libpaths and \
-            self.libs == other.libs and \
-            self.external_libs == other.external_libs
+        # object.__eq__ answers NotImplemented for another test, which counts as
+        # true: tests of different headers would share their results.
+        return type(self) is type(other) and self.__dict__ == other.__dict__
-- 
2.43.0


From 23221154f7eaf816a6dfcdf145dc57c2a52baa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:07 +0000
Subject: [PATCH 72/73] fix: probe for ext/hash_set under its own name

The class ext_hash_set tested for a header that does not exist, so it was
never found.
---
 lib/fbuild/config/cxx/gnu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/config/cxx/gnu.py b/lib/fbuild/config/cxx/gnu.py
index 893e188..2c838d9 100644
--- a/lib/fbuild/config/cxx/gnu.py
+++ b/lib/fbuild/config/cxx/gnu.py
@@ -33,7 +33,7 @@ class ext_hash_set(cxx.Test):
     hash_set = cxx.template_test(test_types=['int', 'int'])
 
 class gcc_cxx_hash_set(cxx.Test):
-    header = cxx.header_test('ext/hash_test')
+    header = cxx.header_test('ext/hash_set')
     namespace = '__gnu_cxx'
 
     hash_set = cxx.template_test(test_types=['int', 'int'])
-- 
2.43.0


From be354daf53366730c3cc32f6415e7cfcf027ae34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:07 +0000
Subject: [PATCH 73/73] fix: check_types_exist takes no type name apart

The name of a type with two characters, such as a user's 'td', was taken for a
pair of a name and a statement.
---
 lib/fbuild/builders/c/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/builders/c/__init__.py b/lib/fbuild/builders/c/__init__.py
index e2bf43c..82b20c6 100644
--- a/lib/fbuild/builders/c/__init__.py
+++ b/lib/fbuild/builders/c/__init__.py
@@ -281,10 +281,10 @@ class Builder(fbuild.builders.AbstractCompilerBuilder):
     def check_types_exist(self, *types, **kwargs):
         items = []
         for name in types:
-            try:
+            if isinstance(name, str):
+                statement = '%s t;' % name
+            else:
                 name, statement = name
-            except ValueError:
-                name, statement = name, '%s t;' % name
             items.append((name, statement))
 
         return self.check_statements(*items,
-- 
2.43.0

