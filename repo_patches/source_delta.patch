From 6789f2bc7926a1f3d57b1517299351afb31d8900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 01/29] fix: keep kernel-level coverage of shared locks
 overlapping a released one

fcntl() locks belong to the process: unlocking (or closing) one stream also
released the bytes locked, in shared mode, by other streams of the process.
---
 src/rsfile/rsfile_registries.py | 22 ++++++++++++++++++++++
 src/rsfile/rsfileio_abstract.py | 13 +++++++++----
 src/rsfile/rsfileio_unix.py     | 19 ++++++++++++++++---
 3 files changed, 47 insertions(+), 7 deletions(-)

diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index 890687a..a8cac5b 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -224,6 +224,28 @@ class IntraProcessLockRegistryClass(object):
 
             return removed_locks
 
+    def get_unlocked_ranges(self, unique_id, start, end):
+        """
+        Returns the parts of area [start, end[ which are not covered by any registered lock, as a list of
+        (start, end) tuples, where end=None means 'infinity'.
+        """
+        assert unique_id, unique_id
+        with self.mutex:
+
+            self._check_forking()
+
+            ranges = [(start, end)]
+            if self._ensure_entry_exists(unique_id, create=False):
+                for (_handle, _shared, lock_start, lock_end) in self._lock_registry[unique_id][1]:
+                    remaining_ranges = []
+                    for (start, end) in ranges:
+                        if start < lock_start:  # there is something left before this lock
+                            remaining_ranges.append((start, lock_start if end is None else min(end, lock_start)))
+                        if lock_end is not None and (end is None or lock_end < end):  # ...or after it
+                            remaining_ranges.append((max(start, lock_end), end))
+                    ranges = remaining_ranges
+            return ranges
+
     def try_deleting_unique_id_entry(self, unique_id):
         """
         Returns True iff an entry existed and could be deleted.
diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index dab493f..5b928fd 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -630,10 +630,12 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
 
             finally:
                 if not success:
-                    res = IntraProcessLockRegistry.unregister_file_lock(
-                        self._lock_registry_inode, self._lock_registry_descriptor, length, abs_offset
-                    )
-                    assert res in (True, False)  # there may or may not be locks left after that, we dunno
+                    with IntraProcessLockRegistry.mutex:
+                        res = IntraProcessLockRegistry.unregister_file_lock(
+                            self._lock_registry_inode, self._lock_registry_descriptor, length, abs_offset
+                        )
+                        assert res in (True, False)  # there may or may not be locks left after that, we dunno
+                        self._inner_file_lock_cancel(length, abs_offset)
 
         return self._lock_remover(length, abs_offset, os.SEEK_SET)
 
@@ -722,6 +724,9 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
     def _inner_file_lock(self, length, abs_offset, blocking, shared):
         self._unsupported("file_lock")
 
+    def _inner_file_lock_cancel(self, length, abs_offset):
+        pass  # called when a lock attempt has failed
+
     def _inner_file_unlock(self, length, abs_offset):
         self._unsupported("file_unlock")
 
diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index 7e2f987..ccbc26d 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -294,10 +294,23 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
     @_unix_error_converter
     def _inner_file_unlock(self, length, abs_offset):
 
-        if length is None:
-            length = 0  # that's the "infinity" value for fcntl
+        abs_end = (abs_offset + length) if length else None  # None -> infinity
 
         try:
-            unix.lockf(self._fileno, unix.LOCK_UN, length, abs_offset, os.SEEK_SET)
+            with IntraProcessLockRegistry.mutex:
+                # fcntl() locks belong to the whole process, so we must preserve the areas which
+                # are also locked (in shared mode, necessarily) by other streams of this process
+                for (start, end) in IntraProcessLockRegistry.get_unlocked_ranges(
+                    self._lock_registry_inode, abs_offset, abs_end
+                ):
+                    # zero is the "infinity" value for fcntl
+                    unix.lockf(self._fileno, unix.LOCK_UN, 0 if end is None else (end - start), start, os.SEEK_SET)
         finally:
             self._purge_pending_related_file_descriptors()
+
+    def _inner_file_lock_cancel(self, length, abs_offset):
+        # while our attempt was registered, other streams might have left to us some kernel-level locks
+        try:
+            self._inner_file_unlock(length, abs_offset)
+        except EnvironmentError:
+            pass  # the lock was not ours anyway
-- 
2.43.0


From f48eaafb0a9dd49e979aee4d8096f5f375298478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 02/29] fix: wake up the threads waiting for a lock when its
 stream gets closed

Only unlock_file() notified them, so they could wait forever.
---
 src/rsfile/rsfile_registries.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index a8cac5b..fb6c9c5 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -221,6 +221,8 @@ class IntraProcessLockRegistryClass(object):
                     remaining_locks.append(record)
 
             self._lock_registry[unique_id][1] = remaining_locks
+            if removed_locks:
+                self._lock_registry[unique_id][0].notify_all()  # we awake potential waiters - ALL of them
 
             return removed_locks
 
-- 
2.43.0


From bee156f726306cab6794cda0f5e65c974eb301e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 03/29] fix: close native descriptors even when unlocking or
 closing another one fails

A failure to release a lock, or to close a pending descriptor, leaked the others.
---
 src/rsfile/rsfileio_abstract.py | 23 ++++++++++++-----------
 src/rsfile/rsfileio_unix.py     | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 5b928fd..9e8674d 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -214,17 +214,18 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
 
                 with IntraProcessLockRegistry.mutex:
 
-                    # We are careful, in case object initialization failed
-                    if hasattr(self, "_lock_registry_inode") and hasattr(self, "_lock_registry_descriptor"):
-                        for (handle, shared, start, end) in IntraProcessLockRegistry.remove_file_locks(
-                            self._lock_registry_inode, self._lock_registry_descriptor
-                        ):
-                            # print (">>>>>>>> ", (handle, shared, start, end))
-                            length = None if end is None else (end - start)
-                            self._inner_file_unlock(length, start)
-
-                    # Mark the raw stream as closed, even if some operations failed
-                    self._inner_close_streams()  # Might raise OverflowError
+                    try:
+                        # We are careful, in case object initialization failed
+                        if hasattr(self, "_lock_registry_inode") and hasattr(self, "_lock_registry_descriptor"):
+                            for (handle, shared, start, end) in IntraProcessLockRegistry.remove_file_locks(
+                                self._lock_registry_inode, self._lock_registry_descriptor
+                            ):
+                                # print (">>>>>>>> ", (handle, shared, start, end))
+                                length = None if end is None else (end - start)
+                                self._inner_file_unlock(length, start)
+                    finally:
+                        # Mark the raw stream as closed, even if some operations failed
+                        self._inner_close_streams()  # Might raise OverflowError
 
     '''
     def __del__(self):
diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index ccbc26d..9c49868 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -53,9 +53,15 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             res = IntraProcessLockRegistry.unique_id_has_locks(self._lock_registry_inode)
             if not res:  # no more locks left for that unique_id
                 data_list = IntraProcessLockRegistry.remove_unique_id_data(self._lock_registry_inode)
+                error = None
                 for fd in data_list:  # we close all pending file descriptors (which were left opened to prevent
                     # fcntl() lock autoremoving)
-                    unix.close(fd)
+                    try:
+                        unix.close(fd)
+                    except unix.error as e:
+                        error = e  # we still have to close the others
+                if error is not None:
+                    raise error
 
             return not res
 
@@ -148,9 +154,11 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
                 with IntraProcessLockRegistry.mutex:
                     # safety mechanisms for fcntl() and its Unlock-All-On-Single-Close semantic
                     IntraProcessLockRegistry.add_unique_id_data(self._lock_registry_inode, self._lock_registry_descriptor)
-                    self._purge_pending_related_file_descriptors()
-                    # we assume that there are chances for this to be the only handle pointing this precise file
-                    IntraProcessLockRegistry.try_deleting_unique_id_entry(self._lock_registry_inode)
+                    try:
+                        self._purge_pending_related_file_descriptors()
+                    finally:
+                        # we assume that there are chances for this to be the only handle pointing this precise file
+                        IntraProcessLockRegistry.try_deleting_unique_id_entry(self._lock_registry_inode)
 
     @_unix_error_converter
     def _inner_reduce(self, size):
-- 
2.43.0


From a28bee6975addfb63bb7b06afc35daeaf2bfdf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:46 +0000
Subject: [PATCH 04/29] fix: don't leak the native stream when the
 initialization of a raw stream fails

Opening a directory, notably, leaked a file descriptor.
---
 src/rsfile/rsfileio_abstract.py | 29 +++++++++++++++++++----------
 src/rsfile/rsfileio_unix.py     |  2 ++
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 9e8674d..06c1612 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -184,16 +184,25 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
             assert self._lock_registry_inode is not None, self._lock_registry_inode
             assert self._lock_registry_descriptor is not None, self._lock_registry_descriptor
 
-        except OverflowError as e:
-            raise defs.BadValueTypeError(e)  # probably a too big filedescriptor number
-
-        if append:
-            try:
-                self.seek(0, os.SEEK_END)  # required by unit tests, might raise if non-seekable file...
-            except OSError as exc:
-                if exc.errno != errno.ESPIPE:
-                    raise
-                # Else it's an Illegal Seek, probably because of a Pipe stream, so we let go
+            if append:
+                try:
+                    self.seek(0, os.SEEK_END)  # required by unit tests, might raise if non-seekable file...
+                except OSError as exc:
+                    if exc.errno != errno.ESPIPE:
+                        raise
+                    # Else it's an Illegal Seek, probably because of a Pipe stream, so we let go
+
+        except BaseException as e:
+            if self._origin == "path":
+                try:
+                    self.close()  # we don't leak the native stream which was just opened
+                except EnvironmentError:
+                    pass
+            else:
+                self._closefd = False  # native streams to be wrapped are left to the caller
+            if isinstance(e, OverflowError):
+                raise defs.BadValueTypeError(e)  # probably a too big filedescriptor number
+            raise
 
     def __repr__(self):
         return "<%s name=%r mode='%s' origin='%s' closefd=%s>" % (
diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index 9c49868..65d7301 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -159,6 +159,8 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
                     finally:
                         # we assume that there are chances for this to be the only handle pointing this precise file
                         IntraProcessLockRegistry.try_deleting_unique_id_entry(self._lock_registry_inode)
+            elif getattr(self, "_fileno", None) is not None:
+                unix.close(self._fileno)  # object initialization failed, so no lock could be taken through it
 
     @_unix_error_converter
     def _inner_reduce(self, size):
-- 
2.43.0


From fc0327f279a8ab74c601878e68ca1711eb94e1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:46 +0000
Subject: [PATCH 05/29] fix: don't leak the descriptor returned by the opener
 when rsopen() fails

The opener was called before the validation of some arguments. Also stop considering
descriptor 0 as a missing one there.
---
 src/rsfile/rsfile_factories.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index f058fa4..1a7a1f4 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -237,20 +237,13 @@ def rsopen(
     is_interprocess = raw_kwargs["inheritable"] and hasattr(os, "fork")
     thread_safe_interface = functools.partial(RSThreadSafeWrapper, mutex=mutex, is_interprocess=is_interprocess)
 
-    if opener:
-        if raw_kwargs["fileno"]:
-            raise defs.BadValueTypeError("can't provide both fileno and opener")
-        raw_kwargs["fileno"] = opener(
-            name, mode
-        )  # we give it the original "name" as parameter, not the normalized path
-        if int(raw_kwargs["fileno"]) < 0:  # easrly catch, just to please the test suite...
-            raise defs.BadValueTypeError("opener returned %s" % raw_kwargs["fileno"])
-        raw_kwargs["path"] = None  # irrelevant in this case
+    if opener and raw_kwargs["fileno"] is not None:
+        raise defs.BadValueTypeError("can't provide both fileno and opener")
 
     if extended_kwargs["truncate"]:
         if not (raw_kwargs["write"] or raw_kwargs["append"]):
             raise defs.BadValueTypeError("can't truncate a non-writable file")
-        if raw_kwargs["fileno"] or raw_kwargs["handle"]:
+        if opener or raw_kwargs["fileno"] is not None or raw_kwargs["handle"] is not None:
             # IMPORTANT: when wrapping an existing stream, we dont NOT truncate it, to respect with the stdlib behaviour
             extended_kwargs["truncate"] = False
 
@@ -273,7 +266,20 @@ def rsopen(
 
     raw_kwargs["permissions"] = permissions
     # print("We get RSFileIO", RSFileIO)
-    raw = RSFileIO(**raw_kwargs)
+    if opener:
+        # called only now, so that its file descriptor can't be leaked by the checks above
+        raw_kwargs["fileno"] = opener(
+            name, mode
+        )  # we give it the original "name" as parameter, not the normalized path
+        if int(raw_kwargs["fileno"]) < 0:  # easrly catch, just to please the test suite...
+            raise defs.BadValueTypeError("opener returned %s" % raw_kwargs["fileno"])
+        raw_kwargs["path"] = None  # irrelevant in this case
+    try:
+        raw = RSFileIO(**raw_kwargs)
+    except:
+        if opener:
+            os.close(raw_kwargs["fileno"])  # we are its only owner
+        raise
     result = raw
     try:
 
@@ -298,7 +304,7 @@ def rsopen(
             buffering = defs.DEFAULT_BUFFER_SIZE
             # do not trigger the libc compatibility layer on windows,
             # since anyway it seems to have no st_blksize...
-            if raw._fileno:
+            if raw._fileno is not None:
                 try:
                     bs = os.fstat(raw._fileno).st_blksize
                 except (os.error, AttributeError):
-- 
2.43.0


From 56f8b6d82dd0713fdb0070547d06575f6787b214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:46 +0000
Subject: [PATCH 06/29] fix: support the wrapping of file descriptor 0

It was considered as a missing one by several checks, eg. in close().
---
 src/rsfile/rsfile_registries.py | 2 +-
 src/rsfile/rsfileio_abstract.py | 2 +-
 src/rsfile/rsfileio_unix.py     | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index fb6c9c5..199c920 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -271,7 +271,7 @@ class IntraProcessLockRegistryClass(object):
 
     def add_unique_id_data(self, unique_id, data):
         assert unique_id, unique_id
-        assert data, data
+        assert data is not None, data
         with self.mutex:
             self._check_forking()
 
diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 06c1612..99ff9c8 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -170,7 +170,7 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
                 # we bypass Rsfile for file descriptors that are pipes, devices, directories, symlinks etc.
                 st_mode = os.fstat(self._fileno).st_mode  # might raise
                 if stat.S_ISDIR(st_mode):
-                    assert fileno or handle, (fileno, handle)  # it must NOT be a newly created file object, else bug
+                    assert fileno is not None or handle is not None, (fileno, handle)  # it must NOT be a newly created file object, else bug
                     self._closefd = False  # disown file descriptor
                     raise IOError(errno.EISDIR, "Can't wrap a directory in FileIO")
                 is_regular = stat.S_ISREG(st_mode)
diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index 65d7301..ef9b2d9 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -198,11 +198,11 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         # print("FSYNC_UNIX_DONE")
 
     def _inner_fileno(self):
-        assert self._fileno
+        assert self._fileno is not None
         return self._fileno
 
     def _inner_handle(self):
-        assert self._handle
+        assert self._handle is not None
         return self._handle
 
     @_unix_error_converter
-- 
2.43.0


From 2db389ec8dc89f2f40ea690231e392328bb806af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:46 +0000
Subject: [PATCH 07/29] fix: protect with the mutex the first call to each
 method, and iteration

The thread-safe wrapper returned the unprotected method on first access to it.
---
 src/rsfile/rsfile_streams.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 58b5881..e625c44 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -181,11 +181,16 @@ class RSThreadSafeWrapper(object):
                 return self._secure_call(name, *args, **kwargs)
             # IMPORTANT : cache the thread-safe caller in object, so that we bypass this __getattr__ next time
             setattr(self, name, _method_proxy)
+            return _method_proxy
 
         return attr
 
     def __iter__(self):
-        return iter(self.wrapped_stream)
+        self._secure_call("__iter__")  # might raise if stream is closed
+        return self
+
+    def __next__(self):
+        return self._secure_call("__next__")
 
     def __str__(self):
         return "Thread Safe Wrapper around %s" % self.wrapped_stream
-- 
2.43.0


From 3b0b63a8244fba4397570651f538360f4eb71885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:46 +0000
Subject: [PATCH 08/29] fix: release the lock when the body of a 'with
 lock_file()' statement raises

---
 src/rsfile/rsfileio_abstract.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 99ff9c8..e3287ec 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -537,9 +537,11 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
     @contextmanager
     def _lock_remover(self, length, offset, whence):
         # we do nothing on __enter__()
-        yield
-        # we unlock on __exit__()
-        self.unlock_file(length=length, offset=offset, whence=whence)
+        try:
+            yield
+        finally:
+            # we unlock on __exit__()
+            self.unlock_file(length=length, offset=offset, whence=whence)
 
     def lock_file(self, timeout=None, length=None, offset=None, whence=os.SEEK_SET, shared=None):
 
-- 
2.43.0


From 96bf216dd3df5be00077ef12b6b9644052230c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 09/29] fix: flush buffers before the context manager of
 lock_file() releases the lock

Data written to a buffered or text stream reached the file when it was no more locked.
---
 src/rsfile/rsfile_streams.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index e625c44..d457161 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -5,6 +5,7 @@ import functools
 import multiprocessing
 import os
 import threading
+from contextlib import contextmanager
 
 from . import rsfile_definitions as defs
 
@@ -30,6 +31,17 @@ def __rsfile_stream_repr__(self):
     else:
         return "<%s name=%r>" % (clsname, name)
 
+
+@contextmanager
+def _flush_before_unlocking(stream, lock_remover):
+    # buffered data must reach the file while it is still protected by the lock
+    with lock_remover:
+        try:
+            yield
+        finally:
+            stream.flush()
+
+
 class _buffer_forwarder_mixin(object):
     def _reset_buffers(self):
         self.seek(0, os.SEEK_CUR)  # we flush i/o buffers, didn't work on py26
@@ -50,7 +62,7 @@ class _buffer_forwarder_mixin(object):
 
     def lock_file(self, *args, **kwargs):
         self._reset_buffers()
-        return self.raw.lock_file(*args, **kwargs)
+        return _flush_before_unlocking(self, self.raw.lock_file(*args, **kwargs))
 
     def unlock_file(self, *args, **kwargs):
         self._reset_buffers()
@@ -94,7 +106,7 @@ class _text_forwarder_mixin(object):
 
     def lock_file(self, *args, **kwargs):
         self._reset_buffers()
-        return self.buffer.lock_file(*args, **kwargs)
+        return _flush_before_unlocking(self, self.buffer.lock_file(*args, **kwargs))
 
     def unlock_file(self, *args, **kwargs):
         self._reset_buffers()
-- 
2.43.0


From 589ce2155c0c0d538fc3ae28dc9857388c2ff6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 10/29] fix: return None from readinto() when a non-blocking
 stream has no data

len(None) raised TypeError.
---
 src/rsfile/rsfileio_abstract.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index e3287ec..77e0ef7 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -410,8 +410,10 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
             buffer = memoryview(buffer).cast("B")
 
         mybytes = self._inner_read(len(buffer))
-        byteslen = len(mybytes)
         assert mybytes is None or isinstance(mybytes, bytes), type(mybytes)
+        if mybytes is None:
+            return None  # the object is set not to block and has no data ready to be read
+        byteslen = len(mybytes)
 
         if isinstance(buffer, array):
             typecode = b"b" if (sys.version_info[:2] < (3, 0)) else "b"  # typecode weirdness...
-- 
2.43.0


From 6fab13889201c0a234619becbd7d1b1585d2f4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 11/29] fix: don't drop data in write_to_file() and
 append_to_file() on partial writes

When buffering is disabled, a raw write may transfer only part of the data.
---
 src/rsfile/rsfile_utilities.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index bcb6511..e985886 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 
 
+import errno
+
 from .rsfile_definitions import *  # constants, base types and exceptions
 from .rsfile_factories import *
 
@@ -83,6 +85,18 @@ def monkey_patch_open_builtin():
 # ---------------------
 
 
+def _write_whole_data(stream, data):
+    if isinstance(data, str):
+        stream.write(data)
+        return
+    data = memoryview(data).cast("B")
+    while len(data):  # if unbuffered, might write only part of the data
+        count = stream.write(data)
+        if count is None:
+            raise BlockingIOError(errno.EAGAIN, "write could not complete without blocking", 0)
+        data = data[count:]
+
+
 def read_from_file(
     filename, binary=False, buffering=None, encoding=None, errors=None, newline=None, locking=True, timeout=None
 ):
@@ -171,7 +185,7 @@ def write_to_file(
         thread_safe=False,
     ) as myfile:
 
-        myfile.write(data)
+        _write_whole_data(myfile, data)
         myfile.flush()
         if sync:
             myfile.sync()
@@ -216,7 +230,7 @@ def append_to_file(
         thread_safe=False,
     ) as myfile:
 
-        myfile.write(data)
+        _write_whole_data(myfile, data)
         myfile.flush()
         if sync:
             myfile.sync()
-- 
2.43.0


From 5c761a22508386be91996288dd316a5c1ca1fff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 12/29] fix: reject at once the locking of a negative file
 offset

The kernel refuses it, so a lock_file() without timeout retried forever.
---
 src/rsfile/rsfileio_abstract.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 77e0ef7..879e87c 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -574,6 +574,9 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
             raise IOError("Can't obtain exclusive lock on non-writable stream, or shared lock on non-readable stream.")
 
         abs_offset = self._convert_relative_offset_to_absolute(offset, whence)
+        if abs_offset < 0:
+            raise IOError(errno.EINVAL, "Invalid argument : the area to be locked can't start before the file")
+
         blocking = timeout is None  # here, it means "forever waiting for the lock"
         # we enforce spin-locking if a global timeout exists
         low_level_blocking = blocking if (self.enforced_locking_timeout_value is None) else False
-- 
2.43.0


From c8214f67ee5dee0943a997ee9bfa8d33f4c61191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:13 +0000
Subject: [PATCH 13/29] fix: release the other locks of a stream when unlocking
 one of them fails in close()

---
 src/rsfile/rsfileio_abstract.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 879e87c..5e730a0 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -223,6 +223,7 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
 
                 with IntraProcessLockRegistry.mutex:
 
+                    error = None
                     try:
                         # We are careful, in case object initialization failed
                         if hasattr(self, "_lock_registry_inode") and hasattr(self, "_lock_registry_descriptor"):
@@ -231,10 +232,15 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
                             ):
                                 # print (">>>>>>>> ", (handle, shared, start, end))
                                 length = None if end is None else (end - start)
-                                self._inner_file_unlock(length, start)
+                                try:
+                                    self._inner_file_unlock(length, start)
+                                except EnvironmentError as e:
+                                    error = e  # we still have to release the other locks
                     finally:
                         # Mark the raw stream as closed, even if some operations failed
                         self._inner_close_streams()  # Might raise OverflowError
+                    if error is not None:
+                        raise error
 
     '''
     def __del__(self):
-- 
2.43.0


From f116d0f86edc09cb944cb729aef2a37187132f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:13 +0000
Subject: [PATCH 14/29] fix: don't erase the file when the patched FileIO class
 wraps a descriptor

Like in the stdlib (and in rsopen()), only files opened by path get erased by 'w' modes.
---
 src/rsfile/rsfile_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index e985886..b5d600f 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -36,7 +36,7 @@ class RSFileIOWrapper(RSFileIO):
         if extended_kwargs["text"]:
             raise BadValueTypeError("Raw stream can't be created in text mode")
         RSFileIO.__init__(self, **raw_kwargs)
-        if self.seekable() and extended_kwargs["truncate"]:
+        if self.origin == "path" and self.seekable() and extended_kwargs["truncate"]:
             self.truncate(0)  # this mimicks basic rawFileIO, without file locking
 
 
-- 
2.43.0


From 5d187f6a6432d3ed0a40d3f6c572863236f1fdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:16 +0000
Subject: [PATCH 15/29] fix: check text-related arguments of rsopen() before
 erasing the file

An invalid encoding or newline, or the lack of buffering, was detected after the erasure.
---
 src/rsfile/rsfile_factories.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index 1a7a1f4..bdcaf03 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -283,6 +283,13 @@ def rsopen(
     result = raw
     try:
 
+        if not extended_kwargs["binary"]:
+            # we check these arguments (might raise LookupError...) before locking and truncating the file
+            if buffering == 0:
+                raise defs.BadValueTypeError("can't have unbuffered text I/O")
+            if encoding is not None or errors is not None or newline is not None:
+                defs.io_module.TextIOWrapper(defs.io_module.BytesIO(), encoding or "utf-8", errors, newline)
+
         if raw.seekable():  # thus we skip PIPES silently...
 
             if locking:
@@ -315,11 +322,9 @@ def rsopen(
 
         assert buffering >= 0, "abnormal buffering size %r encountered" % buffering
         if buffering == 0:
-            if extended_kwargs["binary"]:
-                if thread_safe:
-                    result = thread_safe_interface(raw)
-                return result
-            raise defs.BadValueTypeError("can't have unbuffered text I/O")
+            if thread_safe:
+                result = thread_safe_interface(raw)
+            return result
 
         if raw.readable() and raw.writable():
             buffer = RSBufferedRandom(raw, buffering)
-- 
2.43.0


From b3326e822936e4e871442bb2f68eff7d1fbd52ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 16/29] fix: unlock all the areas of a released lock when
 unlocking one of them fails

---
 src/rsfile/rsfileio_unix.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index ef9b2d9..6c92dab 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -310,11 +310,18 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             with IntraProcessLockRegistry.mutex:
                 # fcntl() locks belong to the whole process, so we must preserve the areas which
                 # are also locked (in shared mode, necessarily) by other streams of this process
+                error = None
                 for (start, end) in IntraProcessLockRegistry.get_unlocked_ranges(
                     self._lock_registry_inode, abs_offset, abs_end
                 ):
                     # zero is the "infinity" value for fcntl
-                    unix.lockf(self._fileno, unix.LOCK_UN, 0 if end is None else (end - start), start, os.SEEK_SET)
+                    length = 0 if end is None else (end - start)
+                    try:
+                        unix.lockf(self._fileno, unix.LOCK_UN, length, start, os.SEEK_SET)
+                    except unix.error as e:
+                        error = e  # we still have to unlock the other areas
+                if error is not None:
+                    raise error
         finally:
             self._purge_pending_related_file_descriptors()
 
-- 
2.43.0


From 36b246db05ade9054d3303bb730a9a7f17639d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 17/29] fix: don't return buffered data when reading a closed
 stream

---
 src/rsfile/rsfile_streams.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index d457161..beb072d 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -141,6 +141,12 @@ class RSBufferedReader(_buffer_forwarder_mixin, defs.io_module.BufferedReader):
     def readable(self):  # drop when py3.5 not supported anymore
         return self.raw.readable()
 
+    def close(self):
+        try:
+            super().close()
+        finally:
+            self._reset_read_buf()  # so that no data can be read from the buffer of a closed stream
+
 
 class RSBufferedWriter(_buffer_forwarder_mixin, defs.io_module.BufferedWriter):
     def writable(self):  # drop when py3.5 not supported anymore
-- 
2.43.0


From 119b582c4211ac8c6ffef842b28229783971957f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:09 +0000
Subject: [PATCH 18/29] fix: don't use outdated position or read-ahead data
 when truncating a buffered updating stream

---
 src/rsfile/rsfile_streams.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index beb072d..b127ead 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -158,7 +158,9 @@ class RSBufferedWriter(_buffer_forwarder_mixin, defs.io_module.BufferedWriter):
 
 # awkward structure to have all methods/inheritance-relations OK even when monkey patching
 class RSBufferedRandom(defs.io_module.BufferedRandom, RSBufferedWriter, RSBufferedReader):
-    pass
+    def truncate(self, pos=None):
+        self._reset_buffers()  # position must be up to date, and data read ahead might not exist anymore afterwards
+        return super().truncate(pos)
 
 
 class RSTextIOWrapper(_text_forwarder_mixin, defs.io_module.TextIOWrapper):
-- 
2.43.0


From 4e9bf8cfd922c346c2e2a7ae4f9bce7488c31a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:48 +0000
Subject: [PATCH 19/29] fix: return the right data from readinto() when the
 buffer holds a part of it

---
 src/rsfile/rsfile_streams.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index b127ead..d6ea593 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -141,6 +141,20 @@ class RSBufferedReader(_buffer_forwarder_mixin, defs.io_module.BufferedReader):
     def readable(self):  # drop when py3.5 not supported anymore
         return self.raw.readable()
 
+    def _readinto(self, buf, read1):
+        if read1:
+            return super()._readinto(buf, read1)
+        # the version of _pyio fails when its internal buffer holds only a part of the data asked for
+        self._checkClosed("readinto of closed file")
+        view = memoryview(buf).cast("B")
+        if view.readonly:
+            raise TypeError("a read-write bytes-like object is required")
+        data = self.read(len(view))
+        if data is None:
+            return None  # no data available on a non-blocking stream
+        view[: len(data)] = data
+        return len(data)
+
     def close(self):
         try:
             super().close()
-- 
2.43.0


From a83b7e83e7e5fb483ccfad6e6538004d4a6e1600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:48 +0000
Subject: [PATCH 20/29] fix: keep the right position when seeking a buffered
 updating stream fails

---
 src/rsfile/rsfile_streams.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index d6ea593..87ff82e 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -172,6 +172,13 @@ class RSBufferedWriter(_buffer_forwarder_mixin, defs.io_module.BufferedWriter):
 
 # awkward structure to have all methods/inheritance-relations OK even when monkey patching
 class RSBufferedRandom(defs.io_module.BufferedRandom, RSBufferedWriter, RSBufferedReader):
+    def seek(self, pos, whence=os.SEEK_SET):
+        if self._read_buf:
+            with self._read_lock:
+                self.raw.seek(self._read_pos - len(self._read_buf), os.SEEK_CUR)
+                self._reset_read_buf()  # else the position would be wrong if seeking failed below
+        return super().seek(pos, whence)
+
     def truncate(self, pos=None):
         self._reset_buffers()  # position must be up to date, and data read ahead might not exist anymore afterwards
         return super().truncate(pos)
-- 
2.43.0


From 3093a2873b9c4bddc22165f26cc993f2f564e6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:37 +0000
Subject: [PATCH 21/29] fix: accept the arguments of open() under their
 standard names and positions in its replacement

---
 src/rsfile/rsfile_utilities.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index b5d600f..072faf3 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -7,15 +7,26 @@ from .rsfile_definitions import *  # constants, base types and exceptions
 from .rsfile_factories import *
 
 
-def BUILTIN_OPEN_FUNC_REPLACEMENT(*args, **kwargs):
+def BUILTIN_OPEN_FUNC_REPLACEMENT(
+    file=None, mode="r", buffering=None, encoding=None, errors=None, newline=None, closefd=True, opener=None, **kwargs
+):
     """
-    Replacement for the built-in open() function,
+    Replacement for the built-in open() function (with the same order and names of arguments),
     with rectified default arguments, and
     tolerant mode for str/unicode mixes in python2.
     """
-    params = dict(handle=None, locking=False, timeout=0, thread_safe=False, mutex=None, permissions=0o777)
+    params = dict(name=file, handle=None, locking=False, timeout=0, thread_safe=False, mutex=None, permissions=0o777)
     params.update(kwargs)
-    stream = rsopen(*args, **params)
+    stream = rsopen(
+        mode=mode,
+        buffering=buffering,
+        encoding=encoding,
+        errors=errors,
+        newline=newline,
+        closefd=closefd,
+        opener=opener,
+        **params
+    )
     return stream
 
 
-- 
2.43.0


From 3b815483ef27f63fbf7b0010c3cbcc8f12cfb76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:17 +0000
Subject: [PATCH 22/29] fix: raise RuntimeError when unlocking a file on which
 no lock is held

---
 src/rsfile/rsfile_registries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index 199c920..a9825b5 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -149,7 +149,7 @@ class IntraProcessLockRegistryClass(object):
 
         # unprotected method - beware
         if not self._ensure_entry_exists(unique_id, create=False):
-            return True
+            raise RuntimeError("Trying to unlock a file area not owned by this handle")
 
         new_end = (new_start + new_length) if new_length else None  # None -> infinity
 
-- 
2.43.0


From 2874ade2a0da773ebea4843cf89154005c872322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:26 +0000
Subject: [PATCH 23/29] fix: windows: keep the C file descriptor opened to look
 for non-blocking pipes

It was never closed (CloseHandle() was used on the native handle), or was a
second descriptor over the handle of the one wrapped.
---
 src/rsfile/rsfileio_windows.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index 1748d62..c06e808 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -178,11 +178,12 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         self._use_nonblocking_pipe_write_hack = False
         #print(">>> Detecting _use_nonblocking_pipe_write_hack!", write, BLOCKING_MODES_ENABLED)
         if write and BLOCKING_MODES_ENABLED:
-            _fileno = win32._open_osfhandle(self._handle, (int(append) and os.O_APPEND))
+            if self._fileno is None:
+                # we keep this C file descriptor, it can only be released by closing it instead of the native handle
+                self._fileno = win32._open_osfhandle(self._handle, (int(append) and os.O_APPEND))
             try:
-                if not os.get_blocking(_fileno):
+                if not os.get_blocking(self._fileno):
                     #print(">>> We want to use _use_nonblocking_pipe_write_hack!")
-                    self._fileno = _fileno
                     self._use_nonblocking_pipe_write_hack = True
             except OSError:
                 pass  # probably not a PIPE
-- 
2.43.0


From ad82c3d400920eee405db6f6a183aa6bbdc9a7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:26 +0000
Subject: [PATCH 24/29] fix: windows: descriptor 0 is a legitimate file
 descriptor

---
 src/rsfile/rsfileio_windows.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index c06e808..a632e3b 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -299,7 +299,7 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             # NEVER use flag os.O_TEXT, we're in raw IO here !
             self._fileno = win32._open_osfhandle(self._handle, flags)
 
-        assert self._fileno
+        assert self._fileno is not None
         return self._fileno
 
     def _inner_handle(self):
@@ -403,7 +403,7 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             # Non-blocking pipes have horrendous behaviour on Windows
             # See https://github.com/python/cpython/issues/101881
             # So we rely on CPython hacks to force-write data into pipe
-            assert self._fileno, self._fileno
+            assert self._fileno is not None
             try:
                 bytes_written = os.write(self._fileno, buffer)
             except BlockingIOError:
-- 
2.43.0


From 435329b36a0037f7f689c9891338274fa68f3428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:26 +0000
Subject: [PATCH 25/29] fix: windows: an empty write isn't a write which would
 block

write(b"") returned None, and truncate() failed when it filled up to a
multiple of its block size.
---
 src/rsfile/rsfileio_windows.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index a632e3b..b1103c1 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -415,7 +415,7 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         # Nothing special for to do with errCode, for files, it seems
         # see https://learn.microsoft.com/en-us/windows/win32/api/fileapi/nf-fileapi-writefile
         #print(">> WIN32 WRITE RETURNED", errCode, bytes_written)
-        if not bytes_written:
+        if not bytes_written and len(buffer):
             #print(">> WIN32 WRITE FALLBACK TO NONE")
             return None  # We mimick effects of EAGAIN on Unix
 
-- 
2.43.0


From 61e6812b9a08e3ffb6d8599e7ddd2b697e16d2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 26/29] fix: windows: transfers of 4 GiB and more are partial
 ones

The native calls have a 32-bit count of bytes: it wrapped (so a read looked like
the end of the file, and a write like one which would block) or overflowed.
---
 src/rsfile/rsfileio_windows.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index b1103c1..b2d6169 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -358,7 +358,8 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
     def _inner_read(self, n):
         #print(">> WIN32 READING BYTES", n)
         try:
-            (res, mybytes) = win32.ReadFile(self._handle, n)  # returns bytes
+            # the native API has a 32-bit count of bytes
+            (res, mybytes) = win32.ReadFile(self._handle, min(n, utilities.MAX_DWORD))  # returns bytes
             #print(">> WIN32 READ BYTES", len(mybytes))
             return mybytes
         except win32.error as e:
@@ -410,6 +411,8 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
                 bytes_written = 0
             errCode = None
         else:
+            if len(buffer) > utilities.MAX_DWORD:
+                buffer = buffer[: utilities.MAX_DWORD]  # the native API has a 32-bit count of bytes
             (errCode, bytes_written) = win32.WriteFile(self._handle, buffer)
 
         # Nothing special for to do with errCode, for files, it seems
-- 
2.43.0


From 576fc0a72fb4272f05f6a0b67d433f234d5cd45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 27/29] fix: windows: locks until the end of the file from an
 offset

Their range went past the highest offset, which Windows 7 and later refuse.
---
 src/rsfile/rsfileio_windows.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index b2d6169..6f8adaf 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -433,9 +433,9 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             abs_offset = 0
 
         if not length:  # 0 or None
-            (nNumberOfBytesToLockLow, nNumberOfBytesToLockHigh) = (utilities.MAX_DWORD, utilities.MAX_DWORD)
-        else:
-            (nNumberOfBytesToLockLow, nNumberOfBytesToLockHigh) = utilities.pyint_to_double_dwords(length)
+            # as much as possible, but ranges which go past 2**64-1 are refused (ERROR_INVALID_LOCK_RANGE)
+            length = 2**64 - 1 - abs_offset
+        (nNumberOfBytesToLockLow, nNumberOfBytesToLockHigh) = utilities.pyint_to_double_dwords(length)
 
         overlapped = win32.OVERLAPPED()  # contains ['Internal', 'InternalHigh', 'Offset', 'OffsetHigh', 'dword',
         # 'hEvent', 'object']
-- 
2.43.0


From 1d048057dacc362b5158fb82aa7bf355c968fcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 28/29] fix: windows: pywin32: times() and unique_id() leaked a
 C file descriptor

---
 src/rsfile/rsbackend/windows_pywin32.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsbackend/windows_pywin32.py b/src/rsfile/rsbackend/windows_pywin32.py
index 3e62d6f..b4bec96 100644
--- a/src/rsfile/rsbackend/windows_pywin32.py
+++ b/src/rsfile/rsbackend/windows_pywin32.py
@@ -87,7 +87,15 @@ def GetFileInformationByHandle(handle):
     ##print(">>>>>>", info.__dict__)
 
     # to workaround bugs, we don't deal with "PyTime" objects, we fallback to stdlib...
-    mystat = os.fstat(_open_osfhandle(handle, 0))
+    # (with the C file descriptor of a duplicate, since closing it closes its handle too)
+    process = win32api.GetCurrentProcess()
+    duplicate = win32api.DuplicateHandle(process, handle, process, 0, False, win32con.DUPLICATE_SAME_ACCESS)
+    fd = _open_osfhandle(int(duplicate), 0)
+    duplicate.Detach()
+    try:
+        mystat = os.fstat(fd)
+    finally:
+        os.close(fd)
     info.ftCreationTime = FILETIME(*_utilities.python_timestamp_to_win32_filetime(mystat.st_ctime))
     info.ftLastAccessTime = FILETIME(*_utilities.python_timestamp_to_win32_filetime(mystat.st_atime))
     info.ftLastWriteTime = FILETIME(*_utilities.python_timestamp_to_win32_filetime(mystat.st_mtime))
-- 
2.43.0


From 789734e5096019e6d6a13761fe7750a5e4cf6273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 29/29] fix: windows: ERROR_NO_DATA is a broken pipe (EPIPE)
 with pywin32 too

---
 src/rsfile/rsbackend/_utilities.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rsfile/rsbackend/_utilities.py b/src/rsfile/rsbackend/_utilities.py
index 581519b..2a48de4 100644
--- a/src/rsfile/rsbackend/_utilities.py
+++ b/src/rsfile/rsbackend/_utilities.py
@@ -127,6 +127,7 @@ _error_mapping = {
     202: 8,
     206: 2,
     215: 11,
+    232: 32,
     1816: 12,
 }
 
-- 
2.43.0

