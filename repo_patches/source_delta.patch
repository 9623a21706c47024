From 9d5949bdc6175ede56dd453e591dece15775b6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 01/11] fix: setxattr: do not leak name reference when
 replacing an attribute

---
 src/s3ql/fs.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 8e15a4d..8baa45d 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -351,10 +351,18 @@ class Operations(pyfuse3.Operations):
             if self.failsafe or self.inodes[id_].locked:
                 raise FUSEError(errno.EPERM)
 
-            self.db.execute(
-                'INSERT OR REPLACE INTO ext_attributes (inode, name_id, value) VALUES(?, ?, ?)',
-                (id_, self._add_name(name), value),
+            # When replacing the value of an existing attribute, the reference to
+            # the name is already accounted for.
+            changes = self.db.execute(
+                'UPDATE ext_attributes SET value=? WHERE inode=? '
+                'AND name_id=(SELECT id FROM names WHERE name=?)',
+                (value, id_, name),
             )
+            if changes == 0:
+                self.db.execute(
+                    'INSERT INTO ext_attributes (inode, name_id, value) VALUES(?, ?, ?)',
+                    (id_, self._add_name(name), value),
+                )
             self.inodes[id_].ctime_ns = time_ns()
 
     async def removexattr(self, id_: InodeT, name: bytes, ctx: RequestContext) -> None:
-- 
2.43.0


From 9e11b631424b0bfc19c214daef72b79cf22445e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 02/11] fix: removexattr: do not drop a name reference when the
 attribute does not exist

---
 src/s3ql/fs.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 8baa45d..eda82a5 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -371,16 +371,14 @@ class Operations(pyfuse3.Operations):
         if self.failsafe or self.inodes[id_].locked:
             raise FUSEError(errno.EPERM)
 
-        try:
-            name_id = self._del_name(name)
-        except NoSuchRowError:
-            raise FUSEError(pyfuse3.ENOATTR)
-
         changes = self.db.execute(
-            'DELETE FROM ext_attributes WHERE inode=? AND name_id=?', (id_, name_id)
+            'DELETE FROM ext_attributes WHERE inode=? '
+            'AND name_id=(SELECT id FROM names WHERE name=?)',
+            (id_, name),
         )
         if changes == 0:
             raise FUSEError(pyfuse3.ENOATTR)
+        self._del_name(name)
 
         self.inodes[id_].ctime_ns = time_ns()
 
-- 
2.43.0


From 838c47613b01566785af1b298eea50339b873615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 03/11] fix: lookup: recognize '.' and '..' (names are bytes)

---
 src/s3ql/fs.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index eda82a5..30f4f34 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -170,11 +170,16 @@ class Operations(pyfuse3.Operations):
             object.__setattr__(inode, 'uid', os.getuid())
             object.__setattr__(inode, 'gid', os.getgid())
 
-        elif name == '.':
+        elif name == b'.':
             inode = self.inodes[id_p]
 
-        elif name == '..':
-            id_ = self.db.get_inode_val("SELECT parent_inode FROM contents WHERE inode=?", (id_p,))
+        elif name == b'..':
+            try:
+                id_ = self.db.get_inode_val(
+                    "SELECT parent_inode FROM contents WHERE inode=?", (id_p,)
+                )
+            except NoSuchRowError:
+                raise FUSEError(errno.ENOENT)
             inode = self.inodes[id_]
 
         else:
-- 
2.43.0


From f21aa290523f4c4a1eecba1c432c37b7e4d95b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 04/11] fix: unlink, rmdir, rename: release lookup reference
 when the request is refused

---
 src/s3ql/fs.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 30f4f34..3a2d3fa 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -655,12 +655,13 @@ class Operations(pyfuse3.Operations):
 
         inode = self._lookup(id_p, name, ctx)
 
-        if stat.S_ISDIR(inode.mode):
-            raise FUSEError(errno.EISDIR)
-
-        await self._remove(id_p, name, inode.id)
+        try:
+            if stat.S_ISDIR(inode.mode):
+                raise FUSEError(errno.EISDIR)
 
-        await self.forget([(inode.id, 1)])
+            await self._remove(id_p, name, inode.id)
+        finally:
+            await self.forget([(inode.id, 1)])
 
     async def rmdir(self, id_p: InodeT, name: bytes, ctx: RequestContext) -> None:
         log.debug('started with %d, %r', id_p, name)
@@ -669,15 +670,16 @@ class Operations(pyfuse3.Operations):
 
         inode = self._lookup(id_p, name, ctx)
 
-        if self.inodes[id_p].locked:
-            raise FUSEError(errno.EPERM)
-
-        if not stat.S_ISDIR(inode.mode):
-            raise FUSEError(errno.ENOTDIR)
+        try:
+            if self.inodes[id_p].locked:
+                raise FUSEError(errno.EPERM)
 
-        await self._remove(id_p, name, inode.id)
+            if not stat.S_ISDIR(inode.mode):
+                raise FUSEError(errno.ENOTDIR)
 
-        await self.forget([(inode.id, 1)])
+            await self._remove(id_p, name, inode.id)
+        finally:
+            await self.forget([(inode.id, 1)])
 
     async def _purge_inode(self, id_: InodeT, size: int) -> None:
         '''Remove an inode that has no more references.
@@ -808,8 +810,12 @@ class Operations(pyfuse3.Operations):
             target_exists = True
 
         if target_exists:
-            await self._replace(id_p_old, name_old, id_p_new, name_new, inode_old.id, inode_new.id)
-            await self.forget([(inode_old.id, 1), (inode_new.id, 1)])
+            try:
+                await self._replace(
+                    id_p_old, name_old, id_p_new, name_new, inode_old.id, inode_new.id
+                )
+            finally:
+                await self.forget([(inode_old.id, 1), (inode_new.id, 1)])
         else:
             self._rename(id_p_old, name_old, id_p_new, name_new)
             await self.forget([(inode_old.id, 1)])
-- 
2.43.0


From 72e652f6aabf94288f9c6523c16e99a53c3ad4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 05/11] fix: copy_tree: include dirty blocks of inodes that are
 no longer in use

---
 src/s3ql/fs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 3a2d3fa..ebc37f1 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -542,6 +542,9 @@ class Operations(pyfuse3.Operations):
             mtime_ns=now_ns, ctime_ns=now_ns, atime_ns=now_ns, uid=0, gid=0, mode=0, refcount=0
         )
 
+        # Inodes that nobody is using anymore may still have dirty blocks in the cache
+        unflushed = {el.inode for el in self.cache.cache.values() if el.dirty or el.in_transit}
+
         queue: list[tuple[InodeT, InodeT, int]] = [(src_id, tmp.id, -1)]
         id_cache: dict[InodeT, InodeT] = dict()
 
@@ -563,7 +566,7 @@ class Operations(pyfuse3.Operations):
                         name_id = cast(int, row[0])
                         id_ = cast(InodeT, row[1])
                         # Make sure that all blocks are in the database
-                        if id_ in self.open_inodes:
+                        if id_ in self.open_inodes or id_ in unflushed:
                             await self.cache.start_flush(id_)
 
                         if id_ not in id_cache:
-- 
2.43.0


From 68f9c16eda8fc3ba92de47c382132fdf4bbeca74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 06/11] fix: keep block in cache until the object it shares has
 been uploaded

---
 src/s3ql/block_cache.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/block_cache.py b/src/s3ql/block_cache.py
index 1f0d588..c0cf9d8 100644
--- a/src/s3ql/block_cache.py
+++ b/src/s3ql/block_cache.py
@@ -507,10 +507,24 @@ class BlockCache:
                         (obj_id, el.inode, el.blockno),
                     )
 
-                el.dirty = False
+                # If the object is still being uploaded, its contents are not available from the
+                # backend yet. Therefore, the cache entry has to stay around for now: it may be the
+                # only remaining copy of the data if the upload fails or the process dies.
+                stored = True
+                if (event := self.in_flight_uploads.get(obj_id)) is not None:
+                    await event.wait()
+                    stored = self.db.has_val(
+                        'SELECT 1 FROM objects WHERE id=? AND hash IS NOT NULL', (obj_id,)
+                    )
+
+                if stored:
+                    el.dirty = False
                 self._unmark_in_transit(el)
                 set_in_transit = False
                 await self.block_lock.release(el.key)
+                if event is not None:
+                    async with self.transfer_completed:
+                        self.transfer_completed.notify_all()
 
                 if old_obj_id == obj_id:
                     log.debug('unchanged, obj_id=%d', obj_id)
-- 
2.43.0


From 0a1ec3d417b80b7abe9f323f232966516efeac5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 07/11] fix: start_flush: wait for blocks whose registration is
 in progress

---
 src/s3ql/block_cache.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/s3ql/block_cache.py b/src/s3ql/block_cache.py
index c0cf9d8..4db762d 100644
--- a/src/s3ql/block_cache.py
+++ b/src/s3ql/block_cache.py
@@ -195,6 +195,8 @@ class BlockCache:
     :in_flight_uploads: maps obj_id to a `trio.Event` set when the upload of that object
         completes (successfully or not). An entry exists iff an upload is in flight.
     :_in_transit_count: number of cache entries whose `in_transit` flag is set
+    :_unregistered: maps the key of a cache entry that is in transit, but not yet registered in the
+        database, to a `trio.Event` that will be set once this has happened (or failed).
     :_upload_send: channel to distribute upload work to worker tasks
     :_remove_send: channel to distribute removal work to worker tasks
     :transfer_completed: signals completion of an object upload
@@ -210,6 +212,7 @@ class BlockCache:
     block_lock: MultiLock[tuple[InodeT, int]]
     in_flight_uploads: dict[int, trio.Event]
     _in_transit_count: int
+    _unregistered: dict[tuple[InodeT, int], trio.Event]
     transfer_completed: trio.Condition
     _upload_send: UploadChannelSend
     _remove_send: RemovalChannelSend
@@ -236,6 +239,7 @@ class BlockCache:
         self.block_lock = MultiLock()
         self.in_flight_uploads = {}
         self._in_transit_count = 0
+        self._unregistered = {}
         self.transfer_completed = trio.Condition()
         self._upload_send = upload_send
         self._remove_send = remove_send
@@ -350,6 +354,10 @@ class BlockCache:
                 pass
         log.debug('upload task exiting')
 
+    def _finish_registration(self, el: CacheEntry) -> None:
+        if (event := self._unregistered.pop(el.key, None)) is not None:
+            event.set()
+
     def _mark_in_transit(self, el: CacheEntry) -> None:
         if el.in_transit:
             raise RuntimeError('cache entry already in transit: %s' % el)
@@ -450,11 +458,13 @@ class BlockCache:
             log.debug('uploading %s..', el)
             self._mark_in_transit(el)
             set_in_transit = True
+            self._unregistered[el.key] = trio.Event()
             el.seek(0)
             sha = await trio.to_thread.run_sync(sha256_fh, el)
             hash_ = sha.digest()
         except:
             if set_in_transit:
+                self._finish_registration(el)
                 self._unmark_in_transit(el)
             await self.block_lock.release(el.key)
             raise
@@ -494,6 +504,7 @@ class BlockCache:
                 # obj_id via the database will also find the event.
                 self.in_flight_uploads[obj_id] = trio.Event()
                 upload_registered = True
+                self._finish_registration(el)
                 await self._upload_send.send((el, obj_id))
 
             # There is a block with the same hash
@@ -507,6 +518,8 @@ class BlockCache:
                         (obj_id, el.inode, el.blockno),
                     )
 
+                self._finish_registration(el)
+
                 # If the object is still being uploaded, its contents are not available from the
                 # backend yet. Therefore, the cache entry has to stay around for now: it may be the
                 # only remaining copy of the data if the upload fails or the process dies.
@@ -531,6 +544,7 @@ class BlockCache:
                     return False
 
         except:
+            self._finish_registration(el)
             if set_in_transit:
                 self._unmark_in_transit(el)
             await self.block_lock.release(el.key, noerror=True)
@@ -875,6 +889,9 @@ class BlockCache:
         for el in self.cache.mutable_values():
             if inode is not None and el.inode != inode:
                 continue
+            # If someone else is already processing this entry, wait until it is registered
+            while (event := self._unregistered.get(el.key)) is not None:
+                await event.wait()
             await self.upload_if_dirty(el)
 
     async def flush(self) -> None:
-- 
2.43.0


From dd54edf283af55db0160470b50a3e0181be8c507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 08/11] fix: BlockCache.drop: do not modify the configured
 limit

---
 src/s3ql/block_cache.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/s3ql/block_cache.py b/src/s3ql/block_cache.py
index 4db762d..acf9ed4 100644
--- a/src/s3ql/block_cache.py
+++ b/src/s3ql/block_cache.py
@@ -767,8 +767,11 @@ class BlockCache:
 
         return el
 
-    async def evict(self) -> None:
-        """Evict cache entries until size and entry count are within limits."""
+    async def evict(self, max_entries: int | None = None) -> None:
+        """Evict cache entries until size and entry count are within limits.
+
+        *max_entries* overrides the configured maximum number of entries.
+        """
 
         # Note that we have to make sure that the cache entry is written into
         # the database before we remove it from the cache!
@@ -777,7 +780,9 @@ class BlockCache:
 
         while True:
             need_size = self.cache.size - self.cache.max_size
-            need_entries = len(self.cache) - self.cache.max_entries
+            need_entries = len(self.cache) - (
+                self.cache.max_entries if max_entries is None else max_entries
+            )
             if need_size <= 0 and need_entries <= 0:
                 break
 
@@ -918,10 +923,8 @@ class BlockCache:
         """Drop cache."""
 
         log.debug('started')
-        bak = self.cache.max_entries
-        self.cache.max_entries = 0
-        await self.evict()
-        self.cache.max_entries = bak
+        # Do not change self.cache.max_entries, there may be more than one drop() in progress
+        await self.evict(max_entries=0)
         log.debug('finished')
 
     def get_usage(self) -> tuple[int, int, int, int, int]:
-- 
2.43.0


From b5e4df7351d7cf99af7b427c5c2b94a7ee988500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 09/11] fix: fsck: do not discard cached blocks whose upload
 did not complete

---
 src/s3ql/fsck.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 097b095..e69fec4 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -270,7 +270,7 @@ class Fsck:
             # Check if stored object has same checksum
             try:
                 row = self.conn.get_row(
-                    'SELECT obj_id, hash '
+                    'SELECT obj_id, hash, phys_size '
                     'FROM inode_blocks JOIN objects ON obj_id = objects.id '
                     'WHERE inode=? AND blockno=?',
                     (
@@ -281,11 +281,13 @@ class Fsck:
             except NoSuchRowError:
                 pass
             else:
-                (obj_id, hash_is) = row
+                (obj_id, hash_is, phys_size) = row
                 assert isinstance(obj_id, int)
                 assert hash_is is None or isinstance(hash_is, bytes)
                 if hash_is is None:
                     log.debug('Object %d has NULL hash, treating cached block as dirty', obj_id)
+                elif phys_size == -1:
+                    log.debug('Object %d was not uploaded, treating cached block as dirty', obj_id)
                 elif hash_should == hash_is:
                     if not keep_cache:
                         os.unlink(os.path.join(self.cachedir, filename))
@@ -295,8 +297,8 @@ class Fsck:
             self.log_error("Writing dirty block %d of inode %d to backend", blockno, inode)
 
             try:
-                obj_id = self.conn.get_int_val(
-                    'SELECT id FROM objects WHERE hash=?', (hash_should,)
+                (obj_id, phys_size) = self.conn.get_row_typed(
+                    (int, int), 'SELECT id, phys_size FROM objects WHERE hash=?', (hash_should,)
                 )
 
             except NoSuchRowError:
@@ -304,14 +306,17 @@ class Fsck:
                     'INSERT INTO objects (refcount, phys_size, length, hash) VALUES(1, -1, ?, ?)',
                     (size, hash_should),
                 )
+                phys_size = -1
+            else:
+                self.conn.execute('UPDATE objects SET refcount=refcount+1 WHERE id=?', (obj_id,))
 
+            # New object, or upload did not complete
+            if phys_size == -1:
                 with open(os.path.join(self.cachedir, filename), "rb") as fh:
                     size = os.fstat(fh.fileno()).st_size
                     obj_size = await self.backend.write_fh('s3ql_data_%d' % obj_id, fh, size)
 
                 self.conn.execute('UPDATE objects SET phys_size=? WHERE id=?', (obj_size, obj_id))
-            else:
-                self.conn.execute('UPDATE objects SET refcount=refcount+1 WHERE id=?', (obj_id,))
 
             try:
                 old_obj_id = self.conn.get_int_val(
-- 
2.43.0


From 63866f10b6d1cdf5125703afb6579c42795e1763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 10/11] fix: MultiLock.release: release the lock even if the
 caller has been cancelled

---
 src/s3ql/multi_lock.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/s3ql/multi_lock.py b/src/s3ql/multi_lock.py
index b9a2b83..ebf52a4 100644
--- a/src/s3ql/multi_lock.py
+++ b/src/s3ql/multi_lock.py
@@ -84,9 +84,12 @@ class MultiLock(Generic[K]):
         not locked.
         """
 
-        async with self.cond:
-            if noerror:
-                self.locked_keys.discard(key)
-            else:
-                self.locked_keys.remove(key)
-            self.cond.notify_all()
+        # Locks are typically released while unwinding, so this must also work
+        # if the calling task has been cancelled.
+        with trio.CancelScope(shield=True):
+            async with self.cond:
+                if noerror:
+                    self.locked_keys.discard(key)
+                else:
+                    self.locked_keys.remove(key)
+                self.cond.notify_all()
-- 
2.43.0


From be2f4cdcf3c9f593b6d89a2ef09b8442e99b91ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 11/11] fix: ParallelPipeline: do not lose the exception of the
 last worker

---
 src/s3ql/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/common.py b/src/s3ql/common.py
index 4d2180c..54e8cef 100644
--- a/src/s3ql/common.py
+++ b/src/s3ql/common.py
@@ -480,5 +480,8 @@ class ParallelPipeline(Generic[T]):
         self.finalize()
 
     async def _drive_consumer(self, recv_chan: trio.MemoryReceiveChannel[T]) -> None:
-        async with recv_chan:
+        # Do not use `async with` here: its exit is a checkpoint. When this is the last worker,
+        # closing the channel makes the producer fail with BrokenResourceError, and the resulting
+        # cancellation would then replace the exception that terminated this worker.
+        with recv_chan:
             await self.consume(recv_chan)
-- 
2.43.0

