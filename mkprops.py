#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that long texts stay reviewable)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
        mechanism=[dict(name=n, where=w) for n, w in mech],
        state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
        observe_at=list(observe), hook_needed=None)))

p("C01", "File operations behave like one sequential Unix file system",
  "Whatever sequence of lookups, creations, links, renames, removals, attribute changes, extended-attribute changes, reads, writes, truncations, opens and forgets is issued, every reply (result or error), every attribute (type, permissions, owner, link count, size, device number, access/modification/change time) and every byte read equals that of one Unix file system executing the same sequence. "
  "This is independent of the block size, of which blocks or inodes happen to be cached, flushed, dropped or evicted, and of whether identical data is stored elsewhere. "
  "A file that is unlinked while still in use stays fully usable until its last user is gone.",
  ["histories", "configurations"], "for every operation sequence over any set of names, offsets and lengths, for every block size, cache size and placement of cache flushes/drops between operations",
  "t3_fs_api.py runs about 40 fixed short scripts, each touching one operation on freshly created files with one block size and no eviction of inodes; it cannot cover operation interactions (hard link + replace + open, truncate-extend over holes, setgid inheritance, relatime) nor cache states.",
  ["src/s3ql/fs.py", "src/s3ql/inode_cache.py", "src/s3ql/block_cache.py", "src/s3ql/common.py"],
  [("FUSE request handlers", "src/s3ql/fs.py Operations"), ("write-back inode attribute cache", "src/s3ql/inode_cache.py InodeCache"), ("block cache get/remove", "src/s3ql/block_cache.py BlockCache")],
  ["return values and errors of the Operations handlers"])

p("C02", "Metadata stays internally consistent after every operation",
  "After any sequence of file system operations, including ones that fail, the stored metadata is referentially consistent: every name, inode, block mapping, stored object, symlink target and extended attribute that is referenced exists, every stored reference count equals the number of references, and nothing unreferenced remains once its last user is gone. "
  "In particular a file system check run at that point finds nothing to repair.",
  ["histories", "schedules"], "for every sequence and every interleaving of operations (successful or failing), and every point at which the metadata is examined after pending attribute changes are written back",
  "The tests run fsck after each of a few dozen fixed scripts of successful operations; error paths (removing an attribute that is not there, replacing entries, rmdir of a non-empty directory) and repeated operations are not followed by a check.",
  ["src/s3ql/fs.py", "src/s3ql/inode_cache.py", "src/s3ql/block_cache.py", "src/s3ql/database.py"],
  [("name reference counting", "fs.py _add_name/_del_name/_rename/_replace/_remove"), ("inode purge", "fs.py _purge_inode/forget"), ("object reference counting", "block_cache.py upload_if_dirty/_deref_obj/remove, fs.py copy_tree")],
  ["SQLite tables of the metadata database", "Fsck.check on a live database"])

p("C03", "Written data is never lost or mixed up by caching and uploading",
  "A read of a file block always returns the most recently written content of that block, whatever mixture of concurrent reads, writes, truncations, removals, evictions, flushes and uploads is in progress and whatever uploads fail. "
  "When a flush or an orderly shutdown reports success, the content of every block that was written before it started can be obtained from the storage backend alone. "
  "If an upload fails, the data stays available locally and is not recorded as stored.",
  ["schedules", "histories", "fault_sequences"], "for every interleaving of tasks at their suspension points, every cache size, and every subset of failing backend requests",
  "t2_block_cache.py samples about 15 hand-written schedules with fixed delays; interleavings of upload, rewrite, eviction, removal and dedup are not enumerated.",
  ["src/s3ql/block_cache.py", "src/s3ql/multi_lock.py", "src/s3ql/fs.py"],
  [("upload_if_dirty/_do_upload", "block_cache.py"), ("per-block lock", "multi_lock.py MultiLock"), ("eviction", "block_cache.py evict/_expire")],
  ["bytes returned by BlockCache.get / Operations.read", "backend objects + inode_blocks after flush"])

p("C04", "Stored objects live exactly as long as they are referenced",
  "A storage object is never deleted, and never about to be deleted, while some file block still refers to it, and blocks with identical content share one object. "
  "Once the last reference to an object is dropped and pending work has finished, the object is gone from both the metadata and the backend, so the set of data objects in the backend equals the set of objects known to the metadata.",
  ["schedules", "histories"], "for every interleaving of uploads, overwrites, truncations, deletions, copies and removals of blocks with equal or different contents",
  "Tests check single dedup/removal events sequentially; the races (object dereferenced while it is still being uploaded, last reference dropped while another block links to it) need specific schedules.",
  ["src/s3ql/block_cache.py", "src/s3ql/fs.py"],
  [("dedup and reference counts", "block_cache.py upload_if_dirty"), ("deferred removal", "block_cache.py _deref_obj/_removal_loop"), ("replication", "fs.py copy_tree")],
  ["keys in the backend vs. objects table"])

p("C05", "A cleanly unmounted file system comes back identical everywhere",
  "After an unmount that reports success, mounting the file system again, on the same machine or on any other machine that has only the storage backend, shows exactly the same directory tree, attributes and file contents, for any number of mount/change/unmount rounds. "
  "A local cache left over from an earlier mount never leaks stale contents into a later one.",
  ["histories", "configurations"], "for every sequence of mounts on any of several machines with arbitrary changes in between, every metadata block size, with persistent or discarded local caches",
  "The FUSE-level tests that unmount and remount are not run in this environment and use one machine and one round; unit tests of metadata upload use a single synthetic database.",
  ["src/s3ql/mount.py", "src/s3ql/database.py", "src/s3ql/block_cache.py", "src/s3ql/inode_cache.py"],
  [("unmount sequence", "mount.py main_async/unmount section"), ("metadata download/upload", "database.py upload_metadata/download_metadata"), ("cache reuse", "mount.py get_metadata, BlockCache.load_cache")],
  ["full tree dump through Operations after remount"])

p("C06", "A crash at any moment loses nothing that had been made durable",
  "If the mounting process dies at any moment (including in the middle of an upload, a metadata backup, a mount or an unmount), then running the file system check on the same machine and mounting again yields every file with every change that had reached the local cache directory and the local metadata database before the crash, and no file is replaced by older content, moved away or emptied. "
  "If the machine itself is lost, the state of the last completed metadata backup can still be mounted elsewhere after a file system check.",
  ["crash_points"], "for every persistent step (backend store/delete, parameter file write, database transaction, cache file write) after which the process may die, and every workload before it",
  "t3_fsck.py constructs a few crash leftovers by hand; no test kills the real mount/upload/unmount code between two persistent steps.",
  ["src/s3ql/mount.py", "src/s3ql/fsck.py", "src/s3ql/block_cache.py", "src/s3ql/database.py"],
  [("ordering of persistent steps", "mount.py, database.py upload_metadata/write_params/upload_params"), ("recovery of dirty cache files", "fsck.py check_cache"), ("in-progress objects", "fsck.py check_objects_*")],
  ["tree dump after fsck and remount from the crash snapshot"])

p("C07", "Stale or concurrently mounted metadata is never silently used",
  "A mount refuses to start unless the file system was cleanly unmounted (or has been checked since) and uses the most recent metadata known to either the machine or the backend; local metadata older than the backend's is never used. "
  "From the moment a mount has succeeded until it is cleanly unmounted, every other attempt to mount is refused, and a check refuses to touch it from another machine unless the user explicitly overrides. "
  "The metadata revision number stored in the backend never goes backwards.",
  ["histories", "crash_points", "configurations"], "for every sequence of mounts, unmounts, crashes, backups and checks performed by several machines sharing a backend",
  "Tests of mount and fsck parameter handling are limited to a few fixed states; multi-machine histories with crashes between the parameter updates are not generated.",
  ["src/s3ql/mount.py", "src/s3ql/fsck.py", "src/s3ql/database.py"],
  [("sequence numbers and is_mounted flag", "database.py FsAttributes, mount.py get_metadata, fsck.py fsck")],
  ["exit status of mount/fsck", "parameters in backend and cache directory"])

p("C08", "Every metadata backup restores exactly the state it recorded",
  "Once a metadata backup has completed, downloading that revision reproduces bit for bit the database content at the time of that backup, also after later changes, later partial or complete backups, growth, shrinkage and later expiry runs, as long as the revision is still listed. "
  "A revision that cannot be reproduced exactly is reported as damaged rather than returned. "
  "Expiry keeps the most recent revisions restorable and removes no block that any kept revision needs.",
  ["histories", "configurations"], "for every history of database changes, partial uploads, completed backups, database size changes and expiry runs and every metadata block size",
  "t1_database.py replays a handful of fixed version layouts for expiry and two or three hand-made upload histories.",
  ["src/s3ql/database.py", "src/s3ql/sqlite3ext.pyx", "src/s3ql/_sqlite3ext.cpp", "src/s3ql/mount.py"],
  [("dirty-block tracking", "sqlite3ext write tracker"), ("incremental upload", "database.py upload_metadata"), ("version selection", "database.py download_metadata/get_block_objects"), ("expiry", "database.py expire_objects")],
  ["bytes of the downloaded database vs. recorded snapshot"])

p("C09", "The file system check always ends in a consistent, stable state",
  "For every possible inconsistency of the metadata with itself, with the local cache or with the objects in the backend, the check terminates and leaves a file system in which every reference resolves, every reference count is exact and metadata, cache and backend agree. "
  "Running the check again immediately reports no errors and changes nothing, and a consistent file system is never reported as erroneous.",
  ["inputs", "configurations"], "for every combination of missing, dangling, duplicated or miscounted rows in the metadata, leftover cache files and missing or surplus backend objects",
  "t3_fsck.py injects one defect at a time into a tiny database; combinations (which interact between check phases) are not explored.",
  ["src/s3ql/fsck.py"],
  [("ordered check phases", "fsck.py Fsck.check")],
  ["database dump, backend listing, found_errors flag after first and second run"])

p("C10", "The file system check never destroys undamaged data",
  "Whatever else is broken, every file that is intact before the check (its entry, inode, blocks and objects all agree) is still reachable under the same path with the same content and attributes afterwards. "
  "Files or blocks that are not intact but still hold recoverable content are kept, if necessary under lost+found, and files with lost blocks are moved to lost+found instead of silently returning wrong data; only objects and rows that nothing refers to are discarded.",
  ["inputs", "configurations"], "for every combination of damage as in C09 next to arbitrary undamaged files",
  "Existing tests assert the repair of the single injected defect but not that everything else survives.",
  ["src/s3ql/fsck.py"],
  [("lost+found handling", "fsck.py check_lof/move_obj/_lof helpers"), ("object and inode checks", "fsck.py check_objects_*/check_inodes_*")],
  ["tree dump before and after Fsck.check"])

p("C11", "Copied trees are exact independent snapshots; locked trees are immutable",
  "Replicating a directory tree produces a copy whose structure, attributes, extended attributes, hard-link structure and file contents equal the source at the time of the call, including data that was only just written, and from then on changes to either tree never show in the other. "
  "After a tree has been locked no operation can change, add or remove anything inside it except recursive removal, which removes exactly the named tree and nothing else.",
  ["schedules", "histories"], "for every tree shape, every cache state of the files in it, and every interleaving with other requests at the points where these long operations yield",
  "Tests copy small trees whose files were just opened, with no concurrent activity and no dirty-but-forgotten blocks; the yield points inside the long operations are not exercised.",
  ["src/s3ql/fs.py", "src/s3ql/block_cache.py"],
  [("copy_tree", "fs.py"), ("lock_tree", "fs.py"), ("remove_tree", "fs.py"), ("start_flush", "block_cache.py")],
  ["tree dump of source and copy through Operations"])

p("C12", "Lost or corrupted backend data yields I/O errors, never wrong data",
  "When the backend has lost or corrupted the object behind a block, every access to that block reports an I/O error, wrong or made-up data is never returned, and all other data remains readable. "
  "After such an event the file system accepts no further modification and the next unmount leaves it marked as needing a check, while data that was already written but not yet uploaded is still uploaded.",
  ["fault_sequences", "histories"], "for every set of lost or corrupted objects, every operation that touches them (read, partial write, truncate, open with truncation), in every order",
  "One FUSE-level test (not runnable here) damages one object and reads it; writes, truncations and later operations are not covered.",
  ["src/s3ql/fs.py", "src/s3ql/mount.py", "src/s3ql/block_cache.py"],
  [("failsafe mode", "fs.py _readwrite/setattr"), ("needs_fsck on unmount", "mount.py")],
  ["errno of handlers, parameters after unmount"])

p("C13", "Directory listing returns every entry exactly once",
  "Reading a directory in any number of steps returns every entry that existed during the whole listing exactly once and never returns an entry twice, whatever entries are created, renamed or removed in the same or other directories between the steps and at whatever position each step stops or restarts.",
  ["schedules", "histories"], "for every chunking of the listing and every interleaving of entry creation, removal and renaming between chunks",
  "The tests list a directory with at most one modification between two calls.",
  ["src/s3ql/fs.py"],
  [("readdir cursor", "fs.py readdir")],
  ["sequence of readdir replies"])

p("C14", "Tampering with encrypted objects is always detected",
  "With encryption enabled, reading an object returns exactly the data and metadata that a holder of the passphrase stored under that very name, or fails with an error: modified, truncated, extended or spliced payloads or headers, objects copied or renamed from another name, objects written under a different passphrase and unencrypted replacements are all rejected. "
  "Without tampering every stored object is returned unchanged for every size, compression setting and metadata content, and neither the data nor the metadata values appear in the backend in clear.",
  ["inputs", "histories", "configurations"], "for every stored object, every adversarial change to what the backend returns built from recorded objects and arbitrary bytes, and every compression algorithm",
  "t1_backends.py flips a few bytes in fixed places of small objects; combinations such as swapping headers and payloads between objects, or format downgrades, are mostly untested.",
  ["src/s3ql/backends/comprenc.py", "src/s3ql/backends/common.py"],
  [("object envelope", "comprenc.py AsyncComprencBackend"), ("metadata signature", "backends/common.py checksum_basic_mapping")],
  ["result of fetch/lookup/readinto_fh"])

p("C15", "The master key survives passphrase changes and crashes",
  "At every moment, including after a crash between any two storage operations of a passphrase change, the file system can be opened with the last passphrase whose change completed or with the one being set, and all stored data stays readable; after a completed change the old passphrase no longer opens it. "
  "Key recovery with the recorded master key always restores access, and a wrong passphrase never succeeds or alters anything.",
  ["crash_points", "histories"], "for every sequence of passphrase changes and recoveries, each possibly interrupted after any backend operation",
  "t4_adm.py changes the passphrase once on an empty bucket, without interruption.",
  ["src/s3ql/adm.py", "src/s3ql/common.py", "src/s3ql/mkfs.py"],
  [("change_passphrase / recover", "adm.py"), ("get_backend passphrase unwrapping", "common.py"), ("key copies", "s3ql_passphrase[_bak1-3] objects")],
  ["ability to open the backend with each passphrase"])

p("C16", "Storage backends act as an atomic name-to-bytes map",
  "Every backend behaves as a map from names to immutable values: a read returns the complete value and metadata of the last completed write of that name, a write that fails or is interrupted leaves the previous value in place, deleting an absent name succeeds, and operations on one name never affect another, for every legal name. "
  "Listing returns each stored name with the given prefix exactly once and no other, however many there are and however the server splits the listing; deleting many names reports exactly those not deleted.",
  ["inputs", "histories", "crash_points", "fault_sequences"], "for every sequence of store/read/delete/list/multi-delete calls over arbitrary names and sizes, every page size and every point of interruption",
  "t1_backends.py uses a few fixed names and at most a few objects per listing; interruption between the steps of a local write is not tested.",
  ["src/s3ql/backends/local.py", "src/s3ql/backends/s3c.py", "src/s3ql/backends/common.py", "src/s3ql/backends/swift.py", "src/s3ql/backends/gs.py"],
  [("temp file + rename", "local.py write_fh"), ("name escaping", "local.py escape/unescape"), ("list pagination", "s3c.py list"), ("parallel delete", "backends/common.py _ParallelDelete")],
  ["results of the backend API"])

p("C17", "Temporary failures are retried transparently; permanent ones surface",
  "Any finite series of temporary failures (dropped connections, timeouts, server errors, throttling, corrupted transfers) during a backend operation changes only its duration, never its result: no partial, duplicated or shifted data is stored or returned and no success is reported for an operation that did not take effect. "
  "A permanent failure is reported immediately and exactly once, and retrying stops once the configured time limit is exceeded, with the delay growing up to a bound and honouring a delay requested by the server.",
  ["fault_sequences", "inputs"], "for every operation, every finite sequence of temporary failures at any point of the exchange (before, during or after headers or body) followed by success or a permanent error",
  "t1_retry.py and mock-server tests inject one failure at one fixed place for a few operations.",
  ["src/s3ql/backends/common.py", "src/s3ql/backends/s3c.py", "src/s3ql/http.py"],
  [("retry decorator", "backends/common.py retry"), ("temporary-failure classification", "s3c.py is_temp_failure, http.py is_temp_network_error"), ("rewinding of buffers on retry", "s3c.py readinto_fh/write_fh")],
  ["server-side object state and returned bytes"])

p("C18", "Responses always belong to their request and connections stay bounded",
  "Each HTTP response returned to a caller belongs to the request that this caller sent, also after earlier requests on the same connection failed, were cancelled or had unread bodies, and each body is delivered completely and exactly as framed by the server or an error is raised. "
  "The number of simultaneously open requests never exceeds the configured limit, every waiting request eventually gets a connection when one is released or broken, and a closed or half-used connection is never handed out.",
  ["schedules", "fault_sequences"], "for every interleaving of concurrent requests, cancellations, errors and unread bodies over a bounded connection pool, and every fragmentation of the response stream",
  "t0_http.py runs single requests against a mock server; pool reuse after cancellation or partial reads under contention is not enumerated.",
  ["src/s3ql/http.py"],
  [("HTTPConnection state machine", "http.py HTTPConnection"), ("connection pool", "http.py Pool")],
  ["response ids seen by callers, connections seen by the server"])

p("C19", "Data verification reports exactly the damaged objects",
  "Verifying the stored data lists as missing exactly the objects that the metadata knows but the backend does not have, and as corrupted exactly those whose stored content is damaged or does not have the recorded size, and nothing else. "
  "The verdict does not depend on the number of parallel connections or on the order in which objects are processed.",
  ["inputs", "schedules"], "for every set of missing and damaged objects among any number of objects, every number of workers, with or without downloading data",
  "t3_verify.py damages one object at a time.",
  ["src/s3ql/verify.py", "src/s3ql/common.py"],
  [("parallel retrieval", "verify.py retrieve_objects")],
  ["missing / corrupted output files"])

p("C20", "Backup expiry keeps a backup for every age range",
  "The backup expiration tool keeps at most one chosen backup per configured age range plus those that are needed to fill older ranges later, never removes the most recent ones, and marks for removal exactly the backups no longer needed; regular runs with regular backups leave, for every configured age range, a backup of that age. "
  "Running it twice without a new backup removes nothing further.",
  ["histories", "configurations"], "for every schedule of backups and expire runs over any list of age ranges",
  "There are no tests of the expiry logic in the suite that runs here.",
  ["contrib/expire_backups.py"],
  [("process_backups", "contrib/expire_backups.py")],
  ["set of backups selected for removal"])

p("C21", "Block locks exclude each other and never get lost",
  "At most one task holds the lock for a given key at any time, tasks holding locks for different keys never block each other, and a release always lets some waiter proceed. "
  "A waiter that gives up (timeout or cancellation) leaves no trace: it never holds the lock afterwards and never prevents others from getting it.",
  ["schedules", "fault_sequences"], "for every interleaving of acquire, non-blocking acquire, acquire with timeout, cancellation and release by several tasks on several keys",
  "No test exercises the lock directly; block cache tests use it only incidentally.",
  ["src/s3ql/multi_lock.py"],
  [("MultiLock.acquire/acquire_nowait/release", "multi_lock.py")],
  ["who holds which key after each step"])

p("C22", "The cache index keeps exact order and content under iteration",
  "The ordered mapping used as cache index behaves like a mapping with a well-defined order under every sequence of insertion, replacement, removal, lookup and move-to-end operations. "
  "Iterating while the mapping is modified visits every entry that stays in place exactly once, never visits a removed one, and never crashes or loops.",
  ["histories", "schedules"], "for every interleaving of modifications with any number of suspended iterations",
  "t2_linked_dict.py checks a few fixed scripts with at most one concurrent modification.",
  ["src/s3ql/_linked_dict.py"],
  [("LinkedDict cursors", "_linked_dict.py mutable_values")],
  ["results of the mapping API"])

p("C23", "Parallel job runners process every job exactly once",
  "A parallel run over a list of jobs hands every job to exactly one worker, runs no more workers than requested, and returns only after all work has finished. "
  "If a worker or the producer fails, the failure is reported to the caller, no further jobs are started, and completed jobs are accounted for exactly.",
  ["schedules", "fault_sequences"], "for every number of jobs, workers and buffer slots, every order of completion and every position of a failure",
  "Users of the runner are tested with a couple of jobs and mostly one worker.",
  ["src/s3ql/common.py", "src/s3ql/backends/common.py"],
  [("ParallelPipeline.run", "common.py")],
  ["multiset of jobs started/finished"])

p("C24", "The local cache stays within its limits and counts correctly",
  "The amount of data and number of blocks kept in the local cache return to within the configured limits after every completed access whenever there is something that can be evicted, only blocks whose content is safely stored are dropped, and the reported usage (entries, dirty entries, sizes) always equals what is really there. "
  "A cache directory kept across mounts contains exactly the blocks that are still valid.",
  ["histories", "schedules", "configurations"], "for every cache size and entry limit and every sequence and interleaving of block accesses, truncations, removals, flushes and restarts",
  "t2_block_cache.py checks expiry for one size and one entry limit with sequential accesses.",
  ["src/s3ql/block_cache.py"],
  [("CacheDict size accounting", "block_cache.py CacheDict/CacheEntry"), ("expire", "block_cache.py evict/_expire"), ("keep_cache / load_cache", "block_cache.py destroy/load_cache")],
  ["files in the cache directory, get_usage()"])

with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
print(len(P))
