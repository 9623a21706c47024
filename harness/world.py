"""Real s3ql file systems (request handlers + block cache + database + backend) under harness control."""
import asyncio, bisect, errno, io, os, random, shutil, sqlite3, time
import boot
boot.setup()
import trio, trio.testing
import pyfuse3
from pyfuse3 import FUSEError
import s3ql
from s3ql.backends import common as bcommon
from s3ql.backends.common import NoSuchObject
from s3ql.backends.comprenc import AsyncComprencBackend
from s3ql.authinfo import CompressAlgorithm, CompressSpec
from s3ql.block_cache import BlockCache
from s3ql.database import Connection, create_tables, FsAttributes
from s3ql.mkfs import init_tables
from s3ql import fs as fsmod, inode_cache as icmod
from s3ql.inode_cache import InodeCache
from s3ql import CTRL_INODE, ROOT_INODE

ZLIB = CompressSpec(algorithm=CompressAlgorithm.ZLIB, level=1)
NONE = CompressSpec(algorithm=CompressAlgorithm.NONE, level=0)

NAMES = {'a': b'a', 'b': b'b', 'c': b'\xc3\xa4 \xff', 'd': b'd' * 255, 'e': b'e.txt', 'lost+found': b'lost+found',
         'f': b'\x01\n', 'g': b'user.g', 'A': b'A', 'aa': b'aa', '': b''}
REV = {v: k for k, v in NAMES.items()}


def enc_name(n):
    return NAMES[n] if n in NAMES else n.encode()


def dec_name(b):
    b = bytes(b)
    if b in REV:
        return REV[b]
    try:
        return b.decode('ascii')
    except UnicodeDecodeError:
        return b.hex()


class MemBackend(bcommon.AsyncBackend):
    """Plain in-memory backend. *gate* (if set) is awaited as gate(op, key, phase)."""

    def __init__(self, store=None, connections=2):
        self.data = {} if store is None else store
        self._conn = connections
        self.gate = None
        self.log = []

    @property
    def max_connections(self):
        return self._conn

    def is_temp_failure(self, exc):
        return False

    async def _g(self, op, key, phase):
        if self.gate is not None:
            await self.gate(op, key, phase)
        else:
            await trio.lowlevel.checkpoint()

    async def lookup(self, key):
        await self._g('lookup', key, 0)
        if key not in self.data:
            raise NoSuchObject(key)
        return dict(self.data[key][1])

    async def get_size(self, key):
        if key not in self.data:
            raise NoSuchObject(key)
        return len(self.data[key][0])

    async def readinto_fh(self, key, fh):
        await self._g('read', key, 0)
        if key not in self.data:
            raise NoSuchObject(key)
        (d, m) = self.data[key]
        fh.write(d)
        await self._g('read', key, 1)
        return dict(m)

    async def write_fh(self, key, fh, metadata=None):
        await self._g('write', key, 0)
        fh.seek(0)
        d = fh.read()
        self.data[key] = (d, dict(metadata or {}))
        self.log.append(('write', key))
        await self._g('write', key, 1)
        return max(1, len(d))

    async def delete(self, key):
        await self._g('delete', key, 0)
        self.data.pop(key, None)
        self.log.append(('delete', key))
        await self._g('delete', key, 1)

    async def list(self, prefix=''):
        for k in sorted(self.data):
            if k.startswith(prefix):
                await trio.lowlevel.checkpoint()
                yield k


def inline_threads():
    """Run trio.to_thread.run_sync calls inline (with a schedule point), for reproducible schedules."""
    async def run_sync(fn, *a, **kw):
        kw.pop('limiter', None); kw.pop('cancellable', None); kw.pop('abandon_on_cancel', None); kw.pop('thread_name', None)
        await trio.lowlevel.checkpoint()
        return fn(*a)
    trio.to_thread.run_sync = run_sync


class Ctx:
    def __init__(self, uid, gid):
        self.uid, self.gid, self.pid, self.umask = uid, gid, 1, 0


class Fields:
    def __init__(self, names):
        for f in ('atime', 'mtime', 'ctime', 'mode', 'uid', 'gid', 'size'):
            setattr(self, 'update_' + f, f in names)


class Clock:
    """Maps real time stamps to the number of the request during which they were taken."""
    BASE = 1000000

    def __init__(self):
        self.t0, self.t1 = [], []

    def start(self):
        if self.t1:
            while time.time_ns() <= self.t1[-1]:
                pass
        self.t0.append(time.time_ns())
        self.t1.append(2**62)
        return self.now()

    def stop(self):
        while time.time_ns() <= self.t0[-1]:
            pass
        self.t1[-1] = time.time_ns()

    def now(self):
        return self.BASE + len(self.t0) - 1

    def map(self, ns):
        if 0 <= ns < self.BASE:
            return ns
        k = bisect.bisect_right(self.t0, ns) - 1
        if k >= 0 and self.t0[k] <= ns <= self.t1[k]:
            return self.BASE + k
        return -1


_ERR = {getattr(errno, n): n for n in ('ENOENT', 'EPERM', 'EISDIR', 'ENOTDIR', 'ENOTEMPTY', 'EINVAL', 'EIO',
                                        'EACCES', 'ENOTSUP', 'EOPNOTSUPP', 'ENOTTY')}
_ERR[pyfuse3.ENOATTR] = 'ENOATTR'


def err_name(e):
    return _ERR.get(e.errno, 'E%d' % e.errno)


class _Invalidations:
    log = []


pyfuse3.invalidate_inode = lambda ino, attr_only=False: _Invalidations.log.append(('inode', ino))
pyfuse3.invalidate_entry_async = lambda p, n, deleted=0, ignore_enoent=False: _Invalidations.log.append(('entry', p, n))
pyfuse3.invalidate_entry = lambda p, n, deleted=0: _Invalidations.log.append(('entry', p, n))


class FsWorld:
    """One mounted file system; use as: async with trio.open_nursery() as n: w = await FsWorld.mk(n, ...)"""

    @classmethod
    async def mk(cls, nursery, *, bs=8, cache_size=10**6, max_entries=100, inode_cache=100, store=None,
                 passphrase=None, compress=NONE, connections=2, dir=None, clock=None, db=None, cachedir=None,
                 batch=None, backend=None):
        w = cls()
        w.dir = dir or boot.scratch('fs')
        w.own_dir = dir is None
        w.clock = clock or Clock()
        w.bs = bs
        icmod.CACHE_SIZE = inode_cache
        w.plain = backend or MemBackend(store, connections)
        AsyncComprencBackend.set_max_threads(2)
        w.backend = await AsyncComprencBackend.create(passphrase, compress, w.plain)
        w.dbfile = os.path.join(w.dir, 'db')
        w.cachedir = cachedir or os.path.join(w.dir, 'cache')
        w.fresh = db is None
        if db is None:
            db = Connection(w.dbfile, 4096)
            create_tables(db)
            w.clock.start()
            init_tables(db)
            w.clock.stop()
        w.db = db
        if batch:
            orig = db.batch

            def small_batches(dt):
                m = orig(dt)
                for name in ('start_batch', 'finish_batch'):
                    def wrap(f):
                        async def g(*a, **kw):
                            r = await f(*a, **kw)
                            m.batch_size = batch
                            return r
                        return g
                    setattr(m, name, wrap(getattr(m, name)))
                m.batch_size = batch
                return m
            try:
                db.batch = small_batches
            except AttributeError:
                pass
        w.nursery = nursery
        w.cache = await BlockCache.create(w.backend, db, w.cachedir, cache_size, max_entries, nursery=nursery)
        w.ops = fsmod.Operations(w.cache, db, bs, InodeCache(db, 0))
        w.cache.fs = w.ops
        w.ops.init()
        w.ctx = Ctx(0, 0)
        return w

    async def close(self):
        await self.ops.destroy()
        await self.cache.destroy()
        self.db.close()
        self.rmdir()

    async def close_and_fsck(self):
        """Orderly shutdown followed by a real file system check of what was left; True if it found errors."""
        from s3ql.fsck import Fsck
        await self.ops.destroy()
        await self.cache.destroy()
        await self.settle()      # worker tasks drain their queues
        log = []
        f = Fsck(self.cachedir, self.backend, FsAttributes(data_block_size=self.bs, metadata_block_size=4096), self.db)
        f.log_error = lambda msg, *a, **kw: log.append(str(msg) % (a[0] if len(a) == 1 and isinstance(a[0], dict) else a) if a else str(msg))
        await f.check()
        self.db.close()
        self.rmdir()
        return bool(f.found_errors), log

    def abandon(self):
        """Simulated process death: silence destructors."""
        try:
            for el in self.cache.cache.values():
                el.dirty = False
                el.close()
        except Exception:
            pass
        try:
            for i in list(self.ops.inodes.attrs.values()):
                i.dirty = False
            self.ops.inodes.attrs.clear()
        except Exception:
            pass

    def rmdir(self):
        if self.own_dir:
            shutil.rmtree(self.dir, ignore_errors=True)

    async def settle(self):
        await trio.testing.wait_all_tasks_blocked(0.0)

    # ------------------------------------------------------------ one request
    def attr(self, a):
        c = self.clock.map
        return dict(ino=a.st_ino, mode=a.st_mode, nlink=a.st_nlink, uid=a.st_uid, gid=a.st_gid, size=a.st_size,
                    rdev=a.st_rdev, at=c(a.st_atime_ns), mt=c(a.st_mtime_ns), ct=c(a.st_ctime_ns), blocks=a.st_blocks)

    async def do(self, e):
        """Execute request *e* (dict) on the real handlers; fills in e['now'], e['res'], e['new']."""
        e = dict(e)
        e['now'] = self.clock.start()
        e['new'] = 0
        try:
            res = await self._do(e)
            res = dict(err='', **res)
        except FUSEError as exc:
            res = dict(err=err_name(exc))
        finally:
            self.clock.stop()
        for k in ('attr',):
            if k in res:
                res[k] = self.attr(res[k])
        if 'ents' in res:
            res['ents'] = [dict(n=n, attr=self.attr(a)) for n, a in res['ents']]
        e['res'] = res
        if e['op'] in ('mknod', 'mkdir', 'symlink', 'create') and 'attr' in res:
            e['new'] = res['attr']['ino']
        return e

    async def _do(self, e):
        o, op = self.ops, e['op']
        ctx = Ctx(e.get('uid', 0), e.get('gid', 0))
        n = enc_name(e['n']) if 'n' in e else None
        if op == 'lookup':
            return dict(attr=await o.lookup(e['p'], n if e['n'] not in ('.', '..') else e['n'].encode(), ctx))
        if op == 'getattr':
            return dict(attr=await o.getattr(e['i'], ctx))
        if op == 'setattr':
            a = pyfuse3.EntryAttributes()
            m = {'mode': 'st_mode', 'uid': 'st_uid', 'gid': 'st_gid', 'at': 'st_atime_ns', 'mt': 'st_mtime_ns', 'size': 'st_size'}
            for k, v in e['set'].items():
                setattr(a, m[k], v)
            f = Fields({{'at': 'atime', 'mt': 'mtime'}.get(k, k) for k in e['set']})
            return dict(attr=await o.setattr(e['i'], a, f, e.get('fh'), ctx))
        if op == 'mknod':
            return dict(attr=await o.mknod(e['p'], n, e['mode'], e['rdev'], ctx))
        if op == 'mkdir':
            return dict(attr=await o.mkdir(e['p'], n, e['mode'], ctx))
        if op == 'symlink':
            return dict(attr=await o.symlink(e['p'], n, bytes(e['target']), ctx))
        if op == 'readlink':
            return dict(data=list(await o.readlink(e['i'], ctx)))
        if op in ('open', 'create'):
            fl = {'r': os.O_RDONLY, 'w': os.O_WRONLY, 'rw': os.O_RDWR}[e['flags']] | (os.O_TRUNC if e['trunc'] else 0)
            if op == 'open':
                fi = await o.open(e['i'], fl, ctx)
                return {}
            (fi, a) = await o.create(e['p'], n, e['mode'], fl | os.O_CREAT, ctx)
            return dict(attr=a)
        if op == 'read':
            return dict(data=list(await o.read(e['i'], e['off'], e['len'])))
        if op == 'write':
            return dict(len=await o.write(e['i'], e['off'], bytes(e['data'])))
        if op == 'unlink':
            await o.unlink(e['p'], n, ctx); return {}
        if op == 'rmdir':
            await o.rmdir(e['p'], n, ctx); return {}
        if op == 'rename':
            await o.rename(e['p'], n, e['p2'], enc_name(e['n2']), 0, ctx); return {}
        if op == 'link':
            return dict(attr=await o.link(e['i'], e['p'], n, ctx))
        if op == 'setxattr':
            await o.setxattr(e['i'], n, bytes(e['data']), ctx); return {}
        if op == 'getxattr':
            return dict(data=list(await o.getxattr(e['i'], n, ctx)))
        if op == 'listxattr':
            return dict(names=[dec_name(x) for x in await o.listxattr(e['i'], ctx)])
        if op == 'removexattr':
            await o.removexattr(e['i'], n, ctx); return {}
        if op == 'readdir':
            return dict(ents=await self.readdir(e['i'], e.get('chunk', 0)))
        if op == 'forget':
            await o.forget([(e['i'], e['len'])]); return {}
        if op == 'fsync':
            await o.fsync(e['i'], False); return {}
        if op == 'release':
            await o.flush(e['i']); await o.release(e['i']); return {}
        if op == 'access':
            await o.access(e['i'], 7, ctx); return {}
        if op == 'flushcache':
            await o.setxattr(CTRL_INODE, b's3ql_flushcache!', b'dummy', ctx); return {}
        if op == 'dropcache':
            await o.setxattr(CTRL_INODE, b's3ql_dropcache!', b'dummy', ctx); return {}
        if op == 'idle':
            await self.settle(); return {}
        if op == 'locktree':
            await o.setxattr(CTRL_INODE, b'lock', ('%d' % e['i']).encode(), ctx); return {}
        if op == 'rmtree':
            await o.setxattr(CTRL_INODE, b'rmtree', ('(%d, %r)' % (e['p'], n)).encode(), ctx); return {}
        if op == 'copytree':
            await o.setxattr(CTRL_INODE, b'copy', ('(%d, %d)' % (e['i'], e['p'])).encode(), ctx)
            return {}
        if op == 'extstat':
            import struct
            v = struct.unpack('QQQQQQQQQQQQ', await o.getxattr(CTRL_INODE, b's3qlstat', ctx))
            return dict(entries=v[0], inodes=v[2], fssize=v[3])
        raise KeyError(op)

    async def readdir(self, i, chunk):
        out, off = [], 0
        fh = await self.ops.opendir(i, self.ctx)
        while True:
            got = []

            def reply(token, name, attr, next_id):
                if chunk and len(got) >= chunk:
                    return False
                got.append((dec_name(name), attr, next_id))
                return True
            pyfuse3.readdir_reply = reply
            await self.ops.readdir(fh, off, None)
            if not got:
                break
            out += [(n, a) for n, a, _ in got]
            off = got[-1][2]
            if len(out) > 5000:
                raise AssertionError('endless directory listing')
        await self.ops.releasedir(fh)
        return out

    # ------------------------------------------------------------- observation
    async def dump(self, full=True):
        """Tables of the database plus (decoded) content of the backend."""
        d = dump_db(lambda q: self.db.get_list(q), self.clock)
        d['op'] = 'dump'
        d['full'] = full
        d['keys'], d['store'] = [], []
        if full:
            (d['keys'], d['store']) = await dump_store(self.backend)
        return d


def dump_db(q, clock):
    c = clock.map if clock else (lambda x: 0)
    h = {}
    d = {}
    d['names'] = [dict(id=r[0], name=dec_name(r[1]), ref=r[2]) for r in q('SELECT id, name, refcount FROM names ORDER BY id')]
    d['contents'] = [dict(nid=r[0], ino=r[1], par=r[2]) for r in q('SELECT name_id, inode, parent_inode FROM contents ORDER BY rowid')]
    d['inodes'] = [dict(id=r[0], mode=r[1], nlink=r[2], uid=r[3], gid=r[4], size=r[5], rdev=r[6], locked=bool(r[7]),
                        at=c(r[8]), mt=c(r[9]), ct=c(r[10])) for r in
                   q('SELECT id, mode, refcount, uid, gid, size, rdev, locked, atime_ns, mtime_ns, ctime_ns FROM inodes ORDER BY id')]
    d['blocks'] = [dict(ino=r[0], no=r[1], obj=r[2]) for r in q('SELECT inode, blockno, obj_id FROM inode_blocks ORDER BY inode, blockno')]
    d['objects'] = [dict(id=r[0], h=bytes(r[1]).hex() if r[1] is not None else '', ref=r[2], phys=r[3], len=r[4])
                    for r in q('SELECT id, hash, refcount, phys_size, length FROM objects ORDER BY id')]
    d['xattrs'] = [dict(ino=r[0], nid=r[1], val=list(r[2])) for r in q('SELECT inode, name_id, value FROM ext_attributes')]
    d['links'] = [dict(ino=r[0], target=list(r[1])) for r in q('SELECT inode, target FROM symlink_targets')]
    return d


async def dump_store(backend):
    keys, store = [], []
    async for k in backend.list('s3ql_data_'):
        i = int(k[len('s3ql_data_'):])
        keys.append(i)
        b = io.BytesIO()
        try:
            await backend.readinto_fh(k, b)
            store.append(dict(id=i, data=list(b.getvalue())))
        except Exception as exc:
            store.append(dict(id=i, data=[-2]))
    return keys, store


class Hang(Exception):
    pass


def run_trio(fn, *a, seed=0, timeout=60, clock=None):
    boot.seed_trio(seed)

    async def main():
        with trio.move_on_after(timeout) as cs:
            return await fn(*a)
        raise Hang('no progress within %d s' % timeout)
    return trio.run(main, clock=clock)
