"""Concurrent driver for the real block cache; records traces for BlockTrace.tla."""
import hashlib, os, random
import boot
boot.setup()
import world, par
from world import *

BS = 8
PATS = [b'x' * 8, b'y' * 8, b'x' * 4, b'y', b'zzzz\0zzz', b'x' * 8, b'y' * 8]


class Stop(Exception):
    pass


class Injected(Exception):
    pass


class Rec:
    def __init__(self, w, keys, ntasks, lim):
        self.w, self.tr = w, []
        self.ids = {b'': 0}
        self.raw = {}
        self.keys = keys
        self.tr.append(dict(op='init', keys=[self.k(*x) for x in keys], tasks=ntasks, lim=lim))

    @staticmethod
    def k(i, n):
        return '%d-%d' % (i, n)

    def cid(self, b):
        b = bytes(b)
        c = self.ids.setdefault(b.rstrip(b'\0'), len(self.ids))
        self.raw[hashlib.sha256(b).digest()] = c
        return c

    def snap(self, quiet=False, crash=False, clean=False, usage=True):
        w = self.w
        files, size = [], 0
        for fn in sorted(os.listdir(w.cachedir)) if os.path.isdir(w.cachedir) else ():
            if fn.endswith('.tmp'):
                continue
            try:
                with open(os.path.join(w.cachedir, fn), 'rb') as fh:
                    b = fh.read()
            except FileNotFoundError:
                continue
            files.append(dict(k=fn, v=self.cid(b)))
            size += len(b)
        store = []
        for key in sorted(w.plain.data):
            if key.startswith('s3ql_data_'):
                store.append(dict(id=int(key[10:]), v=self.cid(w.plain.data[key][0])))
        hid = {}
        rows = [dict(id=r[0], hash=-1 if r[1] is None else self.raw.get(bytes(r[1]), -2), raw='' if r[1] is None else bytes(r[1]).hex()[:16],
                     ref=r[2], phys=r[3]) for r in w.db.get_list('SELECT id, hash, refcount, phys_size FROM objects')]
        mp = [dict(k='%d-%d' % (r[0], r[1]), o=r[2]) for r in w.db.get_list('SELECT inode, blockno, obj_id FROM inode_blocks')]
        return dict(op='snap', quiet=quiet, crash=crash, clean=clean, files=files, bytes=size, store=store, rows=rows, map=mp,
                    usage=list(w.cache.get_usage()[:4]) if usage else [0, 0, 0, 0])


async def ticks(n):
    for _ in range(n):
        await trio.lowlevel.checkpoint()


async def run(seed, ntasks=3, nops=12, cache_size=24, max_entries=3, slow=12, fail=0.0, failread=0.0, inodes=2, nblocks=3,
              remount=False, script=None, connections=2):
    rng = random.Random(seed)
    keys = [(i + 2, n) for i in range(inodes) for n in range(nblocks)]
    clock = Clock()
    d = boot.scratch('bc')
    world.inline_threads()
    orig_rs = trio.to_thread.run_sync

    async def run_sync(fn, *a, **kw):
        await ticks(rng.randrange(4))
        return await orig_rs(fn, *a, **kw)
    trio.to_thread.run_sync = run_sync
    plain = MemBackend(None, connections)
    rec = None
    state = dict(active=0, dead=False)
    locks = {i: trio.Lock() for i, _ in keys}
    injected = set()

    async def gate(op, key, phase):
        await ticks(rng.randrange(slow) + 1)
        if phase == 0 and op == 'write' and key.startswith('s3ql_data_') and fail and rng.random() < fail:
            state['dead'] = True
            raise Injected('upload of %s' % key)
        if phase == 0 and op == 'read' and failread and rng.random() < failread:
            raise Injected('read of %s' % key)
        if op == 'delete' and phase == 1:
            rec.tr.append(dict(op='del', id=int(key[10:]), snap=rec.snap(usage=False)))
    plain.gate = gate

    async def access(w, t, i, n, kind, pat=None, off=0, mw=None):
        k = rec.k(i, n)
        try:
            async with w.cache.get(i, n, mw) as fh:
                fh.seek(0)
                val = rec.cid(fh.read(1000))
                new = -1
                if kind == 'w':
                    fh.seek(off)
                    fh.write(pat)
                elif kind == 't':
                    fh.truncate(off)
                if kind != 'r':
                    fh.seek(0)
                    new = rec.cid(fh.read(1000))
                rec.tr.append(dict(op='acc', t=t, k=k, val=val, new=new))
        except Injected:
            rec.tr.append(dict(op='accerr', k=k, injected=True))

    async def one(w, t, o):
        kind = o[0]
        if kind in ('r', 'w', 't'):
            _, i, n, pat, off = o
            mw = None
            if kind == 'w':
                pat = pat[:BS - off]
                mw = off + len(pat)
                async with locks[i]:
                    await access(w, t, i, n, 'w', pat, off, mw)
            elif kind == 't':
                async with locks[i]:
                    await access(w, t, i, n, 't', None, off)
            else:
                await access(w, t, i, n, 'r', mw=0 if pat else None)
        elif kind == 'rm':
            _, i, a, b = o
            async with locks[i]:
                rec.tr.append(dict(op='rmcall', t=t, keys=[rec.k(i, n) for n in range(a, b) if (i, n) in keys]))
                await w.cache.remove(i, a, b)
                rec.tr.append(dict(op='rmret', t=t))
        elif kind == 'copy':
            # what replication does: blocks of one inode additionally referenced by another inode
            _, i, j = o
            async with locks[i], locks[j]:
                ks = [n for (x, n) in keys if x == j]
                rec.tr.append(dict(op='rmcall', t=t, keys=[rec.k(j, n) for n in ks]))
                await w.cache.remove(j, 0, max(ks) + 1)
                rec.tr.append(dict(op='rmret', t=t))
                rec.tr.append(dict(op='flcall', t=t))
                await w.cache.start_flush(i)
                ok = all(not [f for f in os.listdir(w.cachedir) if f == rec.k(j, n)] for n in ks)
                rec.tr.append(dict(op='flret', t=t, kind='start', keys=[rec.k(i, n) for (x, n) in keys if x == i], snap=rec.snap(usage=False)))
        elif kind == 'flush':
            rec.tr.append(dict(op='flcall', t=t))
            await w.cache.flush()
            rec.tr.append(dict(op='flret', t=t, kind='flush', keys=[rec.k(*x) for x in keys], snap=rec.snap(usage=False)))
        elif kind == 'drop':
            rec.tr.append(dict(op='flcall', t=t))
            await w.cache.drop()
            rec.tr.append(dict(op='flret', t=t, kind='flush', keys=[rec.k(*x) for x in keys], snap=rec.snap(usage=False)))
        elif kind == 'start':
            _, i = o
            rec.tr.append(dict(op='flcall', t=t))
            await w.cache.start_flush(i)
            rec.tr.append(dict(op='flret', t=t, kind='start', keys=[rec.k(x, n) for (x, n) in keys if x == i], snap=rec.snap(usage=False)))
        rec.tr.append(rec.snap())

    def pick():
        i, n = rng.choice(keys)
        x = rng.random()
        if x < 0.30:
            return ('r', i, n, rng.random() < 0.5, 0)
        if x < 0.66:
            off = rng.choice((0, 0, 0, 0, 4, 2))
            return ('w', i, n, rng.choice(PATS), off)
        if x < 0.70:
            return ('t', i, n, None, rng.randrange(BS))
        if x < 0.80:
            a = rng.randrange(nblocks)
            return ('rm', i, a, rng.randrange(a, nblocks) + 1)
        if x < 0.87:
            return ('flush',)
        if x < 0.92:
            return ('drop',)
        return ('start', i)

    async def task(w, t, ops):
        try:
            for o in ops:
                if state['dead']:
                    return
                await ticks(rng.randrange(3))
                await one(w, t, o)
        finally:
            state['active'] -= 1
            if 'done' in state and not state['active']:
                state['done'].set()

    async def quiesce(w):
        await w.settle()

    async def body(remounted, db, cachedir):
        nonlocal rec
        async with trio.open_nursery() as n:
            w = FsWorld()
            w.dir, w.own_dir, w.clock, w.bs = d, True, clock, BS
            w.plain = plain
            AsyncComprencBackend.set_max_threads(1)
            w.backend = await AsyncComprencBackend.create(None, NONE, plain)
            w.db, w.cachedir, w.nursery = db, cachedir, n
            w.cache = await BlockCache.create(w.backend, db, cachedir, cache_size, max_entries, nursery=n)

            class Fs:
                failsafe = False
            w.cache.fs = Fs()
            w.ops = None
            if rec is None:
                rec = Rec(w, keys, ntasks, dict(entries=max_entries, size=cache_size, tasks=ntasks, bs=BS))
            rec.w = w
            tasks = script or [[pick() for _ in range(nops)] for _ in range(ntasks)]
            state['active'] = len(tasks)
            for t, ops in enumerate(tasks):
                n.start_soon(task, w, t + 1, ops)
            if state['active']:
                state['done'] = trio.Event()
                with trio.move_on_after(3600):
                    await state['done'].wait()
            if state['active'] and not state['dead']:
                rec.tr.append(dict(op='stuck'))
                for el in w.cache.cache.values():
                    el.dirty = False
                n.cancel_scope.cancel()
                return
            if state['dead']:
                await trio.sleep_forever()
            await quiesce(w)
            rec.tr.append(rec.snap(quiet=True))
            await w.cache.flush()
            await quiesce(w)
            rec.tr.append(rec.snap(quiet=True, clean=True))
            keep = remount and not remounted
            if keep:
                await w.cache.destroy(keep_cache=True)
            else:
                for k in keys:
                    await access(w, 1, k[0], k[1], 'r')
                await w.cache.drop()
                ks = keys[:min(max_entries, cache_size // BS)]
                n0 = len(rec.tr)
                for k in ks:
                    await access(w, 1, k[0], k[1], 'r')
                if not any(e['op'] == 'accerr' for e in rec.tr[n0:]):
                    rec.tr.append(dict(op='kept', keys=[rec.k(*k) for k in ks], files=rec.snap(usage=False)['files']))
                await w.cache.drop()
                await quiesce(w)
                rec.tr.append(rec.snap(quiet=True, clean=True))
                await w.cache.destroy()
            state['closed'] = True
        return

    db = None
    try:
        db = Connection(os.path.join(d, 'db'), 4096)
        create_tables(db)
        clock.start()
        init_tables(db)
        clock.stop()
        for r in range(2 if remount else 1):
            try:
                await body(r == 1, db, os.path.join(d, 'cache'))
            except BaseException as exc:
                if state['dead'] and not isinstance(exc, par.WallHang):
                    rec.tr.append(rec.snap(crash=True, usage=False))
                    try:
                        for el in rec.w.cache.cache.values():
                            el.dirty = False
                    except Exception:
                        pass
                    break
                if isinstance(exc, par.WallHang):
                    raise
                import report
                if not report.from_code_under_test(exc):
                    raise
                rec.tr.append(dict(op='exception', text=report.describe(exc)))
                break
    finally:
        trio.to_thread.run_sync = orig_rs
        if db is not None:
            try:
                db.close()
            except Exception:
                pass
        shutil.rmtree(d, ignore_errors=True)
    return rec.tr


def record(job):
    seed, kw = job
    return run_trio(lambda: run(seed, **kw), seed=seed, timeout=20000, clock=trio.testing.MockClock(autojump_threshold=0))


def run_many(jobs):
    out = []
    for j, r in zip(jobs, par.pmap(record, jobs)):
        if isinstance(r, (par.Failed, par.Died)):
            if isinstance(r, par.Failed) and not (r.code or r.hang):
                raise RuntimeError(r.tb)
            r = [dict(op='init', keys=[], tasks=1, lim=dict(entries=1, size=1, tasks=1, bs=1)),
                 dict(op='exception', text=getattr(r, 'text', 'process died'))]
        out.append(r)
    return out
