"""Generates request sequences that a kernel could issue and records the real replies."""
import random, stat
import boot
import world
from world import FsWorld, run_trio, inline_threads
import trio
from trio.testing import MockClock

inline_threads()
S_IFREG, S_IFDIR, S_IFIFO, S_IFBLK, S_IFCHR, S_IFSOCK = 0o100000, 0o040000, 0o010000, 0o060000, 0o020000, 0o140000


class Mirror:
    """What the (simulated) kernel knows: entries, types and lookup counts. Used for generation only."""

    def __init__(self):
        self.dent, self.type, self.nlink, self.look, self.locked, self.size = {}, {}, {}, {}, set(), {}
        self.xa = {}

    def known(self, pred=lambda i: True):
        return [i for i, c in self.look.items() if c > 0 and i in self.type and pred(i)]

    def isdir(self, i):
        return self.type.get(i) == S_IFDIR

    def children(self, i):
        return [k for k in self.dent if k[0] == i]

    def reach(self, i):
        out, todo = {i}, [i]
        while todo:
            x = todo.pop()
            for k in self.children(x):
                j = self.dent[k]
                if j not in out:
                    out.add(j); todo.append(j)
        return out

    def gc(self, i):
        if self.nlink.get(i) == 0 and self.look.get(i, 0) == 0:
            for d in (self.type, self.nlink, self.look, self.size, self.xa):
                d.pop(i, None)

    def add_look(self, i, n=1):
        self.look[i] = self.look.get(i, 0) + n

    def see(self, a):
        self.type[a['ino']] = a['mode'] & 0o170000
        self.nlink[a['ino']] = a['nlink']
        self.size[a['ino']] = a['size']

    def update(self, e):
        r, op = e['res'], e['op']
        if r['err']:
            return
        if 'attr' in r:
            self.see(r['attr'])
        if op == 'lookup':
            self.add_look(r['attr']['ino'])
        elif op in ('mknod', 'mkdir', 'symlink', 'create', 'link'):
            self.dent[(e['p'], e['n'])] = r['attr']['ino']
            self.add_look(r['attr']['ino'])
        elif op in ('unlink', 'rmdir'):
            i = self.dent.pop((e['p'], e['n']))
            self.nlink[i] -= 1
            self.gc(i)
        elif op == 'rename':
            i = self.dent.pop((e['p'], e['n']))
            j = self.dent.get((e['p2'], e['n2']))
            self.dent[(e['p2'], e['n2'])] = i
            if j is not None:
                self.nlink[j] -= 1
                self.gc(j)
        elif op == 'forget':
            self.look[e['i']] -= e['len']
            if self.look[e['i']] == 0:
                del self.look[e['i']]
            self.gc(e['i'])
        elif op == 'readdir':
            for x in r['ents']:
                self.see(x['attr'])
                self.add_look(x['attr']['ino'])
        elif op == 'locktree':
            self.locked |= self.reach(e['i'])
        elif op == 'rmtree':
            i0 = self.dent[(e['p'], e['n'])]
            S = self.reach(i0)
            gone = [k for k in self.dent if k[0] in S] + [(e['p'], e['n'])]
            tg = [self.dent[k] for k in gone]
            for k in gone:
                self.dent.pop(k, None)
            for j in tg:
                self.nlink[j] -= 1
            for j in set(tg):
                self.gc(j)
        elif op == 'copytree':
            m = {a: b for a, b in e['map']}
            S = self.reach(e['i'])
            im = lambda x: e['p'] if x == e['i'] else m[x]
            for k in [k for k in self.dent if k[0] in S]:
                self.dent[(im(k[0]), k[1])] = im(self.dent[k])
            for a, b in m.items():
                self.type[b] = self.type[a]
                self.size[b] = self.size.get(a, 0)
                self.nlink[b] = sum(1 for k in self.dent if self.dent[k] == b)
        elif op in ('write',):
            self.size[e['i']] = max(self.size.get(e['i'], 0), e['off'] + len(e['data']))
        elif op == 'setxattr':
            self.xa.setdefault(e['i'], set()).add(e['n'])


class Gen:
    def __init__(self, rng, bs, names, weights, trees=True, maxfile=48):
        self.r, self.bs, self.names, self.m = rng, bs, names, Mirror()
        self.w, self.trees, self.maxfile = weights, trees, maxfile

    def buf(self, n):
        r = self.r
        k = r.random()
        if k < 0.5:
            return [r.choice((0, 1, 2))] * n
        if k < 0.8:
            return [1 + (j % self.bs) for j in range(n)]
        return [r.randrange(256) for _ in range(n)]

    def off(self):
        r = self.r
        k = r.random()
        if k < 0.4:
            return self.bs * r.randrange(0, 5)
        if k < 0.6:
            return max(0, self.bs * r.randrange(1, 5) - 1)
        return r.randrange(0, self.maxfile)

    def pick(self):
        m, r = self.m, self.r
        dirs = m.known(lambda i: m.isdir(i) and m.nlink.get(i, 0) > 0) or [1]
        files = m.known(lambda i: m.type[i] == S_IFREG)
        anyi = m.known()
        ops = list(self.w)
        for _ in range(60):
            op = r.choices(ops, [self.w[o] for o in ops])[0]
            p = r.choice(dirs)
            n = r.choice(self.names)
            ent = list(m.dent)
            uid, gid = r.choice(((0, 0), (5, 6), (1000, 100)))
            if op == 'lookup':
                if ent and r.random() < 0.8:
                    (p, n) = r.choice(ent)
                    if not m.look.get(p):
                        continue
                k = r.random()
                if k < 0.05:
                    n = '.'
                elif k < 0.1 and any(v == p for v in m.dent.values()):
                    n = '..'
                return dict(op='lookup', p=p, n=n)
            if op in ('mknod', 'mkdir', 'symlink'):
                if (p, n) in m.dent:
                    continue
                perm = r.choice((0o644, 0o755, 0o2775, 0o1777, 0o6711, 0, 0o7777))
                if op == 'mknod':
                    t = r.choice((S_IFREG,) * 4 + (S_IFIFO, S_IFBLK, S_IFCHR, S_IFSOCK))
                    return dict(op=op, p=p, n=n, mode=t | perm, rdev=r.choice((0, 259, 70000)) if t in (S_IFBLK, S_IFCHR) else 0, uid=uid, gid=gid)
                if op == 'mkdir':
                    return dict(op=op, p=p, n=n, mode=S_IFDIR | perm, uid=uid, gid=gid)
                return dict(op=op, p=p, n=n, target=[r.randrange(1, 256) for _ in range(r.choice((1, 3, self.bs, self.bs + 3, 40)))], uid=uid, gid=gid)
            if op == 'create':
                if (p, n) in m.dent and not m.isdir(m.dent[(p, n)]) and r.random() < 0.7:
                    if m.type.get(m.dent[(p, n)]) != S_IFREG:
                        continue
                elif (p, n) in m.dent:
                    continue
                return dict(op=op, p=p, n=n, mode=S_IFREG | r.choice((0o644, 0o600, 0o2755)), flags=r.choice(('w', 'rw', 'rw', 'r')),
                            trunc=r.random() < 0.3, uid=uid, gid=gid)
            if op == 'getattr':
                return dict(op=op, i=r.choice(anyi))
            if op == 'setattr':
                i = r.choice(anyi)
                s = {}
                for k, v in (('mode', (m.type[i] | r.choice((0o600, 0o2770, 0o444, 0o7777)))), ('uid', r.choice((0, 7, 99))), ('gid', r.choice((0, 8, 98))),
                             ('at', r.randrange(1, 999999)), ('mt', r.randrange(1, 999999))):
                    if r.random() < 0.25:
                        s[k] = v
                if m.type[i] == S_IFREG and r.random() < 0.6:
                    s['size'] = r.choice((0, self.off(), m.size.get(i, 0), r.randrange(0, self.maxfile)))
                if not s:
                    continue
                e = dict(op=op, i=i, set=s)
                if 'size' in s and r.random() < 0.5:
                    e['fh'] = i
                return e
            if op in ('read', 'write', 'fsync', 'release'):
                if not files:
                    continue
                i = r.choice(files)
                if op in ('fsync', 'release'):
                    return dict(op=op, i=i)
                if op == 'read':
                    return dict(op=op, i=i, off=self.off(), len=r.choice((0, 1, self.bs, self.bs + 1, 3 * self.bs, 200)))
                off = self.off()
                n = r.choice((1, 2, self.bs - 1, self.bs, self.bs + 1, 2 * self.bs + 1, 3 * self.bs))
                return dict(op=op, i=i, off=off, data=self.buf(max(1, n)))
            if op == 'open':
                c = m.known(lambda i: m.type[i] in (S_IFREG, S_IFREG, S_IFIFO, S_IFBLK))
                if not c:
                    continue
                return dict(op=op, i=r.choice(c), flags=r.choice(('r', 'w', 'rw')), trunc=r.random() < 0.35)
            if op in ('unlink', 'rmdir'):
                c = [k for k in ent if m.look.get(k[0])]
                if not c:
                    continue
                (p, n) = r.choice(c)
                if op == 'unlink' and m.isdir(m.dent[(p, n)]) and r.random() < 0.95:
                    continue
                if op == 'rmdir' and not m.isdir(m.dent[(p, n)]) and r.random() < 0.95:
                    continue
                if m.dent[(p, n)] == 3:
                    continue
                if r.random() < 0.03:
                    n = r.choice(self.names)
                return dict(op=op, p=p, n=n)
            if op == 'rename':
                c = [k for k in ent if m.look.get(k[0])]
                if not c:
                    continue
                (p, n) = r.choice(c)
                i = m.dent[(p, n)]
                if i == 3:
                    continue
                if r.random() < 0.4 and len(c) > 1:
                    (p2, n2) = r.choice(c)
                else:
                    p2, n2 = r.choice(dirs), r.choice(self.names)
                j = m.dent.get((p2, n2))
                if j == i or j == 3 or (m.isdir(i) and p2 in m.reach(i)):
                    continue
                if j is not None and m.isdir(j) != m.isdir(i):
                    continue
                return dict(op=op, p=p, n=n, p2=p2, n2=n2)
            if op == 'link':
                c = m.known(lambda i: not m.isdir(i) and m.nlink.get(i, 0) > 0)
                if not c or (p, n) in m.dent:
                    continue
                return dict(op=op, i=r.choice(c), p=p, n=n)
            if op in ('setxattr', 'getxattr', 'removexattr', 'listxattr'):
                i = r.choice(anyi)
                if op == 'listxattr':
                    return dict(op=op, i=i)
                have = sorted(m.xa.get(i, ()))
                if have and r.random() < 0.6:
                    n = r.choice(have)
                e = dict(op=op, i=i, n=n)
                if op == 'setxattr':
                    e['data'] = self.buf(r.choice((0, 1, 5)))
                return e
            if op == 'readdir':
                return dict(op=op, i=r.choice(m.known(m.isdir) or [1]), chunk=r.choice((0, 0, 1, 2, 3)))
            if op == 'forget':
                c = [i for i in anyi if i != 1 and m.look.get(i, 0) > 0]
                if not c:
                    continue
                i = r.choice(c)
                k = m.look[i]
                return dict(op=op, i=i, len=k if r.random() < 0.6 else r.randrange(1, k + 1))
            if op in ('flushcache', 'dropcache', 'idle', 'extstat'):
                return dict(op=op)
            if op == 'locktree':
                c = [i for i in dirs if i != 1 and i != 3]
                if not c:
                    continue
                return dict(op=op, i=r.choice(c))
            if op == 'rmtree':
                c = [k for k in ent if m.look.get(k[0]) and m.dent[k] != 3]
                if not c:
                    continue
                (p, n) = r.choice(c)
                return dict(op=op, p=p, n=n)
            if op == 'copytree':
                d = [i for i in dirs if i not in (1, 3) and not m.children(i)]
                s = [i for i in dirs if i != 3]
                if not d or not s:
                    continue
                i, p = r.choice(s), r.choice(d)
                if i == p or len(m.reach(i)) > 8 or p in m.reach(i):
                    continue
                return dict(op=op, i=i, p=p)
        return dict(op='idle')


W_BASE = dict(lookup=6, mknod=5, mkdir=5, symlink=2, create=7, getattr=3, setattr=8, read=9, write=14, fsync=1, release=1,
              open=4, unlink=6, rmdir=3, rename=9, link=5, setxattr=4, getxattr=2, removexattr=3, listxattr=1, readdir=2,
              forget=6, flushcache=1.5, dropcache=1.5, idle=2, extstat=1)
W_DATA = dict(lookup=2, mknod=1, create=5, getattr=2, setattr=12, read=20, write=30, fsync=1, release=1, open=4, unlink=5, mkdir=1, rename=3,
              link=3, readdir=1, forget=6, flushcache=3, dropcache=3, idle=4, extstat=1)
W_TREE = dict(W_BASE, mkdir=8, locktree=0.8, rmtree=2, copytree=14)


async def observe_copy(w, m, e):
    """Correspondence old inode -> new inode of a tree copy, observed by walking both trees."""
    ents = [(r[0], world.dec_name(r[1]), r[2]) for r in
            w.db.get_list('SELECT parent_inode, name, inode FROM contents_v')]
    kids = {}
    for p, n, i in ents:
        kids.setdefault(p, {})[n] = i
    out, todo, seen = [], [(e['i'], e['p'])], set()
    while todo:
        s, t = todo.pop()
        if (s, t) in seen:
            continue
        seen.add((s, t))
        for n, i in kids.get(s, {}).items():
            j = kids.get(t, {}).get(n)
            if j is None:
                j = -1
            if [i, j] not in out:
                out.append([i, j])
            todo.append((i, j))
    return sorted(out)


async def record(seed, *, nops=60, weights=W_TREE, dumps=0.0, full_end=True, script=None, cfg=None, observe=0.05, fsck=False, hook=None, names=None):
    """Run one generated sequence; returns the recorded trace."""
    rng = random.Random(seed)
    cfg = cfg or {}
    bs = cfg.get('bs') or rng.choice((4, 7, 8, 16))
    conf = dict(bs=bs, cache_size=rng.choice((0, bs, 3 * bs, 10 * bs, 10**6)), max_entries=rng.choice((1, 2, 4, 100)),
                inode_cache=rng.choice((2, 3, 5, 100)), connections=rng.choice((1, 2)),
                batch=rng.choice((None, None, 1, 2, 3)))
    conf.update(cfg)
    names = names or rng.sample(['a', 'b', 'c', 'd', 'e', 'f', 'A', 'aa'], rng.choice((2, 3, 5)))
    if rng.random() < 0.3:
        names.append('g')
    trace = []
    w = None
    try:
        async with trio.open_nursery() as nursery:
            w = await FsWorld.mk(nursery, **conf)
            lf = w.db.get_int_val('SELECT inode FROM contents WHERE parent_inode=1')
            import os
            trace.append(dict(op='init', now=w.clock.now(), uid=os.getuid(), gid=os.getgid(), lf=lf, bs=bs, seed=seed, conf=repr(conf)))
            g = Gen(rng, bs, names, weights)
            g.m.type = {1: S_IFDIR, lf: S_IFDIR}
            g.m.nlink = {1: 1, lf: 1}
            g.m.look = {1: 1}
            g.m.dent = {(1, 'lost+found'): lf}
            if script is not None:
                script = Replay(script)
                nops = len(script.beh)
            hstate = {}
            for k in range(nops):
                e = g.pick() if script is None else script(g, k)
                if e is None:
                    break
                e = await perform(w, g, e, trace)
                if script is not None:
                    script.got = e
                if hook is not None and rng.random() < 0.6:
                    await hook(w, g, rng, trace, hstate)
                if rng.random() < observe:
                    for i in list(g.m.known()):
                        await perform(w, g, dict(op='getattr', i=i), trace)
                if rng.random() < dumps:
                    await perform(w, g, dict(op='flushcache'), trace)
                    await w.settle()
                    trace.append(await w.dump(True))
                elif dumps and rng.random() < dumps:
                    w.ops.inodes.flush()
                    trace.append(await w.dump(False))
            # final observations: everything that can be reached, then the concrete state
            for i in list(g.m.known()):
                await perform(w, g, dict(op='getattr', i=i), trace)
                if g.m.type.get(i) == S_IFREG:
                    await perform(w, g, dict(op='read', i=i, off=0, len=1000), trace)
                elif g.m.type.get(i) == S_IFDIR:
                    await perform(w, g, dict(op='readdir', i=i, chunk=2), trace)
            if full_end:
                await perform(w, g, dict(op='flushcache'), trace)
                await w.settle()
                trace.append(await w.dump(True))
            if fsck:
                (bad, log) = await w.close_and_fsck()
                trace.append(dict(op='fsck', errors=bad, log=log[:10]))
            else:
                await w.close()
    except BaseException as exc:
        if isinstance(exc, KeyboardInterrupt):
            raise
        import report
        if w is not None:
            w.abandon()
        if not report.from_code_under_test(exc):
            raise
        trace.append(dict(op='exception', text=report.describe(exc)))
    finally:
        if w is not None:
            w.rmdir()
    return trace


async def perform(w, g, e, trace):
    try:
        e2 = await w.do(e)
    except Exception as exc:
        trace.append(dict(op='request', what={k: repr(v) for k, v in e.items()}))
        raise
    if e2['op'] == 'copytree':
        e2['map'] = await observe_copy(w, g.m, e2) if not e2['res']['err'] else []
    trace.append(e2)
    g.m.update(e2)
    return e2


def run_one(args):
    seed, kw = args
    try:
        return run_trio(lambda: record(seed, **kw), seed=seed, timeout=3600, clock=MockClock(autojump_threshold=0))
    except world.Hang as exc:
        return [dict(op='exception', text='hang: %s (seed %d)' % (exc, seed))]


def run_many(seeds, kw, jobs=8):
    """Traces of many runs; a run that crashed or hung the process becomes a trace ending in an exception."""
    import par
    out = []
    seeds = list(seeds)
    for s, r in zip(seeds, par.pmap(run_one, [(s, kw if not isinstance(kw, list) else kw[i]) for i, s in enumerate(seeds)], jobs)):
        if isinstance(r, par.Failed):
            if not (r.code or r.hang):
                raise RuntimeError('harness failure: ' + r.tb)
            r = [dict(op='exception', text=r.text)]
        elif isinstance(r, par.Died):
            r = [dict(op='exception', text='process died')]
        out.append(r)
    return out


class Replay:
    """Requests of a behaviour of the specification, with its inode numbers mapped to real ones."""

    def __init__(self, behaviour):
        self.beh, self.map = behaviour, {1: 1}

    def __call__(self, g, k):
        if k == 0:
            self.map[3] = g.m.dent[(1, 'lost+found')]
        elif self.want:
            got = self.got
            if got['op'] == 'copytree':
                # observed inode correspondence -> correspondence of model inodes
                inv = {a: b for a, b in got['map']}
                for a, b in self.want:
                    self.map[b] = inv.get(self.map.get(a))
            elif not got['res']['err']:
                self.map[self.want] = got['new']
        if k >= len(self.beh):
            return None
        e = dict(self.beh[k])
        self.want = e.pop('new')
        if e['op'] == 'copytree':
            self.want = e.pop('map')
        for f in ('i', 'p', 'p2'):
            if f in e:
                e[f] = self.map.get(e[f])
                if e[f] is None:
                    return None
        return e


def behaviours(n, seed, depth=40, names=3, ops=None, maxino=14, bs=3, timeout=300):
    """Request sequences generated by TLC from FsMC.tla (random simulation)."""
    import json, re, tlc
    ops = ops or ("lookup mknod mkdir symlink create write read open setattr unlink rmdir rename link forget rmtree locktree "
                  "copytree setxattr removexattr readdir flushcache dropcache idle").split()
    cfg = """SPECIFICATION Spec
CONSTANTS Names = {%s}
 MaxIno = %d
 MaxLook = 3
 MaxSize = %d
 Depth = %d
 Bs = %d
 Timed = TRUE
 Ops = {%s}
INVARIANT Inv
CONSTRAINT EmitC
CHECK_DEADLOCK FALSE
""" % (', '.join('"%s"' % x for x in ['a', 'b', 'c', 'd'][:names]), maxino, 3 * bs + 1, depth, bs, ', '.join('"%s"' % o for o in ops))
    r = tlc.run('FsMC', cfg, workers=1, timeout=timeout, args=['-simulate', 'num=%d' % n, '-depth', str(depth + 2), '-seed', str(seed)])
    if r.error or 'states checked' not in r.out:
        raise tlc.TLCError(r.out[-4000:])
    out, seen = [], set()
    for b in re.findall(r'^"?BEH (.*?)"?$', r.out, re.M):
        x = json.loads(b.replace('\\"', '"'))
        key = json.dumps(x[:-1])
        if key not in seen:
            seen.add(key)
            out.append(x)
    m = re.findall(r'(\d+) states checked', r.out)
    return out, int(m[-1])
