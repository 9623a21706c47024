"""C13: directory listings in steps (DirTrace.tla, design DirMC.tla)."""
import copy, random
import boot, tlc, fsbase, fsdriver, par, report, world
import pyfuse3

W = dict(mknod=10, mkdir=4, unlink=6, rmdir=2, rename=10, link=4, setxattr=2, removexattr=1, forget=3, symlink=1, rmtree=1, dropcache=0.5, lookup=1, getattr=1)


async def hook(w, g, rng, trace, hs):
    """Random listing step."""
    m = g.m
    if (not hs or rng.random() < 0.12) and len(hs) < 4:
        dirs = m.known(m.isdir) or [1]
        d = max(dirs, key=lambda i: len(m.children(i))) if rng.random() < 0.6 else rng.choice(dirs)
        h = 'h%d' % (len(hs) + 1)
        hs[h] = dict(dir=d, cookies=[0], fh=await w.ops.opendir(d, w.ctx))
        trace.append(dict(op='rdopen', h=h, i=d))
        return
    h = rng.choice(sorted(hs))
    r = hs[h]
    if not m.look.get(r['dir']) and r['dir'] != 1:
        return          # the kernel keeps directories with open handles
    k = rng.random()
    off = 0 if k < 0.05 else rng.choice(r['cookies']) if k < 0.2 else r['cookies'][-1]
    chunk = rng.choice((1, 1, 2, 3, 5))
    got = []

    def reply(token, name, attr, next_id):
        if len(got) >= chunk:
            return False
        got.append((world.dec_name(name), attr, next_id))
        return True
    pyfuse3.readdir_reply = reply
    now = w.clock.start()
    try:
        await w.ops.readdir(r['fh'], off, None)
    except Exception as exc:
        trace.append(dict(op='request', what=dict(op='readdir', h=h, off=off)))
        raise
    finally:
        w.clock.stop()
    ents = [dict(n=n, attr=w.attr(a), next=c) for n, a, c in got]
    trace.append(dict(op='rdstep', h=h, off=off, now=now, call=True, chunk=chunk, ents=ents, end=len(got) < chunk))
    if off in r['cookies']:
        r['cookies'] = r['cookies'][:r['cookies'].index(off) + 1]
    r['cookies'] += [c for _, _, c in got]
    for n, a, _ in got:
        m.add_look(a.st_ino)


def run(c, quick):
    k = 1 if quick else 10
    r = tlc.check_model('DirMC', open(boot.SPEC + '/DirMC.cfg').read().replace('MaxOps = 7', 'MaxOps = %d' % (7 if quick else 9)), workers=4)
    c.add('states', r.distinct)
    c.add('transitions', r.states)
    names = ['n%d' % i for i in range(12)]
    kw = dict(nops=120, weights=W, hook=hook, names=names, full_end=False, observe=0)
    seeds = [boot.SEED * 1000003 + i for i in range(400 * k)]
    tr = fsdriver.run_many(seeds, kw)
    fsbase.judge(c, tr, kw, (), 'listing', seeds, module='DirTrace')
    c.add('listing_steps', sum(e['op'] == 'rdstep' for t in tr for e in t))
    c.add('listings_completed', sum(e['op'] == 'rdstep' and e['end'] for t in tr for e in t))
    # the trace specification is bound to the trace
    n = 0
    for t in tr:
        for j, e in enumerate(t):
            if e['op'] == 'rdstep' and len(e['ents']) > 1 and n < 2:
                u = copy.deepcopy(t)
                u[j]['ents'][0] = u[j]['ents'][1] if n else dict(u[j]['ents'][0], n='nonexistent')
                _, rej = tlc.validate('DirTrace', u, cfg=tlc.TRACE_CFG)
                assert rej is not None and rej.index == j or t[-1]['op'] == 'exception', 'corrupted trace accepted'
                n += 1
                break
    c.add('corrupted_traces_rejected', n)
