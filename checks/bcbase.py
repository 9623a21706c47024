"""Shared by the checks that judge executions of the block cache with BlockTrace.tla (design: BlockMC.tla)."""
import copy, random
import boot, bcdriver, fsbase, tlc


def design(c, quick):
    text = open(boot.SPEC + '/BlockMC.cfg').read()
    if not quick:
        text = text.replace('MaxOps = 6', 'MaxOps = 8').replace('MaxObj = 4', 'MaxObj = 5')
    r = tlc.check_model('BlockMC', text, workers=8, timeout=780, mem='12g')
    c.add('states', r.distinct)
    c.add('transitions', r.states)
    if not quick:
        small = open(boot.SPEC + '/BlockMC.cfg').read().replace('MaxOps = 6', 'MaxOps = 3') + 'PROPERTY Drains\n'
        r = tlc.check_model('BlockMC', small, workers=8, timeout=300)
        c.add('states', r.distinct)
        c.add('liveness_states', r.distinct)
    # the invariants are not vacuous: without the rule that linked blocks wait for the upload, data can be lost
    r = tlc.run('BlockMC', open(boot.SPEC + '/BlockMC.cfg').read().replace('Wait = TRUE', 'Wait = FALSE'), workers=4, timeout=300)
    assert r.violated, 'design without waiting should lose data'
    c.add('broken_designs_rejected', 1)


def jobs(n, off=0):
    out = []
    for i in range(n):
        r = random.Random('bc%d' % (boot.SEED * 1000003 + off + i))
        kw = dict(remount=r.random() < 0.25, ntasks=r.choice((1, 2, 3, 3, 4, 6)), nops=r.choice((6, 12, 20)),
                  cache_size=r.choice((0, 8, 24, 24, 1000)), max_entries=r.choice((0, 1, 3, 3, 20)), slow=r.choice((1, 4, 12, 40)),
                  inodes=r.choice((1, 2, 2, 3)), nblocks=r.choice((1, 2, 3)), connections=r.choice((1, 2, 4)),
                  fail=r.choice((0, 0, 0, 0.1)), failread=r.choice((0, 0, 0.1)))
        out.append((boot.SEED * 1000003 + off + i, kw))
    return out


def judge(c, js, judges, tag='concurrent accesses'):
    tr = bcdriver.run_many(js)
    cfg = 'CONSTANT Judge = {%s}\n' % ', '.join('"%s"' % j for j in judges) + tlc.TRACE_CFG
    st, rej = tlc.validate_many('BlockTrace', tr, jobs=8, cfg=cfg)
    c.add('trace_events_checked', sum(map(len, tr)))
    c.add('traces_validated_against_impl', len(tr))
    c.add('trace_spec_states', st)
    h = c.cov.setdefault('events', {})
    for t in tr:
        for e in t:
            k = e['op'] + ('+crash' if e.get('crash') else '')
            h[k] = h.get(k, 0) + 1
    c.sample(dict(kind=tag, args=repr(js[0]), trace=[fsbase.short(e) if e['op'] != 'snap' else repr(e)[:300] for e in tr[0][:15]]))
    for i, r in rej:
        what = '%s: %s at event %d (%s)' % (tag, r.clause, r.pos, repr({k: v for k, v in r.event.items() if k not in ('snap', 'rows', 'store')})[:300])
        c.violation(what[:900], dict(kind=tag, seed=js[i][0], args=js[i][1], trace=tr[i][:r.pos + 2], clause=r.clause))
    return tr


def binding(c, tr, judges):
    """Corrupted observations are rejected."""
    cfg = 'CONSTANT Judge = {%s}\n' % ', '.join('"%s"' % j for j in judges) + tlc.TRACE_CFG
    n = 0
    for t in tr:
        for j, e in enumerate(t):
            u = copy.deepcopy(t[:j + 1])
            if 'data' in judges and e['op'] == 'acc':
                u[j]['val'] += 1
            elif 'objects' in judges and e['op'] == 'snap' and e['quiet'] and e['rows']:
                u[j]['rows'][0]['ref'] += 1
            elif 'usage' in judges and e['op'] == 'snap' and e['quiet'] and not e['crash'] and e['files']:
                u[j]['files'].pop()
            else:
                continue
            _, rej = tlc.validate('BlockTrace', u, cfg=cfg)
            assert rej is not None and rej.index == j, 'corrupted trace accepted'
            n += 1
            break
        if n >= 2:
            break
    c.add('corrupted_traces_rejected', n)
