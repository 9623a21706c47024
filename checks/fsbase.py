"""Shared by the checks that judge executions of the request handlers with FsTrace.tla."""
import json
import boot, fsdriver, tlc


def cfg(judge):
    return 'CONSTANT Judge = {%s}\n' % ', '.join('"%s"' % j for j in judge) + tlc.TRACE_CFG


def model(c, quick, ops=None):
    """Exhaustive check of the design (FsMC) over small constants."""
    text = open(boot.SPEC + '/FsMC.cfg').read()
    if quick:
        text = text.replace('Ops = {"lookup","mknod","mkdir","create","write","setattr","unlink","rmdir","rename","link","forget","rmtree","locktree"}',
                            'Ops = {%s}' % ', '.join('"%s"' % o for o in ops or ('mknod', 'mkdir', 'write', 'unlink', 'rmdir', 'rename', 'link', 'forget', 'rmtree')))
    r = tlc.check_model('FsMC', text, workers=6, timeout=800)
    c.add('states', r.distinct)
    c.add('transitions', r.states)
    return r


def judge(c, traces, kws, judge, tag, seeds, module='FsTrace'):
    st, rej = tlc.validate_many(module, traces, jobs=8, cfg=cfg(judge) if module == 'FsTrace' else tlc.TRACE_CFG)
    c.add('trace_events_checked', sum(map(len, traces)))
    c.add('traces_validated_against_impl', len(traces))
    c.add('trace_spec_states', st)
    for t in traces:
        for e in t:
            k = e['op'] + ('' if not e.get('res') or not e['res']['err'] else ':' + e['res']['err'])
            h = c.cov.setdefault('events', {})
            h[k] = h.get(k, 0) + 1
    if traces:
        c.sample(dict(kind=tag, trace=[short(e) for e in traces[0][:25]]))
    for i, r in rej:
        ev = r.event
        what = '%s: %s at event %d (%s)' % (tag, r.clause, r.pos, short(ev))
        if ev['op'] in ('request', 'exception') and r.pos + 1 < len(traces[i]):
            what += ' ' + str(traces[i][r.pos + 1].get('text'))
        if r.detail:
            what += ' ' + r.detail[:200]
        c.violation(what[:900], dict(kind=tag, seed=seeds[i], args=repr(kws[i] if isinstance(kws, list) else kws),
                                     trace=traces[i][:r.pos + 2], clause=r.clause))
    return rej


def short(e):
    s = {k: v for k, v in e.items() if k in ('op', 'i', 'p', 'n', 'p2', 'n2', 'off', 'len', 'res', 'set', 'mode', 'flags', 'trunc', 'text', 'what', 'log', 'errors')}
    t = json.dumps(s, default=repr)
    return t if len(t) < 400 else t[:400] + '...'


def generated(c, n, kw, judges, tag, off=0):
    seeds = [boot.SEED * 1000003 + off + k for k in range(n)]
    tr = fsdriver.run_many(seeds, kw)
    return judge(c, tr, kw, judges, tag, seeds)


def replay(c, n, judges, kw, tag='behaviour of the specification', **gen):
    beh, states = fsdriver.behaviours(n, boot.SEED, **gen)
    c.add('simulated_states', states)
    c.add('behaviours_replayed', len(beh))
    kws = [dict(kw, script=b) for b in beh]
    seeds = [boot.SEED * 7919 + k for k in range(len(beh))]
    tr = fsdriver.run_many(seeds, kws)
    return judge(c, tr, kws, judges, tag, seeds)


def binding(c, kw, judges):
    """Demonstrates that the trace specification is bound to the trace: corrupted fields are rejected."""
    import copy
    tr = fsdriver.run_many([4242], kw)[0]
    n = 0
    for k in range(len(tr) - 1, -1, -1):
        t = copy.deepcopy(tr)
        e = t[k]
        if e['op'] == 'getattr' and 'reply' in judges:
            e['res']['attr']['size'] += 1
        elif e['op'] == 'dump' and e['names'] and 'cons' in judges:
            e['names'][0]['ref'] += 1
        else:
            continue
        r, rej = tlc.validate('FsTrace', t, cfg=cfg(judges))
        if rej is None or rej.index != k:
            raise AssertionError('corrupted trace accepted')
        n += 1
        if n == 2:
            break
    c.add('corrupted_traces_rejected', n)
