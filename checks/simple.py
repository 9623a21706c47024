"""Helpers shared by checks that validate recorded traces with one trace specification."""
import copy, json
import boot, fsbase, tlc


def design(c, module, text, workers=6, timeout=700, **kw):
    r = tlc.check_model(module, text, workers=workers, timeout=timeout, **kw)
    c.add('states', r.distinct)
    c.add('transitions', r.states)
    return r


def broken(c, module, text, **kw):
    """A deliberately broken design must be rejected: the invariants are not vacuous."""
    r = tlc.run(module, text, workers=4, timeout=300, **kw)
    if not r.violated:
        raise tlc.TLCError('broken design of %s accepted:\n%s' % (module, r.out[-2000:]))
    c.add('broken_designs_rejected', 1)


def judge(c, module, traces, jobs, tag, cfg=None, ident=None):
    st, rej = tlc.validate_many(module, traces, jobs=8, cfg=cfg or tlc.TRACE_CFG)
    c.add('trace_events_checked', sum(map(len, traces)))
    c.add('traces_validated_against_impl', len(traces))
    c.add('trace_spec_states', st)
    h = c.cov.setdefault('events', {})
    for t in traces:
        for e in t:
            k = e['op']
            h[k] = h.get(k, 0) + 1
    if traces:
        c.sample(dict(kind=tag, args=repr(jobs[0])[:300], trace=[json.dumps(e, default=repr)[:300] for e in traces[0][:20]]))
    for i, r in rej:
        what = '%s: %s at event %d (%s)' % (tag, r.clause, r.pos, json.dumps(r.event, default=repr)[:400])
        if r.detail:
            what += ' ' + r.detail[:200]
        if ident:
            what = ident(jobs[i], r) + ' ' + what
        c.violation(what[:1000], dict(kind=tag, job=jobs[i], trace=traces[i][:r.pos + 2], clause=r.clause))
    return rej


def binding(c, module, traces, corrupt, cfg=None, want=2):
    """Corrupted observations must be rejected at the corrupted event."""
    n = 0
    for t in traces:
        for j, e in enumerate(t):
            x = corrupt(copy.deepcopy(e))
            if x is None:
                continue
            u = copy.deepcopy(t[:j]) + [x]
            _, rej = tlc.validate(module, u, cfg=cfg or tlc.TRACE_CFG)
            if rej is None:
                raise tlc.TLCError('corrupted trace accepted by %s: %r' % (module, x))
            n += 1
            break
        if n >= want:
            break
    c.add('corrupted_traces_rejected', n)
