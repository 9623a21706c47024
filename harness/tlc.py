"""Running TLC: exhaustive checks, simulation, trace validation."""
import json, os, re, shutil, subprocess, tempfile, time
import boot

CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TLCError(Exception):
    pass


class Result:
    pass


def _prepare(module, cfg, files=None):
    d = tempfile.mkdtemp(prefix='vf-tlc-', dir='/dev/shm' if os.path.isdir('/dev/shm') else None)
    for f in os.listdir(boot.SPEC):
        if f.endswith('.tla'):
            shutil.copy(os.path.join(boot.SPEC, f), d)
    if os.path.exists(os.path.join(boot.SPEC, cfg)):
        shutil.copy(os.path.join(boot.SPEC, cfg), os.path.join(d, 'run.cfg'))
    else:
        with open(os.path.join(d, 'run.cfg'), 'w') as f:
            f.write(cfg)
    for n, c in (files or {}).items():
        with open(os.path.join(d, n), 'w') as f:
            f.write(c)
    return d


def run(module, cfg, files=None, workers=1, timeout=600, args=(), mem='2g', keep=False, jvm=()):
    """Run TLC; returns Result with .ok .out .violated .states .distinct .last (last state text)."""
    d = _prepare(module, cfg, files)
    try:
        cmd = ['timeout', '-k', '5', str(int(timeout)), 'java', '-Xmx' + mem, '-Xss16m', '-XX:+UseParallelGC',
               '-XX:ParallelGCThreads=2', *jvm, '-cp', CP, 'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers),
               '-metadir', os.path.join(d, 'meta'), '-config', 'run.cfg', *args, module + '.tla']
        t0 = time.time()
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        r = Result()
        r.out = p.stdout
        r.rc = p.returncode
        r.wall = time.time() - t0
        r.timeout = p.returncode in (124, 137)
        m = re.findall(r'([\d,]+) states generated.*?([\d,]+) distinct states found', r.out)
        if m:
            r.states = int(m[-1][0].replace(',', ''))
            r.distinct = int(m[-1][1].replace(',', ''))
        else:
            r.states = r.distinct = 0
        m = re.search(r'depth of the complete state graph search is (\d+)', r.out)
        r.depth = int(m.group(1)) if m else 0
        m = re.search(r'Invariant (\S+) is violated|Action property (\S+) is violated|Temporal properties were violated'
                      r'|Postcondition (\S+)|POSTCONDITION', r.out)
        r.violated = m.group(0) if m else None
        r.error = 'Error:' in r.out
        r.ok = 'Model checking completed. No error has been found' in r.out or \
            ('The number of states generated' in r.out and not r.error and p.returncode == 0)
        r.dir = d
        return r
    finally:
        if not keep:
            shutil.rmtree(d, ignore_errors=True)


def check_model(module, cfg, workers=4, timeout=600, mem='6g', **kw):
    """Exhaustive model checking of a specification: a failure is a defect of the framework."""
    r = run(module, cfg, workers=workers, timeout=timeout, mem=mem, **kw)
    if not r.ok:
        raise TLCError('model checking of %s failed:\n%s' % (module, r.out[-6000:]))
    return r


def split_state(out):
    """Text of the last state TLC printed in an error trace."""
    parts = re.split(r'\nState \d+: .*\n', out)
    return parts[-1].strip() if len(parts) > 1 else ''


class Rejection:
    """First event of a trace that the specification cannot explain."""
    def __init__(self, index, clause, event, detail):
        self.index, self.clause, self.event, self.detail = index, clause, event, detail


TRACE_CFG = ('SPECIFICATION Spec\nINVARIANT NoMismatch\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n')


def validate(module, events, cfg=TRACE_CFG, timeout=800, files=None, fname='trace.ndjson', mem='3g'):
    """Validate *events* (list of dicts) with a trace specification having variables l and bad.

    Returns (Result, Rejection|None).  Total: whatever TLC says about the trace becomes a verdict,
    only a failure of TLC itself (no verdict) raises."""
    fs = dict(files or {})
    fs[fname] = ''.join(json.dumps(e) + '\n' for e in events)
    r = run(module, cfg, files=fs, timeout=timeout, mem=mem)
    if r.ok:
        return r, None
    st = split_state(r.out)
    m = re.search(r'/\\ l = (\d+)', st)
    mb = re.search(r'/\\ bad = "([^"]*)"', st)
    if 'Invariant NoMismatch is violated' in r.out and m and mb:
        i = int(m.group(1)) - 2
        return r, Rejection(i, mb.group(1), events[i], '')
    if m and ('Error: The error occurred when TLC was evaluating' in r.out or 'Error: TLC threw' in r.out
              or 'Error: Evaluating' in r.out or 'Attempted to' in r.out or 'postcondition' in r.out.lower()
              or 'Error:' in r.out):
        i = int(m.group(1)) - 1
        if r.timeout or i >= len(events) or 'Parsing or semantic analysis failed' in r.out:
            raise TLCError(r.out[-5000:])
        msg = re.findall(r'Error: (.*(?:\n.*){0,6})', r.out)
        return r, Rejection(i, 'event not explainable', events[i], '\n'.join(msg)[:1500])
    raise TLCError('no verdict from TLC (%s):\n%s' % (module, r.out[-6000:]))


def validate_many(module, traces, jobs=6, per_job=6000, **kw):
    """Validate many traces (lists of events) with several TLC processes.

    Returns (states, [ (trace index, Rejection) ... ])."""
    from concurrent.futures import ThreadPoolExecutor
    batches, cur, n = [], [], 0
    total = sum(len(t) for t in traces)
    per_job = max(200, min(per_job, total // jobs + 1))
    for i, t in enumerate(traces):
        cur.append(i)
        n += len(t)
        if n >= per_job:
            batches.append(cur)
            cur, n = [], 0
    if cur:
        batches.append(cur)
    out, states = [], 0

    def one(b):
        res, st, todo = [], 0, list(b)
        while todo:
            ev, owner = [], []
            for i in todo:
                ev += traces[i]
                owner += [i] * len(traces[i])
            r, rej = validate(module, ev, **kw)
            st += r.states
            if rej is None:
                break
            bad = owner[rej.index]
            rej.pos = rej.index - owner.index(bad)
            res.append((bad, rej))
            if len(res) >= 3:
                break
            todo = todo[todo.index(bad) + 1:]
        return st, res
    with ThreadPoolExecutor(jobs) as ex:
        for st, res in ex.map(one, batches):
            states += st
            out += res
    return states, sorted(out, key=lambda x: x[0])


def simulate(module, cfg, n, seed, depth, timeout=300, workers=1):
    """Behaviours (lists of actions) a specification prints as "BEH <json>" during random simulation."""
    r = run(module, cfg, workers=workers, timeout=timeout,
            args=['-simulate', 'num=%d' % n, '-depth', str(depth), '-seed', str(seed)])
    if r.error or 'states checked' not in r.out:
        raise TLCError(r.out[-4000:])
    out, seen = [], set()
    for b in re.findall(r'^"?BEH (.*?)"?$', r.out, re.M):
        if b not in seen:
            seen.add(b)
            out.append(json.loads(b.replace('\\"', '"')))
    return out, int(re.findall(r'(\d+) states checked', r.out)[-1])
