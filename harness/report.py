"""Verdicts and evidence files."""
import json, os, sys, time, traceback
import boot


def load_known():
    fn = os.path.join(boot.VERIF, 'known_findings.json')
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        return json.load(f).get('findings', [])


class Check:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.cov = {}
        self.assumptions = []
        self.viol = []
        self.known_hits = set()
        self.known = [k for k in load_known() if k['property'] == prop]

    # ---- coverage counters
    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, x, limit=4):
        s = self.cov.setdefault('samples', [])
        if len(s) < limit:
            s.append(x)

    # ---- verdicts
    def violation(self, what, replay):
        """what: short text identifying the failure; replay: JSON-able description of how to get it"""
        for k in self.known:
            if k['match'] in what:
                if k['match'] not in self.known_hits:
                    self.known_hits.add(k['match'])
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, k['text']), flush=True)
                return
        self.viol.append(what)
        if len(self.viol) > 5:
            return
        os.makedirs(boot.EVID, exist_ok=True)
        fn = os.path.join(boot.EVID, '%s-violation-%d.json' % (self.prop, len(self.viol)))
        with open(fn, 'w') as f:
            json.dump(dict(property=self.prop, what=what, seed=boot.SEED, tier=boot.TIER, replay=replay), f,
                      indent=1, default=repr)
        print('%s: %s' % (self.prop, what), flush=True)
        print('VIOLATION property=%s replay=%s' % (self.prop, fn), flush=True)

    def write(self):
        cov = dict(self.cov)
        ev = dict(property=self.prop, tier=boot.TIER, seed=boot.SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        os.makedirs(boot.EVID, exist_ok=True)
        with open(os.path.join(boot.EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)

    def finish(self):
        self.write()
        if self.viol:
            sys.exit(1)
        print('%s: held on everything explored (%.1f s)' % (self.prop, time.time() - self.t0))
        sys.exit(0)


def from_code_under_test(exc):
    """True if the innermost project frame of the exception is code of /repo (not the harness)."""
    seen = set()

    def walk(e):
        if e is None or id(e) in seen:
            return False
        seen.add(id(e))
        if isinstance(e, BaseExceptionGroup) and any(walk(x) for x in e.exceptions):
            return True
        tb = e.__traceback__
        src = os.path.realpath(boot.REPO)
        while tb is not None:
            if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(src):
                return True
            tb = tb.tb_next
        return walk(e.__cause__) or walk(e.__context__)
    return walk(exc)


def describe(exc):
    if isinstance(exc, BaseExceptionGroup):
        return 'group(' + '; '.join(describe(x) for x in exc.exceptions) + ')'
    tb = traceback.extract_tb(exc.__traceback__)
    loc = '%s:%d' % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else '?'
    return '%s: %s (%s)' % (type(exc).__name__, str(exc)[:300], loc)
