"""C21: locks by key (LockMC.tla, LockTrace.tla)."""
import boot, lockdriver, simple, tlc


def run(c, quick):
    text = open(boot.SPEC + '/LockMC.cfg').read()
    if not quick:
        text = text.replace('{1, 2, 3, 4}', '{1, 2, 3, 4, 5}').replace('"x", "y"', '"x", "y", "z"')
    simple.design(c, 'LockMC', text)
    k = 1 if quick else 10
    gen = text.replace('Hist = FALSE', 'Hist = TRUE').replace('Depth = 0', 'Depth = 40').replace('PROPERTY Progress\n', '') + 'CONSTRAINT EmitC\n'
    beh, st = tlc.simulate('LockMC', gen, 600 * k, boot.SEED, 60)
    c.add('simulated_states', st)
    c.add('behaviours_replayed', len(beh))
    js = [(boot.SEED * 100 + i, dict(script=b, ntasks=5)) for i, b in enumerate(beh)]
    js += [(boot.SEED * 1000003 + i, dict(ntasks=2 + i % 5, keys=('x', 'y', 'z')[:1 + i % 3], quiet=(0, 0.1, 0.5)[i % 3])) for i in range(1500 * k)]
    tr = lockdriver.run_many(js)
    simple.judge(c, 'LockTrace', tr, js, 'locking')
    simple.binding(c, 'LockTrace', tr, lambda e: dict(e, k='zz') if e['op'] == 'got' else None)
