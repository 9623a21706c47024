"""C22: ordered mapping (LinkedMC.tla, LinkedTrace.tla)."""
import boot, ldriver, simple, tlc


def run(c, quick):
    text = open(boot.SPEC + '/LinkedMC.cfg').read()
    if not quick:
        text = text.replace('{1, 2, 3, 4}', '{1, 2, 3, 4, 5}').replace('Its = {1, 2}', 'Its = {1, 2, 3}')
    simple.design(c, 'LinkedMC', text)
    k = 1 if quick else 20
    gen = text.replace('Hist = FALSE', 'Hist = TRUE').replace('Depth = 0', 'Depth = 50') + 'CONSTRAINT EmitC\n'
    beh, st = tlc.simulate('LinkedMC', gen, 500 * k, boot.SEED, 55)
    c.add('simulated_states', st)
    c.add('behaviours_replayed', len(beh))
    js = [(boot.SEED * 100 + i, dict(script=b)) for i, b in enumerate(beh)]
    js += [(boot.SEED * 1000003 + i, dict(n=(60, 150, 400)[i % 3], nkeys=2 + i % 9, maxit=1 + i % 4)) for i in range(700 * k)]
    tr = ldriver.run_many(js)
    simple.judge(c, 'LinkedTrace', tr, js, 'mapping')
    simple.binding(c, 'LinkedTrace', tr, lambda e: dict(e, res=dict(val=-1)) if e['op'] == 'next' else None)
