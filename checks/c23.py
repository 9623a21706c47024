"""C23: parallel job runners (PipeMC.tla, PipeTrace.tla)."""
import boot, pipedriver, simple


def run(c, quick):
    text = open(boot.SPEC + '/PipeMC.cfg').read()
    for j, n, b in ((4, 3, 1), (3, 1, 0), (5, 2, 2)) if quick else ((5, 4, 2), (6, 3, 1), (7, 2, 0), (4, 5, 4)):
        simple.design(c, 'PipeMC', text.replace('NJobs = 4', 'NJobs = %d' % j).replace('NWorkers = 3', 'NWorkers = %d' % n).replace('Buffer = 1', 'Buffer = %d' % b))
    seeds = [boot.SEED * 1000003 + i for i in range(6000 if quick else 80000)]
    tr = pipedriver.run_many(seeds)
    simple.judge(c, 'PipeTrace', tr, seeds, 'parallel run')
    simple.binding(c, 'PipeTrace', tr, lambda e: dict(e, j=99) if e['op'] == 'start' else None)
