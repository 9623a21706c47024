"""C02: metadata consistency after every operation (DbModel.tla: Consistency; real fsck finds nothing)."""
import fsbase, fsdriver
J = ('cons', 'store', 'fsck')


def run(c, quick):
    k = 1 if quick else 12
    fsbase.model(c, quick, ops=('mknod', 'mkdir', 'unlink', 'rmdir', 'rename', 'link', 'forget', 'rmtree', 'locktree'))
    fsbase.binding(c, dict(nops=30, dumps=0.3), J)
    fsbase.generated(c, 250 * k, dict(nops=80, dumps=0.2, weights=fsdriver.W_TREE, fsck=True), J, 'generated requests')
    fsbase.generated(c, 100 * k, dict(nops=60, dumps=0.2, weights=fsdriver.W_DATA, fsck=True), J, 'generated data requests', 500000)
    fsbase.replay(c, 100 * k, J, dict(dumps=0.2, fsck=True, cfg=dict(bs=3)))
