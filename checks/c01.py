"""C01: sequential Unix semantics (FsModel.tla)."""
import fsbase, fsdriver
J = ('reply', 'abs')


def run(c, quick):
    k = 1 if quick else 12
    c.assumptions += ['requests are issued as a kernel would (only known inodes, names that pass its checks)',
                      'time stamps are judged by the request during which they were taken']
    fsbase.model(c, quick)
    fsbase.binding(c, dict(nops=30, dumps=0.05), J)
    fsbase.generated(c, 500 * k, dict(nops=80, dumps=0.03, weights=fsdriver.W_BASE), J, 'generated requests')
    fsbase.generated(c, 150 * k, dict(nops=80, dumps=0.03, weights=fsdriver.W_DATA), J, 'generated data requests', 500000)
    fsbase.generated(c, 100 * k, dict(nops=60, dumps=0.03, weights=fsdriver.W_TREE), J, 'generated tree requests', 700000)
    fsbase.replay(c, 200 * k, J, dict(dumps=0.02, cfg=dict(bs=3)), ops=[o for o in (
        'lookup mknod mkdir symlink create write read open setattr unlink rmdir rename link forget rmtree '
        'setxattr removexattr readdir flushcache dropcache idle').split()])
