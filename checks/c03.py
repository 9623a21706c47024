"""C03: block cache (BlockMC.tla, BlockTrace.tla)."""
import bcbase


def run(c, quick):
    bcbase.design(c, quick)
    tr = bcbase.judge(c, bcbase.jobs(1500 if quick else 15000, off=3 * 100000), ('data',))
    bcbase.binding(c, tr, ('data',))
