"""C04: block cache (BlockMC.tla, BlockTrace.tla)."""
import bcbase


def run(c, quick):
    bcbase.design(c, quick)
    tr = bcbase.judge(c, bcbase.jobs(1500 if quick else 15000, off=4 * 100000), ('objects',))
    bcbase.binding(c, tr, ('objects',))
