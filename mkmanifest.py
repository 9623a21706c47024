#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (one row per claimed property)."""
import json, os
R = 'python3 harness/go.py'
CLAIMS = {
 'C01': ('TLA+ specification FsModel/FsMC; TLC-generated behaviours replayed and recorded executions judged by TLC (FsTrace)',
         'The design is checked exhaustively within small constants; the code is bound to it by judging every reply of generated and TLC-generated request sequences on the real request handlers. Assumes kernel-conforming requests; FUSE kernel itself not exercised.'),
 'C02': ('TLA+ specification DbModel (consistency invariant and refinement) judged by TLC on database dumps along recorded executions',
         'Every dump of the real database along generated executions satisfies the TLA+ consistency predicate, and a real file system check at the end agrees. Bounded by the generated sequences.'),
 'C13': ('TLA+ specification of listings in steps (DirMC/DirTrace); recorded listings with concurrent changes judged by TLC',
         'The cookie design is checked exhaustively within small constants; recorded listings interleaved with changes are judged step by step.'),
 'C03': ('TLA+ specification of the write-back cache (BlockMC/BlockTrace); recorded runs of the real cache with faults and schedules judged by TLC',
         'The design (including the in-flight upload window) is checked exhaustively within small constants; recorded executions under seeded schedules and backend faults are judged step by step.'),
 'C04': ('TLA+ specification of the write-back cache (BlockMC/BlockTrace); recorded runs of the real cache judged by TLC',
         'Sharing and deletion of objects is checked exhaustively in the design; recorded executions are judged step by step.'),
 'C24': ('TLA+ specification of the write-back cache (BlockTrace, limits); recorded runs of the real cache judged by TLC',
         'Bounded by generated executions.'),
 'C21': ('TLA+ specification of the lock (LockMC/LockTrace); recorded schedules of the real lock judged by TLC',
         'Safety and liveness of the design within small constants; recorded schedules with cancellation judged step by step.'),
 'C22': ('TLA+ specification of the ordered map (LinkedMC/LinkedTrace); recorded operation sequences judged by TLC',
         'Design exhaustively within small constants; recorded sequences with open iterators judged step by step.'),
 'C23': ('TLA+ specification of parallel runs (PipeMC/PipeTrace); recorded schedules of the real runners judged by TLC',
         'Design exhaustively within small constants; recorded schedules with failures and cancellation judged step by step.'),
}
PENDING = {}


def main():
    props = [json.loads(l)['id'] for l in open(os.path.join(os.path.dirname(__file__) or '.', 'properties.jsonl'))]
    m = dict(version=1, setup_cmd='python3 harness/go.py --setup',
             hooks=dict(guard='VERIF_S3QL_HOOKS (unused: no hooks were needed)', enable='not needed', source_commits=[]),
             checks=[], not_applicable=[])
    for p in props:
        if p in CLAIMS:
            t, n = CLAIMS[p][:2]
            m['checks'].append(dict(property=p, quick_cmd='%s %s quick' % (R, p), thorough_cmd='%s %s thorough' % (R, p),
                                    technique=t, level='model_checking', level_note=n))
        else:
            m['not_applicable'].append(dict(property=p, reason=PENDING.get(p, 'not built in the time available: no specification or check exists for it (the technique itself would apply)')))
    with open('MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
