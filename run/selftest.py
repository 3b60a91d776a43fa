#!/usr/bin/env python3
"""Determinism of the simulators: the same seeds give the same event logs in
separate processes, whatever the number of workers."""
import os, subprocess, sys, tempfile, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simlib as S

n = int(sys.argv[1]) if len(sys.argv) > 1 else 40
names = sys.argv[2:] or ['seq-base-0', 'seq-function-7', 'seq-any-2', 'alg-base',
                         'alg-function', 'alg-any', 'race-base', 'race-function', 'race-any', 'cost-base',
                         'cost-function', 'cost-any']
bins = S.build(names)


def one(a):
    h, prof, run = a
    t = S.gen_trace(bins[h], prof, 7, run)
    assert t == S.gen_trace(bins[h], prof, 7, run)
    with tempfile.NamedTemporaryFile('w', suffix='.trace') as f:
        f.write(t)
        f.flush()
        r = [S.replay_file(bins[h], f.name)[0] for _ in range(3)]
    return a, r


bad = 0
jobs = []
for h in names:
    prof = {'seq': ['C01', 'C04', 'C06'], 'alg': ['C13', 'C14'],
            'race': ['C15', 'C16'], 'cost': ['C20']}[h.split('-')[0]]
    jobs += [(h, p, k * 37) for p in prof for k in range(n)]
with cf.ThreadPoolExecutor(S.NCPU) as ex:
    for a, r in ex.map(one, jobs):
        if not (r[0] == r[1] == r[2] and r[0][0] == 'ok' and r[0][3]):
            bad += 1
            print(a, r)
print('%d executions of %d traces, %d not repeatable' % (3 * len(jobs), len(jobs), bad))
sys.exit(1 if bad else 0)
