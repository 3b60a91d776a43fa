#!/usr/bin/env python3
"""replay.py FILE: rebuild the simulator FILE names from /repo's current tree
and replay it, twice; prints the violation, exit 1 if it reproduces."""
import re, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simlib as S

fn = os.path.abspath(sys.argv[1])
txt = open(fn).read()
if txt.startswith('scenario '):
    import known
    d = dict(l.split(' ', 1) for l in txt.splitlines())
    res = known.run_scenario(d['scenario'])
    for x in res:
        print(' '.join(x))
    sys.exit(1 if [d['subject'], d['outcome']] in res else 0)
name = re.search(r'^harness (\S+)', txt, re.M).group(1)
b = S.build([name])[name]
r, o, e = S.replay_file(b, fn, verbose=True, symbolize=1)
print(o[-8000:])
if r[1] in ('mem', 'crash'):
    print(e[:3000])
r2 = S.replay_file(b, fn)[0]
print('result :', r)
same = r[:2] == r2[:2] and r[2:4] == r2[2:4]
print('again  :', r2, '(identical)' if same else '(DIFFERENT)')
if not same:
    sys.exit(2)
sys.exit(1 if r[0] == 'viol' else 0 if r[0] == 'ok' else 2)
