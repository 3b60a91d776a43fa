"""Scripted scenarios and known findings: genuine defects listed in
known_findings.txt and not repaired. A scenario that fails exactly as listed is
reported as KNOWN-FINDING; one that fails in any other way is a violation."""
import os, subprocess
import simlib as S

FINDINGS = os.path.join(S.VERIF, 'known_findings.txt')
SCENARIOS = {'C11': 'known_c11'}


def listed(scenario):
    """{subject: (outcome, text)} of the findings listed for a scenario"""
    r = {}
    with open(FINDINGS) as f:
        for l in f:
            if l.startswith('finding: '):
                key, text = l[len('finding: '):].strip().split(' | ', 1)
                d = dict(x.split('=', 1) for x in key.split())
                if d.get('scenario') == scenario:
                    r[d['subject']] = (d['property'], d['outcome'], text)
    return r


def run_scenario(name):
    d = os.path.join(S.BUILD, name + '.' + S.tree_hash()[:20])
    b = os.path.join(d, 'sim')
    if not os.path.exists(b):
        os.makedirs(d, exist_ok=True)
        S.run_cc(['clang++', '-std=c++17', '-w', '-I' + S.INC, '-O1', '-g1',
                  '-fsanitize=address', os.path.join(S.SIM, name + '.cpp'),
                  '-o', b + '.tmp'], b)
        os.rename(b + '.tmp', b)
    p = subprocess.run([b], capture_output=True, text=True, env=S.env(), cwd='/',
                       timeout=60)
    res = [l.split(' ', 1) for l in p.stdout.splitlines() if ' ' in l]
    if p.returncode:
        res.append(['process', 'exit-%d' % p.returncode])
    return res


def report(prop, bins):
    """-> list of (line to print, is a violation)"""
    sc = SCENARIOS.get(prop)
    if not sc:
        return []
    out, known = [], listed(sc)
    for subject, outcome in run_scenario(sc):
        if outcome == 'ok':
            continue
        k = known.get(subject)
        if k and k[0] == prop and k[1] == outcome:
            out.append(('KNOWN-FINDING: property=%s %s: %s' % (prop, subject, k[2]), False))
        else:
            os.makedirs(os.path.join(S.OUT, 'replay'), exist_ok=True)
            fn = os.path.join(S.OUT, 'replay', '%s-%s-%s.scenario' % (prop, sc, subject))
            with open(fn, 'w') as f:
                f.write('scenario %s\nsubject %s\noutcome %s\n' % (sc, subject, outcome))
            out.append(('VIOLATION property=%s replay=%s' % (prop, fn), True))
    return out
