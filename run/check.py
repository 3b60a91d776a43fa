#!/usr/bin/env python3
"""check.py PROPERTY: decide one property by seeded simulation of /repo's
current tree. VERIF_SEED and VERIF_TIER select seed and depth."""
import glob, json, os, shutil, struct, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simlib as S
from config import CHECKS, FATAL, level_of, assumptions_of, real_and_stub
import known


def merge_stats(d):
    tot, states, runs = {}, set(), set()

    def add(a, b):
        for k, v in b.items():
            if isinstance(v, dict):
                add(a.setdefault(k, {}), v)
            elif isinstance(v, list):
                o = a.setdefault(k, [0] * len(v))
                for i, x in enumerate(v):
                    o[i] += x
            else:
                a[k] = a.get(k, 0) + v
    for f in glob.glob(os.path.join(d, '*', 'stats.*.json')):
        try:
            add(tot, json.load(open(f)))
        except ValueError:
            pass
    for pat, st in (('states', states), ('runs', runs)):
        for f in glob.glob(os.path.join(d, '*', pat + '.*.bin')):
            b = open(f, 'rb').read()
            st.update(struct.unpack('<%dQ' % (len(b) // 8), b[:len(b) // 8 * 8]))
    return tot, states, runs


def main():
    t0 = time.time()
    prop = sys.argv[1]
    cfg = CHECKS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t = cfg[tier]
    names = t['harnesses']
    print('%s: tier %s, VERIF_SEED=%d, harnesses %s' % (prop, tier, seed, ' '.join(names)),
          flush=True)
    try:
        bins = S.build(names)
    except S.Err as e:
        print('ERROR', e)
        return 2
    tb = time.time() - t0
    secs = float(os.environ.get('SIM_SECS', t['secs']))
    tmp = tempfile.mkdtemp(prefix='sim-%s-' % prop)
    workers, hits, ignored, err = [], [], {}, None
    try:
        per = [0] * len(names)
        slots = max(S.NCPU, len(names))
        for i in range(slots):
            per[i % len(names)] += 1
        prof = cfg['profile']
        for n, k in zip(names, per):
            for w in range(k):
                workers.append(S.Worker(bins[n], n, prof, seed, w, k,
                                        os.path.join(tmp, n)))
        ts = time.time()
        live = list(workers)
        skips = {}
        for w in live:
            w.start(secs)
        while live and not hits and err is None:
            time.sleep(0.05)
            for w in list(live):
                r = w.poll()
                if r is None:
                    if time.time() - ts > secs + 120:
                        w.kill()
                        err = 'worker of %s overran' % w.name
                    continue
                if r[0] == 'done':
                    live.remove(w)
                    continue
                _, run, res, es = r
                if res[0] != 'viol':
                    err = 'worker of %s failed: %r' % (w.name, res)
                    break
                if res[1] in FATAL or res[1] in cfg['classes']:
                    hits.append((w, run, res))
                    break
                k = (w.name, res[1], res[4].split(':')[0])
                ignored.setdefault(k, (run, res))
                skips[w] = skips.get(w, 0) + 1
                left = secs - (time.time() - ts)
                if left > 0.5 and skips[w] < 400:
                    w.start(left)
                else:
                    live.remove(w)
        for w in workers:
            w.kill()
        run_s = time.time() - ts
        stats, states, runs = merge_stats(tmp)
        viol = 0
        rc = 0
        samples = []
        if err:
            print('ERROR', err)
            rc = 2
        elif hits:
            w, run, res = hits[0]
            try:
                text, fin = S.settle_violation(w.binary, w.name, prof, seed, run,
                                               w.first, w.nw, res, tmp)
                if fin[1] not in FATAL and fin[1] not in cfg['classes']:
                    raise S.Err('minimised into another class: %r' % (fin,))
                viol = 1
                os.makedirs(os.path.join(S.OUT, 'replay'), exist_ok=True)
                fn = os.path.join(S.OUT, 'replay', '%s-%s-s%d-r%d.trace' %
                                  (prop, w.name, seed, run))
                with open(fn, 'w') as f:
                    f.write('# property %s violated: class %s, step %d, log %s\n# %s\n'
                            '# found at seed %d run %d of %s; replay with: '
                            'python3 /verif/run/replay.py %s\n' %
                            (prop, fin[1], fin[2], fin[3], fin[4], seed, run, w.name, fn))
                    f.write(text)
                o = S.replay_file(w.binary, fn, verbose=True)[1]
                print('class %s: %s' % (fin[1], fin[4]))
                print(o[-3000:])
                print('VIOLATION property=%s replay=%s' % (prop, fn), flush=True)
                samples.append({'violation': fin[4], 'replay': fn})
                rc = 1
            except S.Err as e:
                print('ERROR', e)
                rc = 2
        # scripted findings and scenarios of this property
        if rc == 0:
            try:
                for line, bad in known.report(prop, bins):
                    print(line, flush=True)
                    if bad:
                        viol += 1
                        rc = 1
            except S.Err as e:
                print('ERROR', e)
                rc = 2
        nruns = int(stats.get('runs', 0))
        if rc == 0 and nruns == 0:
            print('ERROR no run completed')
            rc = 2
        for n in names[:3]:
            try:
                tx = S.gen_trace(bins[n], prof, seed, 3)
                fn = os.path.join(tmp, 'sample.trace')
                open(fn, 'w').write(tx)
                r, o, _ = S.replay_file(bins[n], fn, verbose=True)
                samples.append({'harness': n, 'seed': seed, 'run': 3,
                                'result': r[0] + ' ' + r[1], 'log_hash': r[3],
                                'execution': [l.strip() for l in o.splitlines()
                                              if l.startswith('  [') or 'fault' in l
                                              or l.startswith('  ')][:40]})
            except S.Err:
                pass
        comp = real_and_stub(prop)
        ev = {
            'property': prop, 'tier': tier, 'seed': seed, 'level': level_of(prop),
            'coverage': {
                'evaluations': nruns,
                'distinct_nontrivial': len(runs),
                'rule': cfg['rule'],
                'samples': samples,
                'simulated_runs_per_hour': int(nruns * 3600 / run_s) if run_s else 0,
                'seeds': 'VERIF_SEED=%d; each run derives its own PRNG stream from '
                         '(seed, run number, harness, profile): one run number = one '
                         'seed' % seed,
                'simulated_time': ('%d ticks of the simulated clock (one per executed '
                                   'edge)' % int(stats['simulated_ticks'])
                                   if stats.get('simulated_ticks') else
                                   '%d operation steps (the code under test has no '
                                   'clock; a step is one library call)' %
                                   int(stats.get('steps', 0))),
                'faults_fired': stats.get('fired', {}),
                'fault_points_passed': stats.get('points', {}),
                'distinct_states': len(states),
                'distinct_states_measure': cfg['states'],
                'operations': stats.get('ops', {}),
                'probes': {k: v for k, v in stats.items()
                           if not isinstance(v, (dict, list)) and
                           k not in ('runs', 'secs', 'steps')},
                'harnesses': names, 'workers': len(workers),
                'components_real': comp[0], 'components_stubbed': comp[1],
                'build_s': round(tb, 1), 'search_s': round(run_s, 1),
                'other_class_hits': ['%s run %d: %s' % (k[0], v[0], v[1][4][:160])
                                     for k, v in list(ignored.items())[:10]],
            },
            'assumptions': assumptions_of(prop),
            'wall_s': round(time.time() - t0, 2),
            'violations': viol,
        }
        os.makedirs(os.path.join(S.VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(S.VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k, v in ignored.items():
            print('note: %s run %d hit another property (%s): %s' %
                  (k[0], v[0], k[1], v[1][4][:200]))
        print('%s: %d runs (%d distinct non-trivial), %d steps, %d states, faults %s, '
              '%.0f s build + %.0f s search -> %s' %
              (prop, nruns, len(runs), stats.get('steps', 0), len(states),
               {k: v for k, v in stats.get('fired', {}).items() if v}, tb, run_s,
               {0: 'held', 1: 'VIOLATED', 2: 'ERROR'}[rc]))
        return rc
    finally:
        for w in workers:
            w.kill()
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
