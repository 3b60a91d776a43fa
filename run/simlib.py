"""Shared machinery of the checks: building the simulators from /repo's
current tree, running seeded workers, classifying, gating, minimising and
writing replay files and evidence."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys
import tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
INC = os.path.join(REPO, 'include')
BUILD = os.environ.get('SIM_BUILD', os.path.join(VERIF, 'build'))
OUT = os.path.join(VERIF, 'out')
SIM = os.path.join(VERIF, 'sim')
NCPU = max(1, min(8, os.cpu_count() or 1))

KINDS = ['base', 'function', 'any']
ASAN = ['-O1', '-g1', '-fsanitize=address', '-fno-sanitize-address-use-after-scope',
        '-mllvm', '-asan-stack=0',
        '-mllvm', '-asan-instrumentation-with-call-threshold=0']


class Err(Exception):
    pass


def harness_spec(name):
    """name -> (list of compile commands producing objects, link command)."""
    p = name.split('-')
    if p[0] == 'seq':
        k, pol = KINDS.index(p[1]), int(p[2])
        return dict(src=['seq_main.cpp', 'probe.cpp'],
                    flags=ASAN + ['-DSIM_KIND=%d' % k, '-DSIM_POL=%d' % pol],
                    link=['-fsanitize=address', '-no-pie'])
    if p[0] == 'alg':
        k = KINDS.index(p[1])
        return dict(src=['alg_main.cpp', 'alg_p1.cpp', 'alg_p2.cpp', 'alg_p3.cpp'],
                    flags=ASAN + ['-DSIM_KIND=%d' % k],
                    link=['-fsanitize=address', '-no-pie'])
    if p[0] == 'race':
        k = KINDS.index(p[1])
        return dict(src=['race_main.cpp'],
                    # race_rt.cpp is the runtime itself: never instrumented
                    plain=['race_rt.cpp'],
                    flags=['-O1', '-g1', '-DSIM_KIND=%d' % k],
                    instr=['-fsanitize=thread', '-mllvm',
                           '-tsan-instrument-func-entry-exit=0'],
                    link=['-no-pie', '-Wl,--wrap=__cxa_allocate_exception'])
    if p[0] == 'cost':
        k = KINDS.index(p[1])
        return dict(src=['cost_main.cpp'],
                    flags=['-O1', '-g1', '-DSIM_KIND=%d' % k,
                           '-fsanitize-coverage=edge,trace-pc'],
                    link=['-no-pie'])
    raise Err('unknown harness ' + name)


_th = None


def tree_hash():
    global _th
    if _th:
        return _th
    h = hashlib.sha256()
    for root in (INC, SIM):
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                fn = os.path.join(d, f)
                h.update(fn.encode() + b'\0')
                with open(fn, 'rb') as fh:
                    h.update(fh.read())
    _th = h.hexdigest()
    return _th


def run_cc(cmd, obj):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    if r.returncode:
        raise Err('compilation failed: %s\n%s' % (' '.join(cmd), r.stdout[-6000:]))
    return obj


def build(names, log=lambda s: None):
    """Compile the named harnesses (in parallel), return {name: binary}."""
    os.makedirs(BUILD, exist_ok=True)
    res, jobs = {}, []
    for n in names:
        sp = harness_spec(n)
        key = hashlib.sha256((tree_hash() + json.dumps(sp, sort_keys=True)
                              ).encode()).hexdigest()[:20]
        d = os.path.join(BUILD, n + '.' + key)
        b = os.path.join(d, 'sim')
        res[n] = b
        if os.path.exists(b):
            continue
        for old in glob.glob(os.path.join(BUILD, n + '.*')):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        jobs.append((n, sp, d, b))
    if not jobs:
        return res
    base = ['clang++', '-std=c++17', '-w', '-I' + INC, '-I' + SIM]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        pend = []
        for n, sp, d, b in jobs:
            objs = []
            for s in sp['src']:
                o = os.path.join(d, s + '.o')
                objs.append(ex.submit(run_cc, base + sp['flags'] + sp.get('instr', []) +
                                      ['-c', os.path.join(SIM, s), '-o', o], o))
            for s in sp.get('plain', []):
                o = os.path.join(d, s + '.o')
                objs.append(ex.submit(run_cc, base + sp['flags'] +
                                      ['-c', os.path.join(SIM, s), '-o', o], o))
            pend.append((n, sp, b, objs))
        for n, sp, b, objs in pend:
            ol = [o.result() for o in objs]
            run_cc(['clang++'] + sp['link'] + ol + ['-o', b + '.tmp'], b)
            os.rename(b + '.tmp', b)
            for o in ol:
                os.unlink(o)
    return res


ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=0:exitcode=77:'
                       'allocator_may_return_null=1:handle_abort=0:symbolize=%d')


def env(symbolize=0):
    e = dict(ENV)
    e['ASAN_OPTIONS'] = e['ASAN_OPTIONS'] % symbolize
    e['LC_ALL'] = 'C'
    return e


def classify(rc, out, err):
    """-> (status, cls, step, hash, msg); status ok|viol|error"""
    m = re.search(r'^RESULT viol\t([^\t]*)\t(-?\d+)\t([0-9a-f]+)\t(.*)$', out, re.M)
    if rc == 10 and m:
        return ('viol', m.group(1), int(m.group(2)), m.group(3), m.group(4))
    if rc == 0:
        m = re.search(r'^RESULT ok\t-\t-1\t([0-9a-f]+)', out, re.M)
        return ('ok', '', -1, m.group(1) if m else '', '')
    if 'AddressSanitizer' in err:
        m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
        return ('viol', 'mem', -1, '', 'invalid memory access: ' +
                (m.group(1) if m else 'unknown'))
    if rc in (-signal.SIGPROF, -signal.SIGALRM):
        return ('viol', 'hang', -1, '', 'no progress: the run does not terminate')
    if rc < 0 and -rc in (signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS,
                          signal.SIGFPE, signal.SIGILL, signal.SIGTRAP):
        m = re.search(r'(terminate called.*|runaway.*)', err)
        return ('viol', 'crash', -1, '', 'process ended by signal %d %s' %
                (-rc, m.group(1) if m else ''))
    return ('error', '', -1, '', 'rc=%d %s %s' % (rc, out[-400:], err[-800:]))


def replay_file(binary, fn, verbose=False, timeout=90, symbolize=0):
    try:
        r = subprocess.run([binary, '--replay', fn] + (['-v'] if verbose else []),
                           capture_output=True, text=True, errors='replace',
                           timeout=timeout, env=env(symbolize), cwd='/')
    except subprocess.TimeoutExpired:
        return ('viol', 'hang', -1, '', 'no progress: the run does not terminate'), '', ''
    return classify(r.returncode, r.stdout, r.stderr), r.stdout, r.stderr


def gen_trace(binary, prof, seed, run):
    r = subprocess.run([binary, '--gen', prof, str(seed), str(run)],
                       capture_output=True, text=True, env=env(), cwd='/')
    if r.returncode:
        raise Err('trace generation failed: ' + r.stderr[-500:])
    return r.stdout


# ------------------------------------------------------------------ workers

class Worker:
    def __init__(self, binary, name, prof, seed, wid, nw, d):
        self.binary, self.name, self.prof, self.seed = binary, name, prof, seed
        self.wid, self.nw, self.dir = wid, nw, d
        os.makedirs(d, exist_ok=True)
        self.next = wid
        self.proc = None

    def start(self, secs):
        self.first = self.next
        self.out = open(os.path.join(self.dir, 'out.%d' % self.wid), 'w+')
        self.err = open(os.path.join(self.dir, 'err.%d' % self.wid), 'w+')
        st = os.path.join(self.dir, 'status.%d' % self.wid)
        if os.path.exists(st):
            os.unlink(st)
        self.proc = subprocess.Popen(
            [self.binary, '--work', self.prof, str(self.seed), str(self.wid),
             str(self.nw), str(self.next), '%.2f' % secs, self.dir],
            stdout=self.out, stderr=self.err, env=env(), cwd='/')

    def poll(self):
        rc = self.proc.poll()
        if rc is None:
            return None
        self.out.seek(0), self.err.seek(0)
        o, e = self.out.read(), self.err.read(20000)
        self.out.close(), self.err.close()
        if rc == 0:
            return ('done',)
        with open(os.path.join(self.dir, 'status.%d' % self.wid), 'rb') as f:
            run = struct.unpack('<Q', f.read(8))[0]
        self.next = run + self.nw
        return ('hit', run, classify(rc, o, e), e)

    def kill(self):
        if self.proc and self.proc.poll() is None:
            self.proc.kill()
            self.proc.wait()


# -------------------------------------------------------------- minimisation

def parse(text):
    head, steps = [], []
    for l in text.splitlines():
        if l.startswith('#') or not l.strip():
            continue
        (steps if l.startswith('step ') else head).append(l)
    return head, steps


def minimise(binary, text, cls, budget, tmp):
    """ddmin over steps, then faults, parameters and configuration; the same
    violation class must persist."""
    t_end = time.time() + budget
    head, steps = parse(text)
    fn = os.path.join(tmp, 'min.trace')
    tried = {}

    def bad(h, s):
        txt = '\n'.join(h + s) + '\n'
        k = hashlib.md5(txt.encode()).digest()
        if k in tried:
            return tried[k]
        if time.time() > t_end:
            return False
        with open(fn, 'w') as f:
            f.write(txt)
        r = replay_file(binary, fn, timeout=25)[0]
        tried[k] = r[0] == 'viol' and r[1] == cls
        return tried[k]

    # steps after the violating one go first
    n = 2
    while len(steps) >= 2 and time.time() < t_end:
        size = max(1, len(steps) // n)
        done = False
        i = 0
        while i < len(steps) and time.time() < t_end:
            cand = steps[:i] + steps[i + size:]
            if cand and bad(head, cand):
                steps = cand
                done = True
            else:
                i += size
        if size == 1 and not done:
            break
        if not done:
            n = min(len(steps), n * 2)
        elif size > 1:
            n = max(2, n - 1)
    for i in range(len(steps)):            # needless faults
        m = re.match(r'(step .*) fault (\d+) (\d+) (\d+)$', steps[i])
        if not m:
            continue
        for repl in ('0 0 0', '%s %s 0' % (m.group(2), m.group(3)),
                     '%s 0 0' % m.group(2)):
            c = '%s fault %s' % (m.group(1), repl)
            if c != steps[i] and bad(head, steps[:i] + [c] + steps[i + 1:]):
                steps[i] = c
                break
    for i in range(len(steps)):            # small parameters
        f = steps[i].split(' ')
        k = 2
        while k < len(f) and f[k] != 'fault' and time.time() < t_end:
            for v in ('0', '1', '2', '3'):
                if f[k] == v:
                    break
                g = f[:k] + [v] + f[k + 1:]
                if bad(head, steps[:i] + [' '.join(g)] + steps[i + 1:]):
                    f = g
                    steps[i] = ' '.join(f)
                    break
            k += 1
    for i in range(len(head)):             # simple configuration
        if head[i].startswith('cfg '):
            f = head[i].split(' ')
            for k in range(1, len(f)):
                for v in ('0', '1'):
                    if f[k] == v:
                        break
                    g = f[:k] + [v] + f[k + 1:]
                    if bad(head[:i] + [' '.join(g)] + head[i + 1:], steps):
                        f = g
                        head[i] = ' '.join(f)
                        break
    return '\n'.join(head + steps) + '\n'


def settle_violation(binary, name, prof, seed, run, first, nw, res, tmp,
                     min_budget=40):
    """Gate and minimise. Returns (replay text, result) or raises Err."""
    text = gen_trace(binary, prof, seed, run)
    fn = os.path.join(tmp, 'gate.trace')
    with open(fn, 'w') as f:
        f.write(text)
    a = replay_file(binary, fn)[0]
    b = replay_file(binary, fn)[0]
    # exact repetition is expected; after wild memory corruption (possible in
    # the harnesses without AddressSanitizer) only the class may repeat
    if a[0] == 'viol' and b[0] == 'viol' and a[1] == b[1]:
        mt = minimise(binary, text, a[1], min_budget, tmp)
        with open(fn, 'w') as f:
            f.write(mt)
        c, d = replay_file(binary, fn)[0], replay_file(binary, fn)[0]
        if c[0] == 'viol' and c[1] == a[1] and (c == d or (a != b and d[1] == c[1])):
            return mt, c
        return text, a
    # The violation needs state left behind in the process by earlier runs
    # (something in the code under test outlives its collections): replay the
    # preceding runs too, as few as suffice.
    prev = list(range(first, run + 1, nw))
    k = 2
    while True:
        part = prev[-k:]
        multi = ''.join(gen_trace(binary, prof, seed, r) for r in part)
        with open(fn, 'w') as f:
            f.write(multi)
        a = replay_file(binary, fn, timeout=300)[0]
        if a[0] == 'viol':
            b = replay_file(binary, fn, timeout=300)[0]
            if a == b:
                return multi, a
        if k >= len(prev):
            break
        k *= 4
    raise Err('run %d of %s/%s does not reproduce in a fresh process: '
              'worker said %r, replay %r' % (run, name, prof, res, a))
