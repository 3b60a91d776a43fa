"""What each check runs: profile, harnesses, budgets, relevant classes."""

FATAL = {'mem', 'crash', 'hang', 'lifetime'}

STATES = ('distinct hashes of (operation, outcome, fault kind fired, for each of 3 '
          'collections: allocator and per type registered/size 0..6,7+/full) reached '
          'after a step')
RULE = ('a run is one generated history (2 to ~150 library calls on 3 collections, up to 8 populated and 10 empty '
        'element types, heap placement policy, allocator domains, armed faults), a pure '
        'function of (VERIF_SEED, run number, harness, profile). Non-trivial: at least 3 '
        'operations took effect and at least one operation failed (injected or intrinsic) '
        'or one capacity changed. Distinct: by hash of the full event log (allocations, '
        'outcomes, faults, resulting contents).')


def seq(kp):
    return ['seq-%s-%d' % (k, p) for k, p in kp]


QUICK3A = seq([('base', 0), ('function', 7), ('any', 2)])
QUICK3B = seq([('base', 7), ('function', 0), ('any', 1)])
QUICKAL = seq([('base', 1), ('base', 6), ('function', 0), ('function', 5),
               ('any', 7), ('any', 2)])
ALLPOL = seq([(k, p) for k in ('base', 'function', 'any') for p in (0, 1, 2, 3, 4, 5, 6, 7)])
TH = seq([(k, p) for k in ('base', 'function', 'any') for p in (0, 2, 5, 7)])


def seqcheck(prof, harness, classes, secs=30, th=TH, thsecs=420):
    return dict(profile=prof, classes=set(classes.split()), rule=RULE, states=STATES,
                quick=dict(harnesses=harness, secs=secs),
                thorough=dict(harnesses=th, secs=thsecs))


CHECKS = {
    'C01': seqcheck('C01', QUICK3A,
                    'seq ret view bind exc reg cap nomem other basic strong leak addr eq'),
    'C02': seqcheck('C02', QUICK3B, 'view bind reg seq other basic strong ret iter addr cap'),
    'C03': seqcheck('C03', QUICK3A,
                    'strong nomem other view bind reg basic seq addr iter exc cap leak ret'),
    'C04': seqcheck('C04', QUICKAL,
                    'basic other strong view bind exc leak reg prop seq iter addr ret cap '
                    'dealloc construct', th=ALLPOL),
    'C05': seqcheck('C05', QUICKAL, 'leak dealloc lifetime construct', th=ALLPOL),
    'C06': seqcheck('C06', QUICKAL, 'construct globalheap prop dealloc leak', th=ALLPOL),
    'C07': seqcheck('C07', QUICKAL,
                    'seq xfer prop other basic strong reg eq view bind exc leak iter addr '
                    'nomem', th=ALLPOL),
    'C08': seqcheck('C08', QUICK3B, 'iter addr ret view bind seq strong cap basic other xfer'),
    'C09': seqcheck('C09', QUICK3A, 'cap nomem addr strong exc xfer iter other seq view bind basic ret'),
    'C10': seqcheck('C10', QUICK3B, 'reg view exc seq other strong bind cap basic iter addr ret prop'),
    'C11': seqcheck('C11', QUICK3A, 'exc strong other seq nomem basic view bind reg eq'),
    'C12': seqcheck('C12', QUICK3B, 'eq exc other strong seq view bind basic'),
    'C19': seqcheck('C19', QUICK3A, 'work xfer'),
    'C17': seqcheck('C17', QUICK3A, 'bind view seq iter addr ret basic strong other'),
}

ALG_RULE = ('a run is one generated history (6 to 33 steps: insertions, erasures, registrations '
            'of empty segments, capacity changes, algorithm calls with seeded ranges, '
            'type lists, callables and faults), a pure function of (VERIF_SEED, run number, '
            'harness, profile). Non-trivial: at least 2 algorithm calls. Distinct: by hash of '
            'the event log (every element handed to a callable or output, faults, results).')
ALG_STATES = ('distinct hashes of (algorithm, type list, constness, outcome, sizes of the '
              'segments in order capped at 4, range bounds)')
ALG3 = ['alg-base', 'alg-function', 'alg-any']


def algcheck(prof, classes, secs=25, thsecs=420):
    return dict(profile=prof, classes=set(classes.split()), rule=ALG_RULE,
                states=ALG_STATES, quick=dict(harnesses=ALG3, secs=secs),
                thorough=dict(harnesses=ALG3, secs=thsecs))


RACE_RULE = ('a run is one generated concurrent execution: a shared past (2 to 11 setup '
             'operations), 2 or 3 simulated threads with up to 12 operations, and a list of '
             'preemptions placed at instrumented memory accesses, a pure function of '
             '(VERIF_SEED, run number, harness, profile). Non-trivial: at least 2 operations '
             'and at least one preemption taken. Distinct: by hash of the schedule (thread, '
             'operation and access number of every switch) and all results.')
RACE_STATES = ('distinct interleavings: hashes of the sequence of (access number, operation, '
               'from-thread, to-thread) of all switches')
RACE3 = ['race-base', 'race-function', 'race-any']


def racecheck(prof, secs=30, thsecs=420):
    return dict(profile=prof, classes={'race', 'raceres', 'leak'}, rule=RACE_RULE,
                states=RACE_STATES, quick=dict(harnesses=RACE3, secs=secs),
                thorough=dict(harnesses=RACE3, secs=thsecs))


CHECKS['C15'] = racecheck('C15')
CHECKS['C16'] = racecheck('C16')
CHECKS['C13'] = algcheck('C13', 'alg algexc algbound leak')
CHECKS['C14'] = algcheck('C14', 'restit alg')


COST3 = ['cost-base', 'cost-function', 'cost-any']
CHECKS['C20'] = dict(
    profile='C20', classes={'time', 'timeexc'},
    rule=('a run is one generated history (4 to 17 steps: filling, erasure, capacity changes, '
          'transfers, registrations, failing insertions, timed operations) executed on two '
          'collections that differ only in scale (1 and 64), a pure function of (VERIF_SEED, '
          'run number, harness, profile). Non-trivial: at least 1 timed operation. Distinct: '
          'by hash of the event log (sizes and ticks).'),
    states=('distinct hashes of (operation, variant, element type, logarithms of its cost and '
            'of the sizes of both collections)'),
    quick=dict(harnesses=COST3, secs=25), thorough=dict(harnesses=COST3, secs=300))


def level_of(prop):
    return 'exploration'


def assumptions_of(prop):
    return [
        'libstdc++ 13 std::vector and the installed Boost headers are correct',
        'clang 18 -O1 with AddressSanitizer compiles the headers faithfully',
        'element types meet the documented requirements; forward iterators over elements '
        'do not throw on increment (libstdc++ uninitialized_copy)',
        'sampling: a clean batch is evidence over the runs made, not a proof',
    ]


def real_and_stub(prop):
    if prop in ('C15', 'C16'):
        return (['all of /repo/include/boost/poly_collection and the header parts of libstdc++ '
                 'and Boost it instantiates, compiled with memory-access instrumentation'],
                ['threads: fibers on one OS thread under a seeded scheduler',
                 'race detection: own vector-clock runtime behind the compiler hooks',
                 'mutexes and guarded static initialisation: simulated',
                 'allocator: simulated heap with seeded placement, reuse and failure',
                 'compiled parts of libstdc++ run uninstrumented'])
    if prop in ('C13', 'C14'):
        return (['all of /repo/include/boost/poly_collection (headers compiled unmodified)',
                 'std algorithms under the segmented ones (libstdc++)'],
                ['allocator: simulated heap with seeded placement (adjacent blocks included)',
                 'callables, comparisons, second ranges, output iterators and the random bit '
                 'generator: instrumented, fault-injecting'])
    if prop == 'C20':
        return (['all of /repo/include/boost/poly_collection and the header parts of libstdc++ '
                 'and Boost it instantiates, compiled with edge instrumentation'],
                ['clock: simulated, one tick per executed edge of the instrumented code',
                 'allocator: fault-injecting', 'element types: fault-injecting',
                 'compiled parts of libc and libstdc++ (malloc, memmove) cost no ticks'])
    real = ['all of /repo/include/boost/poly_collection (headers compiled unmodified)',
            'std::vector and std::unordered_map under the segments and the type map']
    stub = ['allocator: simulated heap with seeded placement, reuse and failure',
            'element types: instrumented, fault-injecting',
            'user input iterators: instrumented, fault-injecting',
            'global operator new: counting pass-through to malloc']
    return real, stub


def TECHNIQUE(prop):
    if prop in ('C15', 'C16'):
        return ('deterministic simulation with fault injection: seeded thread scheduler '
                'preempting at memory accesses, happens-before race detection, comparison '
                'with each thread run alone')
    if prop in ('C13', 'C14'):
        return ('deterministic simulation with fault injection: seeded search over '
                'collections, memory placements, ranges and callback failures against the '
                'std algorithm on a flat reference sequence')
    if prop == 'C20':
        return ('deterministic simulation with fault injection: simulated clock advanced by the '
                'executed code, seeded histories with failures on twin collections of '
                'different scale')
    return ('deterministic simulation with fault injection: seeded search over histories and '
            'faults against an executable reference model')


def LEVEL_NOTE(prop):
    return ('Seeded sampling of histories x fault points x memory placements on the real '
            'headers; every violation is replayed twice in fresh processes and minimised. '
            'Evidence over the runs made, not a proof. Trusts clang, AddressSanitizer, '
            'libstdc++ and the installed Boost.')


NOT_APPLICABLE = {
    'C18': 'decided at compile time: there is no execution, schedule or fault for a simulator '
           'to control',
}
