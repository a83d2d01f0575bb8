"""The properties' workloads and monitors."""


class Leg:
  """One program, under one set of monitors."""

  def __init__(self, name, harness, san, modes, srcs=(), shim=(), opt='-O1',
               defs=(), cxxflags=(), ldflags=(), protos=True, journal=False,
               version=False, leaks=True, threads=1, weight=1, env=None,
               src_opt=None, timeout=(300, 3000), thorough_shards=8,
               thorough_only=False):
    self.name = name
    self.harness = list(harness)
    self.san = san
    # (mode, processes, scale of a quick run, scale of a thorough run)
    self.modes = modes
    self.srcs = list(srcs)
    self.shim = list(shim)
    self.opt = opt
    self.defs = list(defs)
    self.cxxflags = list(cxxflags)
    self.ldflags = list(ldflags)
    self.protos = protos
    self.journal = journal
    self.version = version
    self.leaks = leaks
    self.threads = threads
    self.weight = weight
    self.env = env or {}
    self.src_opt = src_opt or {}
    self.timeout = timeout
    self.thorough_shards = thorough_shards
    self.thorough_only = thorough_only


class Check:

  def __init__(self, legs, rule, min_distinct, technique, level_note=None,
               assumptions=()):
    self.legs = legs
    self.technique = technique
    self.level_note = level_note or (
        'Held on the executions produced (evidence/): nothing is said about '
        'inputs or schedules that the workloads did not reach.  Trusts the '
        'oracles of the harness and the stand-ins of shim/ for the missing '
        'dependencies.')
    self.rule = rule
    self.min_distinct = min_distinct
    self.assumptions = list(assumptions)


# Seconds, roughly; the slowest are compiled first.
COSTS = {
}

FMA = ['-UPRINCIPIA_REQUIRES_FMA', '-DPRINCIPIA_REQUIRES_FMA=1',
       '-UPRINCIPIA_REQUIRES_AVX', '-DPRINCIPIA_REQUIRES_AVX=1',
       '-mavx2', '-mfma']

PHYSICS_SRCS = ['numerics/sin_cos.cpp', 'numerics/cbrt.cpp',
                'base/cpuid.cpp', 'base/flags.cpp',
                'base/zfp_compressor.cpp', 'geometry/instant.cpp',
                'physics/protector.cpp']

C15_SRCS = ['numerics/sin_cos.cpp', 'numerics/cbrt.cpp', 'base/cpuid.cpp',
            'base/flags.cpp', 'geometry/instant.cpp']

CHECKS = {
    'C01': Check(
        [Leg('c01-asan', ['c01_pipe.cpp'], 'asan', [('', 4, 3, 80)],
             shim=['gipfeli']),
         Leg('c01-tsan', ['c01_pipe.cpp'], 'tsan', [('', 4, 1, 20)],
             shim=['gipfeli'])],
        rule='A case is a random message (built by reflection over six message '
             'types), chunk sizes and counts on both sides, compression, '
             'ownership and pauses; non-trivial if the stream spans several '
             'chunks.',
        min_distinct=300,
        technique='ASan+UBSan and TSan under randomized back-pressure and lock '
                  'perturbation; online oracle of chunks and callbacks'),
    'C02': Check(
        [Leg('c02-tsan', ['c02_threads.cpp'], 'tsan',
             [('pool', 3, 4, 40), ('bundle', 2, 4, 40),
              ('recurring', 3, 4, 40)], srcs=['base/bundle.cpp'],
             protos=False),
         Leg('c02-asan', ['c02_threads.cpp'], 'asan',
             [('pool', 2, 2, 40), ('bundle', 1, 2, 40),
              ('recurring', 2, 2, 40)], srcs=['base/bundle.cpp'],
             protos=False)],
        rule='A case is a history of a pool, bundle, recurring thread, '
             'stoppable thread or callback executor, with unique task '
             'identifiers, random clients, pauses and lock perturbations; '
             'non-trivial if several tasks or clients are involved.',
        min_distinct=300,
        technique='TSan and ASan with perturbation of locks and atomics; '
                  'exactly-once and ordering oracles over unique task ids'),
    'C03': Check(
        [Leg('c03-asan', ['c03_encoders.cpp'], 'asan', [('', 8, 1, 60)],
             protos=False, opt='-O1')],
        rule='A case is a byte string (all those of 1 byte, a sample or all of '
             'those of 2 bytes, random ones up to 2000 bytes), or an arbitrary '
             'text given to the hexadecimal decoder.',
        min_distinct=5000,
        technique='ASan+UBSan over exactly-sized and overlapping buffers; '
                  'bit-by-bit reference encoders as oracles'),
    'C04': Check(
        [Leg('c04-no-fma', ['c04_correct_rounding.cpp'], 'ubsan',
             [('sincos', 6, 1, 60), ('cbrt', 2, 1, 60)],
             srcs=['numerics/sin_cos.cpp', 'numerics/cbrt.cpp',
                   'base/cpuid.cpp'],
             shim=['core_math'], ldflags=['-lquadmath'], opt='-O2',
             defs=['PRINCIPIA_VERIF_NO_DCHECK']),
         Leg('c04-fma', ['c04_correct_rounding.cpp'], 'ubsan',
             [('sincos', 6, 1, 60), ('cbrt', 2, 1, 60)],
             srcs=['numerics/sin_cos.cpp', 'numerics/cbrt.cpp',
                   'base/cpuid.cpp'],
             shim=['core_math'], ldflags=['-lquadmath'], opt='-O2',
             defs=['PRINCIPIA_VERIF_NO_DCHECK'],
             cxxflags=FMA)],
        rule='A case is an argument: random ones over all the binades, the '
             'boundaries of the tables and of the reductions, near-multiples '
             'of π/2 up to 2^1000 from continued fractions, and arguments '
             'whose image is found to be within 2^-16 ulp of a tie.',
        min_distinct=500000,
        technique='UBSan; comparison with correctly-rounded results from quad '
                  'and multiprecision oracles at random and hard arguments'),
    'C05': Check(
        [Leg('c05-no-fma', ['c05_double_precision.cpp'], 'ubsan',
             [('eft', 1, 1, 60), ('dd', 1, 1, 60), ('utilities', 1, 1, 60),
              ('reduction', 1, 1, 60)],
             srcs=['numerics/sin_cos.cpp', 'numerics/cbrt.cpp',
                   'base/cpuid.cpp'],
             shim=['core_math'], opt='-O1'),
         Leg('c05-fma', ['c05_double_precision.cpp'], 'ubsan',
             [('eft', 1, 1, 60), ('dd', 1, 1, 60), ('utilities', 1, 1, 60),
              ('reduction', 1, 1, 60)],
             srcs=['numerics/sin_cos.cpp', 'numerics/cbrt.cpp',
                   'base/cpuid.cpp'],
             shim=['core_math'], opt='-O1', cxxflags=FMA)],
        rule='A case is a pair of doubles or of double-doubles with chosen '
             'overlaps and cancellations, a double of any class, or an angle '
             '(up to 2^900, and next to the multiples of π/4).',
        min_distinct=20000,
        technique='UBSan and debug assertions; exact multiprecision oracles '
                  'for values and error bounds'),
    'C10': Check(
        [Leg('c10-ubsan', ['c10_geometry.cpp'], 'ubsan',
             [('maps', 3, 1, 60), ('algebra', 1, 1, 60), ('points', 1, 1, 60),
              ('perspective', 2, 1, 60)],
             srcs=['numerics/sin_cos.cpp', 'numerics/cbrt.cpp',
                   'base/cpuid.cpp', 'geometry/instant.cpp'],
             shim=['core_math'], opt='-O0', defs=['FUSED=0']),
         # Fused operations and vector instructions.
         Leg('c10-fma', ['c10_geometry.cpp'], 'ubsan',
             [('maps', 1, 0.5, 30), ('algebra', 1, 1, 60)],
             srcs=['numerics/sin_cos.cpp', 'numerics/cbrt.cpp',
                   'base/cpuid.cpp', 'geometry/instant.cpp'],
             shim=['core_math'], opt='-O0', defs=['FUSED=1'], cxxflags=FMA)],
        rule='A case is a map with its matrix, a triple of vectors, a set of '
             'weighted points, a triple of homogeneous coordinates, or a '
             'camera with a segment and spheres.',
        min_distinct=1000,
        technique='UBSan and debug assertions; extended-precision matrix model '
                  'of the maps; ray-casting oracle for the perspective'),
    'C07': Check(
        [Leg('c07', ['c07_elliptic.cpp'], 'asan',
             [('integrals', 1, 1, 60), ('functions', 1, 1, 60)],
             srcs=['numerics/elliptic_integrals.cpp',
                   'numerics/elliptic_functions.cpp',
                   'numerics/sin_cos.cpp', 'numerics/cbrt.cpp',
                   'base/cpuid.cpp'],
             shim=['core_math'], opt='-O1')],
        rule='A case is an amplitude or argument with a parameter and a '
             'characteristic.',
        min_distinct=10000,
        technique='ASan+UBSan and debug assertions; Carlson integrals in '
                  'long double as oracles'),
    'C08': Check(
        [Leg('c08-asan', ['c08_solvers.cpp'], 'asan',
             [('roots', 2, 1, 40), ('quadratures', 2, 1, 40),
              ('optimization', 2, 1, 40)],
             srcs=['numerics/sin_cos.cpp', 'numerics/cbrt.cpp',
                   'base/cpuid.cpp', 'geometry/instant.cpp'],
             shim=['core_math'], opt='-O0')],
        rule='A case is a function with its bounds and known roots, extrema or '
             'integral, or the coefficients of a quadratic equation.',
        min_distinct=1000,
        technique='ASan+UBSan and debug assertions; monitors on every '
                  'evaluation requested; known solutions, extended precision '
                  'and replayed refinement levels as oracles'),
    'C09': Check(
        [Leg('c09-asan', ['c09_linear_algebra.cpp'], 'asan',
             [('matrices', 2, 1, 40), ('containers', 1, 1, 40),
              ('lattices', 2, 1, 40), ('transforms', 1, 1, 40)],
             srcs=['numerics/sin_cos.cpp', 'numerics/cbrt.cpp',
                   'base/cpuid.cpp'],
             shim=['core_math'], opt='-O0')],
        rule='A case is a matrix or a system to decompose, containers with '
             'their operations and histories, the basis of a lattice, or a '
             'signal.',
        min_distinct=1000,
        technique='ASan+UBSan and debug assertions; residuals in extended '
                  'precision, exact rational arithmetic, naive models and '
                  'transforms as oracles'),
    'C11': Check(
        [Leg('c11-asan', ['c11_search.cpp'], 'asan',
             [('pcp', 4, 1, 100), ('sets', 1, 1, 60)],
             srcs=['numerics/sin_cos.cpp', 'numerics/cbrt.cpp',
                   'base/cpuid.cpp'],
             shim=['core_math'])],
        rule='A case is a cloud of values (8 shapes, with duplicates, ties and '
             'degenerate directions), a cell size and a history of additions '
             'and filtered queries; or a history of unions; non-trivial if the '
             'tree has several cells, or the history several unions.',
        min_distinct=500,
        technique='ASan+UBSan; exhaustive search and naive partition as '
                  'oracles of each answer'),
    'C06': Check(
        [Leg('c06-' + name, ['c06_polynomials.cpp'], 'ubsan',
             [(mode, 1, 1, 60) for mode in modes],
             srcs=['numerics/sin_cos.cpp', 'numerics/cbrt.cpp',
                   'base/cpuid.cpp', 'geometry/instant.cpp'],
             shim=['core_math'], ldflags=['-lquadmath'], opt='-O0',
             defs=[macro])
         for name, macro, modes in [
             ('monomial', 'MONOMIAL=1', ['monomial']),
             ('monomial-affine', 'MONOMIAL=2', ['monomial']),
             ('algebra', 'ALGEBRA=1', ['algebra']),
             ('chebyshev', 'CHEBYSHEV=1', ['чебышёв']),
             ('newhall', 'NEWHALL=1', ['newhall']),
             ('rest', 'REST=1', ['hermite', 'approximation'])]],
        rule='A case is a polynomial (degree, type of values, origin, scale), '
             'a pair of polynomials to combine, an interval with a function '
             'to approximate, or data to interpolate.',
        min_distinct=1000,
        technique='UBSan and debug assertions; quadruple-precision models with '
                  'rounding bounds; interpolation and contiguity oracles'),
    'C14': Check(
        [Leg('c14-asan', ['c14_discrete_trajectory.cpp'], 'asan',
             [('', 4, 1, 60)],
             srcs=['numerics/sin_cos.cpp', 'numerics/cbrt.cpp',
                   'base/cpuid.cpp', 'base/zfp_compressor.cpp',
                   'geometry/instant.cpp'],
             shim=['core_math', 'zfp'])],
        rule='A case is a history of up to 40 operations (appends, new, '
             'detached, attached, deleted segments, forgetting, downsampling, '
             'serialization of ranges, merges, moves) on a trajectory; '
             'non-trivial if it has several segments or operations.',
        min_distinct=500,
        technique='ASan+UBSan+LSan; naive model of the segments checked after '
                  'each operation; error of downsampling measured against the '
                  'points appended'),
    'C15': Check(
        [Leg('c15-asan', ['c15_continuous_trajectory.cpp'], 'asan',
             [('sequential', 4, 1, 20)], shim=['core_math', 'zfp'],
             srcs=C15_SRCS, opt='-O0'),
         Leg('c15-tsan', ['c15_continuous_trajectory.cpp'], 'tsan',
             [('threads', 3, 1, 20)], shim=['core_math', 'zfp'],
             srcs=C15_SRCS, opt='-O0', threads=4)],
        rule='A case is a motion, a step, a tolerance and a number of points, '
             'appended one by one, with checkpoints, prefixes, evaluations in '
             'various orders or in several threads; non-trivial if there are '
             'several polynomials.',
        min_distinct=300,
        technique='ASan+UBSan and TSan over random histories; independent '
                  'constrained least-squares fit as an oracle of evaluation; '
                  'bitwise differential for order, checkpoints and threads'),
    'C16': Check(
        [Leg('c16-asan', ['c16_ephemeris.cpp'], 'asan',
             [('forces', 1, 1, 20), ('motion', 2, 1, 20),
              ('history', 1, 1, 20), ('reanimation', 2, 1, 20),
              ('flow', 2, 1, 20)], shim=['core_math', 'zfp'],
             srcs=PHYSICS_SRCS, opt='-O0')],
        rule='A case is a random system (1 to 6 bodies, some of them oblate), '
             'an integrator, a step and tolerances, with times and places, a '
             'history of prolongations, checkpoints and reanimations, or '
             'flows of massless bodies.',
        min_distinct=200,
        technique='ASan+UBSan; long double model of the forces and of the '
                  'motion as an oracle; bitwise differential for histories, '
                  'saves and reanimations'),
    'C17': Check(
        [Leg('c17-tsan', ['c16_ephemeris.cpp'], 'tsan',
             [('threads', 4, 1, 20), ('awaiting', 2, 1, 20)], shim=['core_math', 'zfp'],
             srcs=PHYSICS_SRCS, opt='-O0', threads=6)],
        rule='A case is a random system with threads which prolong it, '
             'reanimate it, evaluate it and flow massless bodies.',
        min_distinct=15,
        technique='TSan with perturbation of locks; bitwise comparison of each '
                  'result with that of a single thread'),
    'C27': Check(
        [Leg('c27-tsan', ['c27_checkpoints.cpp'], 'tsan',
             [('sequential', 1, 1, 20), ('threads', 3, 4, 60)],
             srcs=C15_SRCS + ['physics/protector.cpp'], shim=['core_math'],
             opt='-O1', threads=2),
         Leg('c27-asan', ['c27_checkpoints.cpp'], 'asan',
             [('sequential', 2, 6, 100), ('threads', 2, 4, 40)],
             srcs=C15_SRCS + ['physics/protector.cpp'], shim=['core_math'],
             opt='-O1', threads=2)],
        rule='A case is a history of a checkpointer, a protector or a '
             'clientele, or a group of threads using one of them.',
        min_distinct=500,
        technique='TSan with perturbation of locks, and ASan+UBSan; abstract '
                  'containers as oracles; completeness and exactly-once '
                  'monitors'),
    'C12': Check(
        [Leg('c12', ['c12_integrators.cpp'], 'asan',
             [('orders', 4, 1, 10), ('histories', 2, 1, 30),
              ('adaptive', 1, 1, 40), ('picard', 1, 1, 30)],
             srcs=PHYSICS_SRCS, shim=['core_math', 'zfp'], opt='-O1')],
        rule='A case is the integration of a random problem by a method.',
        min_distinct=300,
        technique='ASan+UBSan; exact solutions in long double as oracles of '
                  'the orders; monitor of the steps of adaptive integrators; '
                  'bit-for-bit comparison of histories'),
    'C13': Check(
        [Leg('c13', ['c13_kepler.cpp'], 'asan',
             [('elements', 2, 1, 60), ('states', 2, 1, 60)],
             srcs=PHYSICS_SRCS, shim=['core_math', 'zfp'], opt='-O1')],
        rule='A case is a set of orbital elements, or a state, with the '
             'bodies.',
        min_distinct=1000,
        technique='ASan+UBSan and debug assertions; definitions of the '
                  'elements and Keplerian motion in long double as oracles'),
    'C21': Check(
        [Leg('c21', ['c21_dates.cpp'], 'asan',
             [('dates', 2, 1, 60), ('scales', 2, 1, 60)],
             srcs=['numerics/sin_cos.cpp', 'numerics/cbrt.cpp',
                   'base/cpuid.cpp', 'geometry/instant.cpp'],
             shim=['core_math'], opt='-O1')],
        rule='A case is a date, a time, a string, or an instant.',
        min_distinct=1000,
        technique='ASan+UBSan; integer calendar arithmetic, independent leap '
                  'tables and long double interpolation as oracles'),
}

NOT_APPLICABLE = {
}
