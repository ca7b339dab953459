"""What each check is built from, and what its space and bounds are (for MANIFEST.json and the evidence)."""
FLAGS = ['-std=c++17', '-O1', '-D_GLIBCXX_ASSERTIONS', '-w']

# assumptions shared by the checks that run the integrators
A_STEP = ['one thread: the library starts none, so environment answers and call sequences are the only nondeterminism',
          'tolerances of the oracle are rounding bounds computed from the magnitudes in each step, not fitted constants',
          'outside the listed problems, intervals, steps and tolerances nothing is claimed']
RK = 'every explicit and implicit Runge-Kutta method that has coefficients'

CHECKS = {
 'C01': dict(src='c01_grid.cpp',
   space=RK + ' x 5 (thorough 8) problems (stiff, oscillating, kicked, trivial) x 8 (14) intervals, also tiny, far from zero and negative, x fixed or adaptive x 4-10 initial steps (also longer than the interval, and one ulp off dividing it) x tolerances x maximum steps; the whole returned record of every execution is checked',
   bound='no environment deviations; every configuration of the product is run', assumptions=A_STEP),
 'C02': dict(src='rk_steps.cpp', variants=[('std', ['-DPROP=2'])],
   space='every explicit method x 13 problems x 4 (6) intervals x fixed/adaptive x 3 (5) steps x tolerances, and for 5 of the problems additionally every execution in which one (thorough: two) answers of the right-hand side are multiplied by 30 (thorough also by -1), at every call; every accepted step is recomputed from the log of calls (each stage must have been returned by the user functor at the point the tableau prescribes)',
   bound='1 (thorough 2) disturbed answers, among the first 400 (60) calls', assumptions=A_STEP),
 'C03': dict(src='rk_steps.cpp', variants=[('std', ['-DPROP=3'])],
   space='every explicit method with an embedded one x 13 problems x 4 (6) intervals x 3 (5) initial steps x 6 (8) tolerance pairs x maximum step on/off, with one (two) disturbed answers at every call as in C02; estimate, norm, acceptance and growth of every accepted step',
   bound='1 (thorough 2) disturbed answers, among the first 400 (60) calls', assumptions=A_STEP + ['the growth cap of the explicit integrator is a factor of 4 on the step it grows from']),
 'C04': dict(src='rk_steps.cpp', variants=[('std', ['-DPROP=4']), ('ndebug', ['-DPROP=4', '-DNDEBUG'])], limit_thorough=2400,
   space='every implicit method x 14 problems x 4 (6) intervals x fixed/adaptive x 3 (5) steps x tolerances x Newton refresh {10,0,1} x Newton tolerance {1e-10,1e-6} x Newton iterations {50,5}, with one (two) disturbed answers at every call, in builds with and without NDEBUG; residual of the stage equations and the update of every accepted step',
   bound='1 (thorough 2) disturbed answers, among the first 400 (60) calls', assumptions=A_STEP),
 'C05': dict(src='rk_steps.cpp', variants=[('std', ['-DPROP=5'])],
   space='every implicit method with an embedded one x 14 problems x 4 (6) intervals x 3 (5) initial steps x 6 (8) tolerance pairs x maximum step on/off; estimate (formula IV.8.19 or IV.8.20), norm, acceptance and growth of every accepted step',
   bound='no disturbed answers (the estimate is recomputed from the problem itself)', assumptions=A_STEP + ['the growth cap of the implicit integrator is a factor of 8']),
 'C06': dict(src='c06_budget.cpp',
   space=RK + ' x 5 (7) problems x 3 (4) intervals x fixed/adaptive x 4 steps x tolerances x output interval {1,3} x Newton that fails sometimes, and for each of these every step limit from none and 0 to one beyond the steps it needs',
   bound='limits up to 151', assumptions=A_STEP),
 'C07': dict(src='c07_faults.cpp',
   space='fault injection: every Runge-Kutta method fixed and adaptive, Adams-Bashforth 1-5, BDF 1-6 and the default calls, x problems; at every call of the right-hand side or Jacobi matrix one of: NaN, NaN in one component, infinity, NaN from then on, -infinity in one component from then on, an exception, 1e300; and right-hand sides that end (a wall in time at five places, a square root, a pole)',
   bound='1 fault at any of the first 400 calls (thorough: 2 faults, first 1200 calls); an execution that makes more than 60 times the calls of the undisturbed one plus 30000 counts as not ending', assumptions=A_STEP),
 'C08': dict(src='c08_counters.cpp',
   space=RK + ' x 6-7 problems x 3 (4) intervals x fixed/adaptive x 4 steps x tolerances x Newton refresh {10,0,1,2} x Newton iterations {50,5,3} x step limit {none,3,0} x output interval {1,4}; one (two) answers multiplied by 40 or NaN at every call; reported counters against the calls the functor saw',
   bound='1 (thorough 2) disturbed answers among the first 61 calls', assumptions=A_STEP),
 'C09': dict(src='c09_output.cpp',
   space=RK + ' x 3 (4) problems x 2 intervals x fixed/adaptive x 3 steps x step limit x output interval {1,2,3,5,7,100000} x stream x storage x log interval {0,1,3,10} x internal timing x precision; bit for bit against the run that stores everything, log lines against the steps; every sequence (depth 5, thorough 6) of calls that set streams, storage or copy the options',
   bound='no environment deviations', assumptions=A_STEP),
 'C10': dict(src='c10_order.cpp',
   space='every listed method x every rooted tree up to the claimed order (and the trees one order above), main and embedded weights, nodes, structure and predicates',
   bound='all rooted trees up to order 15: complete for every tableau in the library', assumptions=['tableaux have no other order conditions than those of rooted trees (Butcher)', 'an order condition counts as met at a relative error below 1e-13']),
 'C11': dict(src='c11_stability.cpp',
   space=RK + ' x a grid of real and imaginary parts of z = dt*lambda from 0 to 1e8, two pairs of eigenvalues rotated into a 4-dimensional system, x 2 (3) step sizes x 1-2 (4) steps x Newton refresh; each step against R(z)',
   bound='no environment deviations', assumptions=A_STEP + ['closer than 1e-3 to a pole of R in the right half plane nothing is checked']),
 'C12': dict(src='c12_registry.cpp',
   space='every sequence of look-ups (names, numbers, coefficients, lists of both families; unknown and swapped ones too) of length 2 (thorough 3), with the whole table re-read after each; every listed method on 5 problems in 5 ways',
   bound='sequences of 2 (3) look-ups over the complete alphabet of names and numbers', assumptions=['an unknown number or name is one of 12 listed representatives']),
 'C13': dict(src='c13_newton.cpp',
   space='systems of equations (regular, singular at the root or everywhere, without a root, 1 to 5 dimensions) x starts x all 16 combinations of the boolean options x refresh {1,4,10} x tolerances x maximum step x iteration limits, via the three entry points; one faulty answer (NaN, infinity, scaled) at any early call',
   bound='1 faulty answer among the first 6 (thorough 11) calls', assumptions=['single-threaded', 'convergence is demanded only from starts listed as well posed']),
 'C14': dict(src='c14_broyden.cpp',
   space='the systems of C13 x starts x options x tolerances x maximum step x 7 (14) iteration limits, by a functor whose Jacobi matrix is never needed; one faulty answer (NaN, infinity, 1e300, the previous answer again) at any early call; each step replayed from the log of evaluations',
   bound='1 faulty answer among the first 7 (thorough 13) calls', assumptions=['single-threaded', 'convergence is demanded only from starts listed as well posed']),
 'C15': dict(src='c15_jacobian.cpp',
   space='6 families of functions (polynomial, trigonometric, exponential, rational) coupled in 5 patterns, in 1-4 (6) dimensions, x points (small, generic, negative, 17.25; thorough more) x increments, one answer possibly NaN; verification with the correct matrix and with every single entry changed in several ways',
   bound='1 faulty answer; every entry of every matrix changed, one at a time', assumptions=['the accuracy demanded is that of the difference formula plus rounding']),
 'C16': dict(src='c16_poly.cpp',
   space='all products of two lists of factors up to 2 (3) entries; all sequences of up to 7 (8) distinct nodes of a 7 (8) letter alphabet; 8 to 10 (12) nodes of four families in all rotations, forwards and backwards; dense output of every step of every collocation method on 8 problems x steps x starts x fixed/adaptive',
   bound='list lengths 2 (3), 1-7 (8) nodes, alphabet of 7 (8) nodes', assumptions=A_STEP),
 'C17': dict(src='c17_cyclic.cpp', variants=[('asan', ['-O2', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'])], lib=False, link=['-larmadillo'],
   space='all sequences of 15 operations on two buffers (push of values, of own elements, of temporaries; writes at the front, the back, through iterators; assignment both ways and to itself; resizing; copying; swapping; starting anew) of depth 4 (int) or 3 (string, vector), thorough 5 or 4, from empty and wrapped states, capacities 1-3 and 0-2; and runs of up to 5 times the capacity for capacities 1-16 (40) followed by each operation; compared with a std::deque after every operation, under AddressSanitizer and UBSan',
   bound='operation depth 4/3 (thorough 5/4)', assumptions=['the element type only matters through its copy, move and comparison operations']),
 'C18': dict(src='multi.cpp', variants=[('std', ['-O2', '-DPROP=18'])],
   space='Adams-Bashforth of order 1-5 and the unsupported orders 6, 0, -1, 7, 100 x 16 problems x 3 starts x 3 lengths x 8 steps (also longer than the interval) x 2 (5) initial states, thorough also shifted ones; every point recomputed with coefficients derived in the harness',
   bound='no environment deviations (those are C07)', assumptions=A_STEP),
 'C19': dict(src='multi.cpp', variants=[('std', ['-O2', '-DPROP=19'])],
   space='BDF of order 1-6 and the unsupported orders 0, -1, 7, 100 x 16 problems x 3 starts x 3 lengths x 8 steps (also longer than the interval) x 2 (5) initial states; every point put into the formula with coefficients derived in the harness',
   bound='no environment deviations (those are C07)', assumptions=A_STEP),
 'C20': dict(src='c20_merge.cpp',
   space='all sequences of up to 5 (6) pieces out of 7 kinds, folded from the left and from the right, against a list model; integrations of every implicit method cut after every one of the first 25 (60) steps and continued, stored or not',
   bound='5 (6) pieces of 7 kinds; cuts after 0-24 (59) steps', assumptions=['status codes are bit flags, merged by or']),
 'C21': dict(src='c21_isolation.cpp', variants=[('std', ['-O2'])],
   space='24 tasks (integrations of all families, also failing, throwing and timed ones, solves, look-ups): every history of 3 tasks (thorough 4), every nesting of one task inside the functor calls of another (optionally a third inside that), and every interleaving of two tasks run as coroutines that may switch at their functor calls; results compared bit for bit with those of a fresh process',
   bound='histories of 3 (4); up to 1 and 2 (thorough 3) preemptions, for the latter at a subset of the switch points given per execution', assumptions=['interleaving is at calls of the user functor: the library has no other point where control leaves it; simultaneous execution of library code by several threads is not explored']),
 'C22': dict(src='c22_equations.cpp', variants=[('std', ['-O2'])],
   space='every built-in test equation x a grid of parameters x a grid of states and times: right-hand side against the published definition, Jacobi matrix against six-point differences (exact for the polynomial ones), invariants, exact solutions, the evaluation helper',
   bound='grids as listed in the harness', assumptions=['derivatives of the rational right-hand sides are compared with analytic ones']),
 'C23': dict(src='c23_example.cpp', variants=[('std', ['-O2'])], drivers=[('examples/example_equations.cpp', 'example', ['-ftrivial-auto-var-init=pattern'])],
   space='the compiled program: every equation with several inputs x every method x 3 (6) settings; every subset of six options in every order (quick: all orders of at most four of them); values floats do not hold, repeated and omitted options; every option without value, unknown options and names, non-numbers, help',
   bound='permutations of up to 6 (quick 4) options', assumptions=['the reference output is what the library called directly gives']),
 'C24': dict(src='c24_region.cpp', drivers=[('stability_region/main.cpp', 'region', [])],
   space='the compiled program for every listed method: all 2 x 32000 points of its grid and 35 of its axis against the determinant formula in long double; 14 wrong command lines',
   bound='the complete output of the program for every method', assumptions=['printed precision of 6 digits']),
 'C25': dict(src='c25_timer.cpp', variants=[('std', ['-O2'])],
   space='all sequences of 17 operations on timers and the clock of depth 5 (6), under a clock the explorer owns (clock functions replaced), also across second boundaries; the timing breakdown for all combinations of 6-7 values of six timings; integrations whose right-hand side advances the clock',
   bound='operation depth 5 (6)', assumptions=['the timer reads the clock through gettimeofday, clock_gettime or the C++ clocks']),
 'C26': dict(src='c26_convergence.cpp', variants=[('std', ['-O2'])],
   space=RK + ' x problems with a known solution x tolerances from 1e-2 to 1e-10 x intervals; fixed steps halved repeatedly for every Runge-Kutta and multistep method; the default calls, also on decoupled equations of very different size, each held to its own tolerance',
   bound='no environment deviations', assumptions=A_STEP + ['"modest multiple" is a bound per problem and method class fixed in the harness']),
 'C28': dict(src='c28_checks.cpp',
   space='coefficients of every shape (0-5 (6) weights, nodes, rows, columns) and with every set of 1-2 (3) further entries; every method whole and with something missing or too much; all combinations of options; the printed tableau of every method in every stream format; coefficient lists; all status codes; wrappers',
   bound='sizes up to 5 (6), entries up to 2 (3)', assumptions=['single-threaded']),
 'C29': dict(src='c29_control.cpp', variants=[('std', ['-O2'])],
   space=RK + ' with an embedded method x problems x intervals x first steps x 7 tolerances (absolute, relative, mixed) x maximum step x Jacobian refresh; every attempted step as the log tells it',
   bound='no environment deviations', assumptions=A_STEP + ['the log tells of every attempt whose stages were found (C09)']),
 'C27': dict(src='c27_units.cpp',
   space=RK + ' x problems x units (powers of two for state and time, the other sign) x intervals x tolerances x steps x maximum step x step limit x Newton settings, with a non-finite or 64 times too large answer at any early call; Adams-Bashforth of order 1; Newton for 19 systems with units for unknowns and equations; both runs compared bit for bit',
   bound='1 faulty answer among the first 25 (thorough 60) calls', assumptions=A_STEP + ['units that are powers of two, so that conversion is exact']),
}
for _i, _c in CHECKS.items():
    if _i == 'C21':
        _c['technique'] = 'stateless model checking of the implementation: a controlled scheduler enumerates histories, nestings and preemption-bounded coroutine interleavings; ' + _c['space']
    elif _i in ('C02', 'C03', 'C04', 'C07', 'C08', 'C13', 'C14', 'C27'):
        _c['technique'] = 'stateless model checking of the implementation with deviation-bounded environment answers (fault injection at every call): ' + _c['space']
    elif _i in ('C12', 'C17', 'C20', 'C25'):
        _c['technique'] = 'stateless model checking of the implementation: all operation sequences up to a depth, run in step with a reference model: ' + _c['space']
    elif _i in ('C23', 'C24'):
        _c['technique'] = 'stateless bounded model checking of the compiled program: all command lines of a bounded grammar against a reference: ' + _c['space']
    else:
        _c['technique'] = 'stateless bounded model checking of the implementation: exhaustive enumeration of ' + _c['space']
