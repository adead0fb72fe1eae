#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the lines stay well-formed)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
P = []


def prop(id, title, statement, over, qtext, why, files, state, mech, obs, hook=False):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=obs, hook_needed=hook or None)))


prop('P01', 'Reading a function never changes it',
     'Evaluating, indexing, iterating, copying, querying (norms, integrals, inner products, roots, extrema, QR) or '
     'combining functions with an operation that is not in-place leaves every function that took part exactly as it was: '
     'same coefficients, same length, same sample values, same evaluation. The same holds for the right-hand operand of an '
     'in-place update (f += g never changes g) and for the arrays the caller passed in. It holds for scalar- and '
     'vector-valued Chebyshev and Fourier functions on any interval, after any history of operations, whether the '
     'operation succeeds or raises.',
     ['histories', 'inputs', 'fault_sequences'],
     'every finite history of public function operations (both bases, 1-3 columns, any length parity, any interval), every '
     'operand including f op f, and every point inside an operation at which an exception can surface',
     'The tests apply one operation to fresh functions and compare the result only; they never look at the operands again, '
     'never reuse an operand after a query, and never interrupt an operation.',
     ['funpy/fun.py', 'funpy/cheb/chebtech.py', 'funpy/cheb/ufuncs.pyx', 'funpy/cheb/detail.pyx', 'funpy/cheb/refine.py',
      'funpy/cheb/minmax.py', 'funpy/cheb/qr.py', 'funpy/trig/trigtech.py', 'funpy/trig/ufuncs.py', 'funpy/trig/eval.py',
      'funpy/trig/operations.py', 'funpy/functional.py'],
     [('coefficients', 'coefficient array of a Chebyshev/Fourier function', 'funpy/cheb/chebtech.py chebtech.coeffs'),
      ('values', 'sample values kept next to the Fourier coefficients', 'funpy/trig/trigtech.py trigtech.values')],
     [('operator dispatch', 'funpy/fun.py Fun.__array_ufunc__ / __array_function__'),
      ('binary operators', 'funpy/cheb/ufuncs.pyx, funpy/trig/ufuncs.py'),
      ('evaluation', 'funpy/cheb/detail.pyx clenshaw, funpy/trig/eval.py horner')],
     ['coefficient/value snapshots of every live function before and after each operation'])

prop('P02', 'Results and copies share no data with the functions they came from',
     'A function obtained by copying, deep-copying, selecting columns, real/imag/conj, unary plus, prolongation, '
     'concatenation, arithmetic or calculus owns its data: a later in-place update (+=, -=, *=, /=, prolong, simplify, '
     'assigning into its coefficients) of it, or of any function it was made from, changes only the function that was '
     'updated. An in-place update is visible through every other name for the same function object, and through nothing '
     'else.',
     ['histories'],
     'every history that interleaves operations producing functions with in-place updates of any live function, including '
     'f op= f and several names for one object',
     'Aliasing shows only when a result is produced, then one of the two functions is updated in place, then the other is '
     'read; unit tests check a result immediately and drop it.',
     ['funpy/fun.py', 'funpy/cheb/chebtech.py', 'funpy/cheb/ufuncs.pyx', 'funpy/trig/trigtech.py', 'funpy/trig/ufuncs.py',
      'funpy/trig/operations.py'],
     [('coefficients', 'coefficient storage of a function', 'chebtech.coeffs, trigtech.coeffs/values')],
     [('copy protocol', 'funpy/fun.py copy/__deepcopy__, chebtech.__deepcopy__, trigtech.__deepcopy__'),
      ('in-place operators', 'funpy/fun.py Fun.__array_ufunc__ out='),
      ('column selection', 'chebtech.__getitem__, trigtech.__getitem__')],
     ['snapshots of every live function after each in-place update'])

prop('P03', 'Every operation yields what pointwise mathematics prescribes, in any history',
     'After any history of operations every live function evaluates, everywhere on its interval and to roundoff-level '
     'accuracy, to the value the corresponding pointwise mathematics gives: + - * / with functions and scalars, powers, '
     'elementary functions, negation, absolute value, derivatives, antiderivatives, definite integrals, inner products, '
     'norms, shifts, convolution, composition, column selection and concatenation, one column combined with several, '
     'prolongation and simplification; Fourier functions of even length (whose highest mode is a cosine) included. The in-place form '
     'of an operator gives the same function as the plain form, and coefficients, sample values, sample points and '
     'evaluation of one function always describe the same function.',
     ['histories', 'inputs'],
     'every finite history of public function operations on Chebyshev and on Fourier functions with 1-3 columns on any '
     'interval, including operands produced by earlier operations (odd/even lengths, constants, zero functions, unequal '
     'lengths) and in-place forms',
     'Tests check single operations on freshly constructed functions of fixed length parity; wrong results appear for '
     'operands that only a history produces (a zero result, an even-length derivative, a prolonged or chopped function).',
     ['funpy/fun.py', 'funpy/cheb/chebtech.py', 'funpy/cheb/ufuncs.pyx', 'funpy/cheb/detail.pyx', 'funpy/cheb/diff.py',
      'funpy/cheb/minmax.py', 'funpy/trig/trigtech.py', 'funpy/trig/ufuncs.py', 'funpy/trig/eval.py',
      'funpy/trig/operations.py', 'funpy/trig/trig_simplify.py', 'funpy/trig/transform.py', 'funpy/mapping.py'],
     [('representation', 'coefficients, values, real flag, interval map', 'funpy/fun.py Fun.onefun/mapping')],
     [('arithmetic', 'funpy/cheb/ufuncs.pyx, funpy/trig/ufuncs.py'), ('calculus', 'diff/cumsum/sum in chebtech.py, trigtech.py'),
      ('interval map', 'funpy/mapping.py')],
     ['evaluation on a probe grid after each operation against an independent coefficient-level reference model'])

prop('P04', 'An interrupted operation does no damage and can be repeated',
     'If an operation on functions is cut short anywhere inside - a keyboard interrupt, a failed allocation, an exception '
     'from a user callback - the error reaches the caller, every function that was only being read is unchanged, no '
     'unrelated function or later result is affected, and repeating the operation gives the result it would have given '
     'had nothing failed. If the cut-short operation was an in-place update, its target is still a well-formed function '
     'and every other function is unchanged.',
     ['fault_sequences', 'crash_points', 'histories'],
     'every operation of a history, every line inside the library at which an asynchronous or allocation error can '
     'surface, and any number of failed attempts before the successful one',
     'Tests never fail an operation half way; whether state was modified before the failing line, or a cache was left '
     'half filled, is invisible to them.',
     ['funpy/fun.py', 'funpy/cheb/chebtech.py', 'funpy/cheb/refine.py', 'funpy/cheb/pts.py', 'funpy/cheb/ufuncs.pyx',
      'funpy/trig/trigtech.py', 'funpy/trig/refine.py', 'funpy/trig/ufuncs.py', 'funpy/trig/operations.py'],
     [('coefficients/values', 'state of the functions involved', 'chebtech.coeffs, trigtech.coeffs/values'),
      ('memo caches', 'memoised grids, weights, transforms', 'functools.lru_cache users')],
     [('exception path of each operation', 'funpy/fun.py, funpy/cheb, funpy/trig')],
     ['snapshots around the failed operation, result of the retry'])

prop('P05', 'Threads sharing functions get the results they would get alone',
     'Any number of threads may evaluate, query and combine the same functions at once with operations that are not '
     'in-place: under every interleaving each thread gets the result it would get running alone, no operation fails that '
     'would not fail alone, and the shared functions are unchanged. This covers first-time and repeated use of memoised '
     'grids and weights, and updates a thread makes in place to functions only it owns.',
     ['schedules', 'histories'],
     'every interleaving, at the granularity of library source lines and numerical kernel calls, of 2-4 threads running '
     'arbitrary histories of read-only operations on shared functions and of arbitrary operations on private ones',
     'The tests are single threaded, and a test that started threads would sample a handful of schedules the operating '
     'system happens to pick.',
     ['funpy/fun.py', 'funpy/cheb/chebtech.py', 'funpy/cheb/pts.py', 'funpy/cheb/detail.pyx', 'funpy/trig/trigtech.py',
      'funpy/trig/eval.py', 'funpy/trig/operations.py'],
     [('shared function', 'function object visible to several threads', 'funpy/fun.py Fun.onefun'),
      ('memo caches', 'process-wide caches', 'funpy/cheb/pts.py, funpy/trig, funpy/colloc')],
     [('read-only operations', 'funpy/fun.py'), ('memoisation', 'functools.lru_cache users')],
     ['per-thread results against the single-threaded reference'])

prop('P06', 'Grids, weights and matrices do not depend on what was requested before',
     'Chebyshev and Fourier points, quadrature and barycentric weights, interpolation matrices, transforms and '
     'differentiation/conversion/multiplication operators returned for given arguments are the same whatever was '
     'requested earlier, in whatever order, however often and at however many different sizes, and whatever callers or '
     'sampled callbacks did to the arrays handed to them. Consequently constructing, evaluating or integrating a function '
     'never depends on such earlier use.',
     ['histories', 'inputs'],
     'every history of requests of any sizes (far more than the caches hold), with callers and user callbacks overwriting '
     'in place every array they are given',
     'Needs a second request after a caller has modified the first answer, or more distinct sizes than the cache holds; '
     'tests request each size once and do not modify answers.',
     ['funpy/cheb/pts.py', 'funpy/cheb/refine.py', 'funpy/cheb/chebtech.py', 'funpy/trig/trigpts.py', 'funpy/trig/refine.py',
      'funpy/colloc/ultraS/matrices.py', 'funpy/colloc/ultraS/transform.py', 'funpy/colloc/trigspec/matrices.py'],
     [('memo caches', 'memoised arrays and sparse matrices', 'funpy/cheb/pts.py lru_cache; funpy/colloc/*/matrices.py')],
     [('memoisation', 'functools.lru_cache decorators')],
     ['returned arrays against closed-form references computed independently'])

prop('P07', 'Saved functions and states load back identical or not at all',
     'Writing a function or a solution state to an HDF5 file and reading it back - in the same or another process, at any '
     'point of a history - gives an equal function (type, interval, coefficients, values, tolerances) or state '
     '(functions, parameters with names, weights, namespace). Saving and loading modify neither the object saved nor one '
     'loaded earlier; if a write fails or the process dies part way (full disk, I/O error, torn or lost writes), loading '
     'either raises an error or returns a state that was completely saved, never a different one, and previously saved '
     'groups in the same file stay readable through the surviving handle.',
     ['crash_points', 'fault_sequences', 'histories'],
     'every history of saves, loads and updates of functions and states, every write request of a save at which the disk '
     'can fail or the process can die, and every subset/prefix of unsynced writes surviving',
     'The tests write no file at all; the interesting cases need a failure at a chosen write inside a save.',
     ['funpy/fun.py', 'funpy/cheb/chebtech.py', 'funpy/trig/trigtech.py', 'funpy/vectorspaces/base_state.py',
      'funpy/vectorspaces/parameter.py', 'funpy/vectorspaces/namespace.py', 'funpy/vectorspaces/State.py'],
     [('file contents', 'HDF5 datasets poly/weights/signature, groups, attributes', 'writeHDF5/from_hdf5 methods')],
     [('save', 'writeHDF5'), ('load', 'from_hdf5')],
     ['loaded object against the saved snapshot'])

prop('P08', 'Results depend on the arguments only, and no process-wide setting is disturbed',
     'The outcome of constructing, combining, saving, compiling and solving does not depend on the hash seed, the clock, '
     'the contents of freshly allocated memory, the global random state, warning filters (other than turning warnings into '
     'errors), numpy error reporting (other than raising) or print options, the working directory, the thread used, or on '
     'work done earlier in the process. The library leaves those settings as it '
     'found them (also when an operation fails), except for the random-function constructors drawing from the global '
     'random generator.',
     ['histories', 'configurations', 'fault_sequences'],
     'every program of public operations, every hash seed, clock behaviour, allocator content, random state, warning filter '
     'and non-raising error reporting, and every prior history in the same process',
     'A test process has one hash seed, zero-filled or recycled memory as luck has it, and default settings; tests do not '
     'compare two runs of the same program under different surroundings.',
     ['funpy/cheb/detail.pyx', 'funpy/cheb/pts.py', 'funpy/cheb/qr.py', 'funpy/colloc/chebOp.py',
      'funpy/colloc/source/compiler.py', 'funpy/newton/qnerr.py', 'funpy/newton/nleq_err.py', 'funpy/fun.py'],
     [('process-wide settings', 'numpy error state, warning filters, RNG state, print options', 'interpreter')],
     [('scratch allocation', 'np.empty users'), ('symbol sets', 'funpy/colloc/source/compiler.py'),
      ('warning suppression', 'funpy/cheb/pts.py barymat')],
     ['result digests of one program under perturbed environments; settings before/after'])

prop('P09', 'Adaptive construction survives misbehaving callbacks',
     'Building a function from a callable (or list of callables) samples it a bounded number of times at points inside the '
     'requested interval, and returns an approximation accurate to the requested tolerance whenever the callable is '
     'resolvable. If the callable raises, that exception reaches the caller unchanged; if it returns NaN/Inf, the wrong '
     'shape, or is unresolvable, construction still terminates within the sampling bound by raising or by returning a '
     'function not marked resolved. A failed construction leaves nothing behind: the next construction, evaluation or '
     'query gives the same result as in a fresh process.',
     ['fault_sequences', 'inputs', 'histories'],
     'every resolvable or unresolvable callable, every evaluation at which it can raise or return garbage, stateful and '
     're-entrant callables (that use the library themselves), any interval and both bases',
     'Tests construct from well-behaved callables only; whether the k-th refinement step failing leaves damage depends on '
     'where in the refinement the failure falls.',
     ['funpy/fun.py', 'funpy/cheb/chebtech.py', 'funpy/cheb/refine.py', 'funpy/trig/trigtech.py', 'funpy/trig/refine.py',
      'funpy/cheb/detail.pyx'],
     [('refinement state', 'values sampled so far', 'Refine.values'), ('resolved flag', 'ishappy', 'chebtech/trigtech.ishappy')],
     [('refinement loop', 'populate'), ('sample points', 'Refine.__call__'), ('interval map', 'Fun.__init__ get_op')],
     ['callback log (points, count), constructed function against the callable, later constructions'])

prop('P10', 'Nonlinear solvers report success only at a root, always stop, spare the guess',
     'Each Newton-type solver stops within its iteration limit for every system, and if it reports success the returned '
     'point solves the system to the accuracy implied by the requested tolerance. A failed linear solve, a system that '
     'diverges or produces NaN, or a callback asking to stop ends the solve without reporting success at a non-root; an '
     'exception from the system or callback reaches the caller. The caller\'s initial guess is never modified, and after '
     'any failure solving again gives the same answer as a first attempt. A fault-free solve started close to the root of '
     'a gently nonlinear system succeeds, and the iterative linear solver inside (gbit) reports success only for an '
     'accurate solution.',
     ['fault_sequences', 'inputs', 'histories'],
     'every smooth system, initial guess, tolerance and solver variant, and every residual evaluation, linear solve or '
     'callback at which a failure (error, NaN, reported failure, stop request) is injected',
     'The solver packages have no passing tests of faults; what happens when the k-th inner solve fails depends on the '
     'damping state, the quasi-Newton phase and k.',
     ['funpy/newton/newton_standard.py', 'funpy/newton/nleq_err.py', 'funpy/newton/qnerr.py', 'funpy/newton/giant.py',
      'funpy/newton/newton.py', 'funpy/linalg/gbit.py'],
     [('iterate', 'current Newton iterate', 'newton/*.py x'), ('damping factor', 'step damping', 'nleq_err.py/giant.py lam')],
     [('main loops', 'newton_standard, nleq_err, qnerr, giant_gbit'), ('inner iteration', 'funpy/linalg/gbit.py gbit')],
     ['returned point, success flag and iteration count; residual recomputed independently'])

prop('P11', 'A differential operator behaves like a fresh one after any history of use',
     'Solving a boundary-value or periodic problem with an operator gives the same answer (solution, success flag, '
     'residual) as a newly built operator with the same equations, boundary conditions, domain and current parameters, '
     'whatever was done with it or with other operators before: earlier solves, residual evaluations, linearisations at '
     'other resolutions, parameter changes passed with the state, failed or interrupted solves. Success means the returned '
     'function satisfies the equation and the boundary conditions to the requested accuracy; the guess passed in is '
     'unchanged and copies of an operator behave like it and independently of it.',
     ['histories', 'fault_sequences', 'inputs'],
     'every history of solve/residual/linearise/copy/parameter-change operations on one or several operators (linear and '
     'nonlinear, scalar and systems, both discretisations), with inner failures and interrupts injected',
     'The operator tests solve one problem once (and currently fail); state left over in compiled operators, '
     'discretisations and caches matters only from the second use on.',
     ['funpy/colloc/chebOp.py', 'funpy/colloc/LinSys.py', 'funpy/colloc/LinSysBase.py', 'funpy/colloc/adapt.py',
      'funpy/colloc/quasiOp.py', 'funpy/colloc/linOp.py', 'funpy/colloc/linBlock.py', 'funpy/colloc/linearFunctional.py',
      'funpy/colloc/ultraS/ultraS.py', 'funpy/colloc/trigspec/trigspec.py', 'funpy/colloc/source/compiler.py',
      'funpy/newton/NewtonSystem.py'],
     [('compiled operator', 'generated code, linearised blocks, parameters', 'ChebOp.linSys, Source'),
      ('discretisation size', 'current resolution', 'ChebOp.n_disc')],
     [('compile-once', 'ChebOp.compile'), ('per-iterate update', 'LinSys.update_partial/quasi'), ('adaptivity', 'SolverAdaptive.solve')],
     ['solution against a manufactured exact solution and against a fresh operator; residual recomputed independently'])

prop('P12', 'Iterating a function or state visits each column once, whatever else is going on',
     'Iterating over a function or a solution state yields its columns, each exactly once and in order, for every '
     'iteration: nested or interleaved iterations over the same object, iterations abandoned early or ended by an '
     'exception, iterations restarted, iterations running in other threads, and operations on the object performed '
     'between steps do not influence each other. Iterating changes nothing about the object.',
     ['schedules', 'histories'],
     'every interleaving of the steps of any number of iterations over shared functions and states, mixed with read-only '
     'operations, early exits and exceptions, in one or several threads',
     'A test iterates once from start to end; the failure needs a second iteration to start or step while the first is '
     'under way.',
     ['funpy/fun.py', 'funpy/trig/trigtech.py', 'funpy/cheb/chebtech.py', 'funpy/vectorspaces/base_state.py',
      'funpy/vectorspaces/mp_state.py'],
     [('iteration position', 'where an iteration stands', 'Fun.__iter__/__next__, BaseState.__iter__')],
     [('iterator protocol', 'Fun.__iter__, trigtech.__iter__, BaseState.__iter__')],
     ['sequence of columns seen by each iteration against the columns of the object'])

prop('P13', 'Solution states form a vector space and stay independent, in any history',
     'Sums, differences, scalar multiples, negation, copies, zeros and ones of states (functions plus named parameters) '
     'act componentwise on functions and parameters, keep parameter names, and in-place forms give the same state as plain '
     'forms; inner product and norm are the weighted sums over components, flattening and rebuilding from coefficients and '
     'parameters is faithful, and the point of a bifurcation diagram is the parameter with the (signed) norm asked for. Operations that are not in-place change no '
     'operand, and an in-place update changes no other state, function or parameter: a state, its copies, results computed '
     'from it and their parameters stay independent through any history.',
     ['histories', 'fault_sequences'],
     'every history of state operations over all state kinds (plain, deflation, continuation, two-parameter), both bases '
     'and 1-2 columns, with errors injected inside operations',
     'Tests check one operation per state kind on fresh states and do not look at operands or siblings afterwards.',
     ['funpy/vectorspaces/base_state.py', 'funpy/vectorspaces/State.py', 'funpy/vectorspaces/deflation_state.py',
      'funpy/vectorspaces/cont_state.py', 'funpy/vectorspaces/tp_state.py', 'funpy/vectorspaces/parameter.py',
      'funpy/vectorspaces/namespace.py'],
     [('components', 'functions, parameters, weights, namespace', 'BaseState.funcs/reals/weights/ns')],
     [('componentwise dispatch', 'BaseState.__array_ufunc__'), ('parameters', 'Parameter.__array_ufunc__')],
     ['component snapshots against a componentwise reference model'])

prop('P14', 'The adaptive resolution driver is honest about inner failures',
     'The driver that repeats a nonlinear solve at increasing resolution stops after finitely many inner solves (at most '
     'its configured number of resolutions), uses strictly increasing resolutions within its bounds, and gives up early '
     'only as configured. Each inner solve starts from the last accepted state (the caller\'s one before that) at the new '
     'resolution. Success is reported only if the last inner solve succeeded and either its state agrees with the one it '
     'started from to the requested tolerance or it was at the finest resolution allowed; the state then returned is the '
     'accepted one or agrees with it to that tolerance. After a failure the last accepted state (or the caller\'s) is '
     'returned; a state from a failed inner solve is never used as a guess nor returned. The caller\'s state is unchanged, '
     'and a driver used before behaves like a fresh one.',
     ['fault_sequences', 'histories', 'configurations'],
     'every sequence of inner outcomes (success with any error, failure with any garbage or NaN state, exception, solvers '
     'that work in one state of their own), every resolution bound and tolerance, repeated use of one driver',
     'Needs inner solves that fail at chosen resolutions in chosen orders; no test drives the driver at all.',
     ['funpy/colloc/adapt.py', 'funpy/colloc/tools.py', 'funpy/colloc/chebOp.py'],
     [('accepted state', 'last accepted iterate', 'SolverAdaptive.solve state')],
     [('resolution ladder', 'SolverAdaptive.n_disc'), ('stopping rule', 'SolverAdaptive.solve')],
     ['log of inner solves (resolution, guess, outcome) and the returned triple'])

prop('P15', 'Deflated search finds new solutions, and keeps its list of known ones honest',
     'A search for a further solution of a nonlinear problem that reports success returns a function that solves the '
     'problem itself (not only the deflated one) and differs from every solution in its list of known ones. On success it '
     'records exactly the function it returned (unless told not to learn it); a search that fails, is interrupted or meets '
     'an error leaves the list, the recorded functions and the starting state as they were, and repeating it gives what a '
     'seeker that never failed gives with the same list. Functions added by the caller are deflated as given; seekers do '
     'not influence each other. The deflated residual is the residual times the deflation factor of the known solutions in '
     'the H1 norm, and the linearised system that is solved is its derivative, whatever the basis, the number of columns '
     'and of known solutions; simple solutions that are not known are found from nearby.',
     ['histories', 'fault_sequences'],
     'every history of searches, additions and failures (evaluation errors, NaN or infinite residuals, singular systems, '
     'exceptions at any line) by one or more seekers, on problems with several solutions',
     'Needs at least two searches by one seeker; no test runs even one.',
     ['funpy/newton/newton_seeker.py', 'funpy/newton/NewtonSystem.py', 'funpy/newton/deflation.py', 'funpy/newton/FrechetDeflated.py',
      'funpy/support/Functional.py', 'funpy/fun.py', 'funpy/vectorspaces/deflation_state.py'],
     [('known solutions', 'functions deflated', 'NewtonSeeker.known_solutions'), ('deflation factor and its derivative', 'eta, deta', 'NewtonSystem.matrix')],
     [('search', 'NewtonSeeker.solve'), ('deflated system', 'NewtonSystem.rhs/matrix/solve')],
     ['list of known solutions before and after each search', 'distance of the answer to the known solutions and to the exact ones',
      'deflated residual and derivative against an independent computation'])

prop('P16', 'A linear solver answers for the matrix it stands for, in any history',
     'A solver object of funpy.linalg (QR, QRCholesky, BMatrix, BEM, a BEM around a BEM, BEMW, ExactLinearSolver, '
     'LinearSolverNGSchur) stands for a matrix: the one it was built from, with every row and column since replaced by '
     'update_row or update_col. Whatever it was asked before, each answer (solution, adjoint solution, null vectors, solution for a '
     'unit or zero last component, minimum norm solution, determinant, tangent) satisfies its defining equations for that matrix, '
     'also when the core matrix is singular or nearly singular inside a regular bordered matrix; a system without solution is '
     'reported, not answered. An exception of the core solver reaches the caller and leaves the solver standing for the matrix it '
     'stood for, so the operation can be repeated. Solvers sharing a core, or built from the same lists, do not influence each '
     'other; nothing the caller handed over (matrices, borders, lists, right hand sides, guesses) is modified; answers belong to '
     'the caller, who may change them. gbit reports success only at a solution and stops; lucp, qr and the null vector functions '
     'factor the matrix they were given and leave it alone.',
     ['histories', 'fault_sequences'],
     'every history of questions, replacements, preparations and failures (of the core solver at any call, exceptions at any '
     'line) of several solvers sharing cores, over matrices, scales, argument types and memory layouts',
     'The test suite does not touch these classes.',
     ['funpy/linalg/bem_solve.py', 'funpy/linalg/bemw_solve.py', 'funpy/linalg/qr_solve.py', 'funpy/linalg/qr_chol.py',
      'funpy/linalg/brd_solve.py', 'funpy/linalg/exact_linear_solver.py', 'funpy/linalg/schur_solve.py', 'funpy/linalg/lucp.py',
      'funpy/linalg/nullspace.py', 'funpy/linalg/qr.py', 'funpy/linalg/gbit.py'],
     [('borders', 'rows, columns and corners handed over and replaced', 'BEM.b/c/d, BEMW.bs/cs/ds'),
      ('preparation', 'solutions of the core system for the borders', 'BEM.beta/gamma/delta/eta, BEMW.storage'),
      ('factorisation and null vectors', 'QR, phi and psi', 'QR.null')],
     [('replacement', 'update_row/update_col'), ('preparation', 'prepare'), ('question', 'solve, solve_adj, solve_null, ...')],
     ['every answer against a dense solution of the matrix the model stands for', 'bytes of every argument after every operation',
      'which matrix a solver stands for after a failed replacement'])

NA = [
 ('P20', 'Constructed approximations are accurate to tolerance for resolvable functions',
  'For a resolvable callable the constructed Chebyshev or Fourier function agrees with it to the requested tolerance.',
  ['funpy/cheb/chebtech.py', 'funpy/trig/trigtech.py', 'funpy/cheb/detail.pyx']),
 ('P21', 'Roots and extrema are complete and accurate',
  'All real roots of a resolved function in its interval, and its global minimum and maximum, are found to accuracy.',
  ['funpy/cheb/detail.pyx', 'funpy/cheb/minmax.py']),
 ('P22', 'Value/coefficient transforms are mutually inverse',
  'Converting values to coefficients and back is the identity to roundoff for every length and number of columns.',
  ['funpy/cheb/detail.pyx', 'funpy/trig/transform.py']),
 ('P23', 'QR of a function gives orthonormal columns and reproduces it',
  'The QR factorisation of a vector-valued function has orthonormal Q, triangular R and Q R equal to the function.',
  ['funpy/cheb/qr.py', 'funpy/qr.py']),
 ('P24', 'Bordered, nullspace and dense linear solvers solve their systems',
  'Bordered, deflated, nullspace and QR/LU based solvers return solutions with small backward error.',
  ['funpy/linalg/bem_solve.py', 'funpy/linalg/bemw_solve.py', 'funpy/linalg/brd_solve.py', 'funpy/linalg/nullspace.py',
   'funpy/linalg/qr_chol.py', 'funpy/linalg/schur_solve.py', 'funpy/linalg/fold_solve.py']),
 ('P25', 'The symbolic linearisation is the Frechet derivative of the operator',
  'The linearised operator generated from symbolic equations is the derivative of the residual at every state.',
  ['funpy/colloc/source/compiler.py', 'funpy/colloc/LinSys.py']),
 ('P26', 'Ultraspherical and Fourier discretisation matrices represent their operators',
  'Differentiation, conversion and multiplication matrices act on coefficients as the operators they discretise.',
  ['funpy/colloc/ultraS/matrices.py', 'funpy/colloc/trigspec/matrices.py', 'funpy/ultra.py']),
 ('P27', 'Norms and inner products satisfy their axioms',
  'Norms are non-negative, homogeneous and satisfy the triangle inequality; inner products are bilinear and symmetric.',
  ['funpy/fun.py', 'funpy/vectorspaces/base_state.py']),
]
NA_WHY = ('A pure numerical fact about one call: value-only result of its arguments, needs many inputs rather than many '
          'schedules or histories; tests sample a handful of inputs.')
for i, t, s, fs in NA:
    prop(i, t, s, ['inputs'], 'every admissible input of the single call', NA_WHY, fs,
         [], [('kernel', fs[0])], ['returned value'])

with open(OUT, 'w') as fh:
    for p in P:
        fh.write(json.dumps(p) + '\n')
