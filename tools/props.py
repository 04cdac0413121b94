O = 'include/ode_num_int/ode/'
EXPL = [O + f for f in ('ExplicitRKHelper.h', 'OdeSolverExplicitRK.h', 'OdeSolverExplicitEmbeddedRK.h', 'OdeSolverExplicitEuler.h', 'OdeSolverRK4.h', 'OdeSolverDOPRI45.h', 'OdeSolverDOPRI56.h', 'OdeSolverDOPRI78.h', 'OdeSolverGragg.h')]
ROSE = [O + f for f in ('OdeSolverRosenbrock_W_base.h', 'OdeSolverRosenbrock_W1.h', 'OdeSolverRosenbrock_SW2_4.h')]
SOLV = [O + f for f in ('OdeSolverExplicitRK.h', 'OdeSolverExplicitEmbeddedRK.h', 'OdeSolverGragg.h', 'OdeSolverExtrapolator.h', 'OdeSolverImplicitEuler.h', 'OdeSolverRosenbrock_W1.h', 'OdeSolverRosenbrock_SW2_4.h')]
ENG = 'Decided by forward abstract interpretation of the type-checked source of every registered class; trusts the extractor, the models of std containers and of elementwise vector algebra (the latter judged separately), exact real arithmetic and user-supplied collaborators keeping to their interfaces.'
HIST = 'Assumes that collaborators (right-hand side, error norm, step size and event control, observers) do not modify the solver.'

P = [
 dict(id='C01', title='Explicit solvers take steps of the order they declare',
  statement='With no event detected, each step of an explicit integrator (Euler, RK4, the Dormand-Prince pairs in either propagation mode, and the smoothing-free modified midpoint method over consecutive steps) moves the state from (t, x) to (t+h, x1), where x1 is a Runge-Kutta combination of right-hand-side values whose coefficients satisfy every order condition up to the order the solver declares. Stage times agree with stage states.',
  over=['inputs', 'histories'],
  **{'for': 'every right-hand side, initial time and state, dimension and step size; first and later steps; after any number of rejected attempts'},
  why='A test integrates one or two equations to some tolerance; a wrong high-order coefficient or a stale stage passes on simple problems, and order is a statement about all right-hand sides.',
  files=EXPL, mech=[('Runge-Kutta stage evaluation', 'ExplicitRKHelper::compute'), ('tableaux in the solver constructors', 'OdeSolverRK4, OdeSolverDOPRI*'), ('modified midpoint step', 'OdeSolverGragg::doStep')],
  tech='forward abstract interpretation over linear forms; inferred Butcher tableau matched against rooted-tree order conditions',
  note=ENG + ' Steps truncated by events are excluded.'),
 dict(id='C02', title='Linearly implicit solvers meet their order for any approximate Jacobian',
  statement='Each step of a linearly implicit integrator is built from right-hand-side values and one linear operator I - h*d*J with the step size of that very attempt, and satisfies all order conditions, up to the declared order, that a method must satisfy when J is an arbitrary approximation of the Jacobian. This holds when a rejected attempt is retried with another step size and for systems with second order variables.',
  over=['inputs', 'histories'],
  **{'for': 'every right-hand side, approximate Jacobian, dimension, number of second order variables, step size and setting of the reuse thresholds; first and later steps and steps after a new start; any number of rejected attempts'},
  why='The existing tests never run these solvers; a matrix that was factorised for another step size or a wrong coefficient still gives plausible numbers on smooth problems.',
  files=ROSE + ['include/ode_num_int/lu/LUFactorizer.h'], mech=[('iteration matrix and its reuse', 'OdeSolverRosenbrock_W_base::updateW'), ('stages', 'OdeSolverRosenbrock_W1::doStep, OdeSolverRosenbrock_SW2_4::doStep'), ('block elimination of second order variables', 'OdeSolverRosenbrock_W_base::linSolve, mult')],
  tech='forward abstract interpretation over linear forms with matrix atoms; two-coloured rooted-tree expansion; lattice of cached factorisations',
  note=ENG + ' Linear solves are exact.'),
 dict(id='C03', title='Error estimates have the order they are judged with',
  statement='Whenever a solver with an embedded error estimate lets the step size control judge an attempt, the estimate is a combination of increments of that attempt which vanishes for all orders up to the order handed to the step size control and not at the next one, in either propagation mode.',
  over=['inputs', 'histories'],
  **{'for': 'every right-hand side, approximate Jacobian, initial state, dimension and step size; first and later steps; after any number of rejected attempts'},
  why='An estimate of the wrong order only changes how step sizes develop; every single step still looks right, so no test on solutions can tell.',
  files=[O + 'OdeSolverExplicitEmbeddedRK.h', O + 'OdeSolverDOPRI45.h', O + 'OdeSolverDOPRI56.h', O + 'OdeSolverDOPRI78.h', O + 'OdeSolverRosenbrock_SW2_4.h'], mech=[('estimate from the difference of two solutions', 'OdeSolverExplicitEmbeddedRK::doStep'), ('estimate from extra stages', 'OdeSolverRosenbrock_SW2_4::doStep')],
  tech='forward abstract interpretation over linear forms; elementary weights of the estimate over all rooted trees',
  note=ENG),
 dict(id='C04', title='Every step attempt is announced once and reported once, truthfully',
  statement='Each step attempt of every solver is announced to the pre-step observers exactly once, with the step size actually attempted, and then reported to the post-step observers exactly once before the next attempt starts or the step returns. The report carries the attempted step size, the decisions of the step size control (accepted, size changed), the error norm judged, and whether and by which event and transition the step was truncated.',
  over=['inputs', 'histories', 'configurations'],
  **{'for': 'every registered solver, with and without event control, every decision of the step size and event controls, any number of rejected attempts, first and later steps and steps after a new start'},
  why='Observers see attempts, not results: a report that is wrong only for rejected or truncated attempts, or after a new start, does not show up in any solution a test compares.',
  files=SOLV + [O + 'interfaces/OdeSolver.h'], mech=[('observer protocol', 'OdeSolver::odeSolverPreObservers, odeSolverPostObservers'), ('step loops', 'doStep of every solver')],
  tech='typestate analysis of the attempt protocol with value tracking (forward abstract interpretation)', note=ENG + ' ' + HIST),
 dict(id='C05', title='Only accepted attempts change the visible state, and they change all of it',
  statement='A rejected attempt leaves the time and state a solver shows unchanged; an accepted one commits the time and the state together, before it is reported: the end of the attempted interval, or what the event control made of it. A step returns only after an accepted attempt.',
  over=['inputs', 'histories', 'configurations'],
  **{'for': 'every registered solver, with and without event control, every decision of the step size and event controls, any number of rejected attempts, first and later steps and steps after a new start'},
  why='Rejections and truncations depend on run-time error norms; tests that never reject, or never truncate, cannot see a half-committed step.',
  files=SOLV, mech=[('commit of the new state', 'doStep of every solver')],
  tech='typestate analysis of the attempt protocol with value tracking (forward abstract interpretation)', note=ENG + ' ' + HIST),
 dict(id='C06', title='Event control sees every accepted attempt exactly once, with its true interval',
  statement='With an event control installed, every attempt starts with the start-of-step bookkeeping on the committed time and state, and every accepted attempt, and no rejected one, runs end-of-step detection exactly once on the state it started from and the proposed state and time at its end. The right-hand side is told the time and state each attempt starts from.',
  over=['inputs', 'histories', 'configurations'],
  **{'for': 'every registered solver, every decision of the step size and event controls, any number of rejected attempts, first and later steps and steps after a new start'},
  why='A missed or doubled detection only shows when an event happens to fall into the affected attempt.',
  files=SOLV + [O + 'interfaces/OdeEventController.h'], mech=[('event protocol', 'OdeEventController::atStepStart, atStepEnd'), ('step loops', 'doStep of every solver')],
  tech='typestate analysis of the event protocol with value tracking (forward abstract interpretation)', note=ENG + ' ' + HIST),
 dict(id='C07', title='Step size control judges the real attempt and its answer is obeyed',
  statement='The step size control is given the step size and the error norm of the very attempt it judges; the next attempt uses the step size it chose, and the same step size as before if it did not change it. A solver never goes on with a step size at or below the configured minimum, and gives up for no other reason once an attempt has been judged.',
  over=['inputs', 'histories', 'configurations'],
  **{'for': 'every registered solver, with and without event control, every decision of the step size control, every minimum, any number of rejected attempts, first and later steps and steps after a new start'},
  why='The number and outcome of attempts depend on error norms of a particular problem; the minimum is hardly ever reached in a test.',
  files=SOLV + [O + 'interfaces/OdeStepSizeController.h'], mech=[('step size update', 'doStep of every solver')],
  tech='typestate analysis of the attempt protocol with value tracking (forward abstract interpretation)', note=ENG + ' ' + HIST),
 dict(id='C08', title='A new initial state restarts a solver completely',
  statement='After a new initial time and state have been given to a solver, it shows exactly these, and event detection of earlier history has been restarted.',
  over=['inputs', 'histories', 'configurations'],
  **{'for': 'every registered solver, with and without event control, at the beginning and after any steps'},
  why='Solvers are reused in long-lived objects; a test starts a fresh solver for every run.',
  files=SOLV, mech=[('start', 'setInitialState of every solver')],
  tech='typestate analysis with value tracking (forward abstract interpretation)', note=ENG + ' ' + HIST),
 dict(id='C09', title='Extrapolation combines the right results with the right weights',
  statement='A step of the extrapolating solver divides the step size into the numbers of steps given by its step sequence, lets the reference solver take exactly these from the state the attempt starts from, and combines the results with weights that sum up to one and eliminate the first powers of the step size, one per additional stage (even powers only for symmetric reference solvers). The error estimate is the difference to the result with one power less, it is judged with the order of that result, and the declared order follows from the number of stages.',
  over=['inputs', 'histories', 'configurations'],
  **{'for': 'every reference solver, initial state and step size; the three step sequences; 1 to 6 stages, also when the number of stages grows between steps; both kinds of expansion; first and later steps, any number of rejected attempts'},
  why='Wrong weights still give convergent results, of a lower order; and each number of stages and sequence has weights of its own.',
  files=[O + 'OdeSolverExtrapolator.h', O + 'ExtrapolatorStepSequenceHarmonic.h', O + 'ExtrapolatorStepSequenceRomberg.h', O + 'ExtrapolatorStepSequenceBulirsch.h'], mech=[('Aitken-Neville scheme', 'OdeSolverExtrapolator::doStep')],
  tech='forward abstract interpretation over linear forms of reference solver results; extrapolation conditions on the inferred weights',
  note=ENG + ' The reference solver is an arbitrary one-step method; stage counts above 6 are not explored.'),
 dict(id='C10', title='The implicit Euler solver solves the step equation of the problem it is given',
  statement='A step of the implicit Euler solver from (t, x0) with step size h and implicitness alpha proposes exactly the state whose first order and velocity part y is the point returned by the nonlinear solver for the equation y = x0 + h((1-alpha) F(t,x0) + alpha F(t+h, X(y))), with positions advanced by the same weighting of old and new velocities; only a converged iteration is accepted. The equation always refers to the current right-hand side, step size, implicitness and starting state, whatever was evaluated before.',
  over=['inputs', 'histories', 'configurations'],
  **{'for': 'every right-hand side, numbers of first and second order variables, initial state, step size and implicitness; with and without second order variables, variable reordering, predictor and event control; first and later steps, any number of rejected attempts, any sequence of changes of the mapping'},
  why='A wrong or stale equation is still solved to convergence and gives plausible, less accurate solutions.',
  files=[O + 'OdeSolverImplicitEuler.h', O + 'OdeStepMappingEuler.h'], mech=[('step equation', 'OdeStepMappingEuler::map'), ('step', 'OdeSolverImplicitEuler::doStep')],
  tech='forward abstract interpretation over block-wise linear forms; value-numbered residual compared with the step equation',
  note=ENG + ' ' + HIST + ' The nonlinear solver is an arbitrary collaborator which returns a point and a status.'),
 dict(id='C11', title='Events are those sign changes a user asked to watch, handled once and where they happen',
  statement='Event control reports an event at the end of a step if and only if one of the zero functions of the right-hand side changed its sign in a watched direction since it was last looked at (a function that is exactly zero may be counted to either side). The step is then cut at the earliest of the linearly interpolated roots, with time and state interpolated there; the right-hand side is told to switch exactly once, with that time and state and the transition of exactly that function; the function and its new sign are reported to the caller; and later steps go on from the interpolated (or, where asked for, recomputed) values. Steps without events are left alone. Without zero functions the right-hand side decides on truncation.',
  over=['inputs', 'histories', 'configurations'],
  **{'for': 'every value of one or two zero functions, every direction and recompute flag, restarts followed by up to three steps (two steps for two functions)'},
  why='Sign tables have dozens of cases per function, and ties, exact zeros and memory after an event hardly ever occur in example runs.',
  files=[O + 'LinearOdeEventController.h', O + 'interfaces/OdeEventController.h'], mech=[('event location', 'LinearOdeEventController::atStepEnd')],
  tech='forward abstract interpretation over linear forms; path conditions in a convex polyhedra domain confronted with the sign table of the interface',
  note=ENG + ' More than two zero functions are not explored.'),
 dict(id='C12', title='The step size control decides as configured',
  statement='An attempt is accepted if and only if its error norm is within the tolerance (up to rounding). The next step size is the current one times the insurance factor times (tolerance/error)^(1/(order+1)), within these limits: it grows at most by inc_max_factor and shrinks at most to dec_max_factor; it stays as it is if it would grow by less than inc_min_factor; growth stops at max_threshold; a zero error leaves it alone. The parameters of these names are the ones used, and whether the step size changed is told truthfully.',
  over=['inputs', 'configurations'],
  **{'for': 'every positive step size and tolerance, every non-negative error norm, every order and every setting of the limits (including switched off ones)'},
  why='The regions of the decision table multiply; example runs visit a few of them.',
  files=[O + 'OdeStepSizeSimpleController.h'], mech=[('decision', 'OdeStepSizeSimpleController::controlStepSize')],
  tech='forward abstract interpretation; path conditions in a convex polyhedra domain confronted with the decision table of the interface',
  note=ENG),
 dict(id='C13', title='LU factorisation solves the system it was given',
  statement='For every square sparse matrix whose elements cover the diagonal and which can be factorised without pivoting, LUFactorizer::solve replaces a right-hand side b by the solution of A x = b, any number of times, for the matrix given last (also when setMatrixFast passes other elements, another sparsity pattern or another size, or is the first call); elementAt tells the elements of A before and after factorisation. After secantUpdateHart(s, y) the matrix maps s exactly to y, keeps its envelope, and is the one used for solving.',
  over=['inputs', 'histories'],
  **{'for': 'every sparsity pattern of 1x1 to 3x3 matrices and a sample of 4x4 ones (thorough: all 4096 4x4 patterns) with arbitrary element values; replacements of one matrix by another of the same or another pattern and size'},
  why='Fill-in, gaps in rows and columns and leftovers of the previous matrix matter for some patterns only; the only test uses one matrix.',
  files=['include/ode_num_int/lu/LUFactorizer.h'], mech=[('factorisation', 'LUFactorizer'), ('secant update', 'LUFactorizer::secantUpdateHart')],
  tech='forward abstract interpretation over linear forms (rational functions of the unknown elements, compared by value numbering in a prime field)',
  note=ENG + ' Matrices beyond 4x4 are not explored; zero pivots are excluded (no pivoting is offered).'),
 dict(id='C14', title='A Newton run reports what happened and uses its second chance once',
  statement='NewtonSolver::run resets the iteration performer softly, then iterates from the current solution until an iteration is converged with no further change of regularisation, an observer stops it, or iterations fail. After a failure (divergence or the iteration limit) it starts again from the initial point with a hard reset, once, if and only if the descent direction says this may help; it never does more iterations per attempt than the limit. The result tells how the run ended (Diverged for divergence, IterationCountLimitExceeded for the limit, Terminated for an observer, Converged only for convergence); success or failure is reported to the descent direction exactly once unless terminated; iteration observers see every iteration once, consecutively numbered.',
  over=['inputs', 'histories', 'configurations'],
  **{'for': 'every sequence of iteration outcomes, observer decisions, regularisation changes and hard reset answers, for iteration limits 0 to 3 and with or without a regularisation strategy'},
  why='The retry path is entered only for hard problems, and mixed endings (divergence after a retry, the limit during a retry, termination) practically never occur in a test.',
  files=['include/ode_num_int/alg/NewtonSolver.h', 'include/ode_num_int/alg/interfaces/NewtonSolverInterface.h'], mech=[('run loop with retry', 'NewtonSolver::run')],
  tech='typestate analysis of the dialogue with arbitrary collaborators (forward abstract interpretation, all paths)',
  note=ENG + ' Iteration limits above 3 are not explored.'),
 dict(id='C15', title='A Newton iteration works with current data and judges the point it reached',
  statement='Each iteration asks for a descent direction at the current point with the residual of the current mapping at exactly that point, moves by the step ratio of the line search along it, and has the error estimator judge the new point and its residual; the residual shown afterwards is that of the point shown, whatever was evaluated before (new start, reset, another mapping). The line search tries 1, 1/2, 1/4, ... up to the configured number until the squared residual norm falls below 0.8 of the initial one, then the opposite direction if nothing was an improvement, and returns the best ratio tried with its residual, or 0 if none is an improvement. The error estimator compares the residual and the relative step, in the maximum norm, with the tolerances and thresholds of the named parameters: converged if both are within tolerance, else diverged if a positive threshold is reached, else continue.',
  over=['inputs', 'histories', 'configurations'],
  **{'for': 'every mapping, starting point, descent direction and outcome of the line search; every tolerance and threshold; up to 3 step truncations; iterations after resets, new starts with and without hard reset, and changes of the mapping'},
  why='A stale residual or a residual of another trial point still lets Newton converge on simple systems, only slower or to a wrong error estimate.',
  files=['include/ode_num_int/alg/NewtonIterationPerformerImpl.h', 'include/ode_num_int/alg/SimpleNewtonLinearSearch.h', 'include/ode_num_int/alg/SimpleErrorEstimator.h'], mech=[('iteration', 'NewtonIterationPerformerImpl::iteration'), ('line search', 'SimpleNewtonLinearSearch::lineSearch'), ('error estimation', 'SimpleErrorEstimator::currentStatus')],
  tech='forward abstract interpretation over linear forms with the mapping as an uninterpreted function; path conditions in a convex polyhedra domain',
  note=ENG + ' More than 3 step truncations are not explored.'),
 dict(id='C16', title='Vectors, blocks and scaled vectors follow the laws of vector algebra and touch only what they denote',
  statement='Every public operation of VectorTemplate gives the element-wise result of vector algebra: indexing, resizing (old elements kept, new ones zero), clear, clone, copy, assignment and swap, sum, difference, scaling, dot product, the one, Euclidean and infinity norms, member-wise operations, iteration. A block denotes elements from..from+size-1 of its vector, reads and writes go through to exactly these and to no other element, and blocks nest; scaled() denotes the elements times the factor and never changes its source; copies and clones are independent of their source. No operation with valid arguments reads or writes outside a vector, uses an unset value, throws or fails an assertion, also when the operand is the vector itself, a scaled view of it, or a later block of it.',
  over=['inputs', 'configurations'],
  **{'for': 'every public operation; all sizes, offsets and lengths up to 4 (thorough: 5); arbitrary element values'},
  why='Tests only check that a vector starts as zero and that a constructor copies; blocks and views alias, so a wrong offset or a copy instead of a view corrupts a solution silently.',
  files=['include/ode_num_int/la/VectorTemplate.h'], mech=[('vectors', 'VectorTemplate, VectorData'), ('blocks', 'VectorProxy::Block'), ('scaled vectors', 'VectorProxy::Scale')],
  tech='element-wise forward abstract interpretation (exact container shapes, element values as linear forms) of every public operation against the algebraic definition',
  note=ENG + ' Sizes above 4 (5) are not analysed; the loops have no other size-dependent case distinctions.'),
 dict(id='C17', title='Sparse matrices of both storages and all their views denote the same mathematical matrix',
  statement='Every public operation of SparseMatrixTemplate, with map and with sorted-array storage and through block, transposed and scaled views (also nested), gives the result of matrix algebra on the denoted matrix: element access in all forms, presence queries, counts, ordered and row-wise iteration, sizes, copies, clones and conversions between the storages, assignment (also from a view of the destination itself), resizing, removal, identity, sums and differences, products with matrices and (from both sides) vectors, norms. Writing, removing and clearing through a view changes exactly the elements it denotes. Absent elements are zero; setting an absent element of a matrix with sorted-array storage throws. No operation with valid arguments leaves its storage, uses an unset value or an invalid iterator, throws or fails an assertion.',
  over=['inputs', 'configurations'],
  **{'for': 'every public operation; shapes from 1x1 to 3x3, all sparsity patterns of 2x2 and a spread of patterns of the others, a deterministic spread of block positions and operand pairs (thorough: all patterns up to 6 elements and a 25 times larger spread); arbitrary element values'},
  why='The existing program prints a few matrices. Patterns, views of views and the two storages multiply into combinations no test samples, and a wrong element only shows as a slightly wrong Jacobian.',
  files=['include/ode_num_int/la/SparseMatrixTemplate.h'], mech=[('map storage', 'SparseMatrixData'), ('sorted-array storage', 'SparseMatrixFastData'), ('views', 'SparseMatrixProxy::Block, Transpose, Scale'), ('algebra', 'SparseMatrixTemplate')],
  tech='element-wise forward abstract interpretation (exact container shapes, element values as linear forms) of every public operation against the algebraic definition',
  note=ENG + ' Matrices above 3x3 are not analysed. Compound assignment from a view of the destination (m += m.transposed()) is outside the property. Storing text (operator<<) is not analysed.'),
 dict(id='C18', title='A computed Jacobian is the one of the current mapping at the given point',
  statement='computeJacobian, SparseJacobianCalculator and both Jacobian providers return, at every position the mapping depends on, a difference quotient of the current mapping at the given point alone: the values of that component at arguments that differ from the point in that one element, divided by the displacement; positions the mapping does not depend on are zero, and the matrix has the size of the mapping. This holds for every dependency pattern (also rows and columns without elements, and more or fewer rows than columns in the calculator) and after every history of computations, trimmers set and removed, hard resets, other mappings and mappings of another size. A hard reset makes the sparsity pattern be found anew. The sparse calculation evaluates the mapping no more often than it announces, at most once more than there are columns, and only twice if no row has two elements. A trimmer has the mapping of its provider; the width-based one keeps exactly the elements closer to the diagonal than the width (0: all), the threshold-based one keeps the diagonal and exactly the elements whose magnitude is at least the threshold times the greatest magnitude; kept elements keep their position and value and the original matrix is unchanged.',
  over=['inputs', 'configurations', 'histories'],
  **{'for': 'every mapping (an arbitrary function with the given dependency pattern), every point; 14 dependency patterns up to 5x5 (thorough: up to 9x9), 26 histories of up to 6 events per provider (thorough: all histories of up to 4 events)'},
  why='A wrong or stale Jacobian only slows Newton iterations or spoils a Rosenbrock step slightly; grouping of columns depends on the pattern, caching on the history.',
  files=['include/ode_num_int/alg/computeJacobian.h', 'include/ode_num_int/alg/SparseJacobianCalculator.h', 'include/ode_num_int/alg/DefaultJacobianProvider.h', 'include/ode_num_int/alg/SparseJacobianProvider.h', 'include/ode_num_int/alg/JacobianThresholdBasedTrimmer.h', 'include/ode_num_int/alg/JacobianWidthBasedTrimmer.h', 'include/ode_num_int/alg/interfaces/JacobianProvider.h'],
  mech=[('dense', 'computeJacobian'), ('sparse', 'SparseJacobianCalculator, computeSparseJacobian'), ('providers', 'DefaultJacobianProvider, SparseJacobianProvider'), ('trimmers', 'JacobianTrimmer implementations')],
  tech='element-wise forward abstract interpretation of Jacobian computations over an uninterpreted mapping with given dependencies; every stored element must be a consistent difference quotient',
  note=ENG + ' The size of the displacement is only bounded (1e-10..1e-4), its optimality is not judged. Elements that happen to vanish at the point where the pattern is found are absent until the next hard reset, which is how the sparse provider is meant to work.'),
 dict(id='C19', title='Every Newton descent direction solves the linearised equation with the Jacobian that is due',
  statement='computeDescentDirection returns d with J d = -f for the residual f it is given, leaves its arguments alone, and J is the one its kind promises: the simple direction uses the Jacobian of the current point every time; the constant one the Jacobian of the first point after construction or a hard reset; the Broyden one starts from that Jacobian and adds in each further iteration the rank-one correction (df - J dx) dx^T / |dx|^2 of the two last points, the fake Broyden one the same restricted to the stored elements of J; the Hart one applies the sparsity-preserving secant update to the factorisation; the lazy one works with the Jacobian computed at the first iteration after construction, a failure or a hard reset, and changes it only at the first iteration after a success that took more than the given number of iterations, by the sum of the restricted corrections (relative to the Jacobian in use) collected since. A hard reset makes the Jacobian be computed anew at the next point, whether or not its provider keeps the old one; no correction is made across a soft reset. Sparsity patterns may differ between points. The provider has the mapping of the direction in whatever order they are set. Observers are told of each refresh of the Jacobian and of no other, and are given the Jacobian in use, the point, the residual and the direction. No valid history throws or fails an assertion.',
  over=['inputs', 'histories', 'configurations'],
  **{'for': 'all six directions; every Jacobian (uninterpreted elements) with full and triangular, also changing, patterns of two variables, every point and residual; histories of up to 8 iterations, resets and success reports (thorough: all histories of up to 5 events)'},
  why='A direction from a stale or wrongly updated Jacobian still converges, only slower, or fails only after a reset; no test covers any descent direction.',
  files=['include/ode_num_int/alg/SimpleNewtonDescentDirection.h', 'include/ode_num_int/alg/ConstJacobianNewtonDescentDirection.h', 'include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h', 'include/ode_num_int/alg/JacobianFakeBroydenUpdateNewtonDescentDirection.h', 'include/ode_num_int/alg/JacobianLazyFakeBroydenUpdateNewtonDescentDirection.h', 'include/ode_num_int/alg/JacobianHartUpdateNewtonDescentDirection.h', 'include/ode_num_int/alg/interfaces/NewtonDescentDirection.h'],
  mech=[('directions', 'implementations of NewtonDescentDirection'), ('wiring', 'NewtonDescentDirection constructor')],
  tech='element-wise forward abstract interpretation of histories of computations with an uninterpreted Jacobian; results compared with the defining equation by value numbering (random interpretation in a prime field)',
  note=ENG + ' Pivots are assumed not to vanish and successive points to differ. In histories of more than two iterations no correction vanishes by chance; shorter ones cover both cases.'),
 dict(id='C20', title='Mapping adapters evaluate exactly the mapping they are defined to be',
  statement='With the wrapped mapping F: a narrowing mapping with disabled inputs I (with state s) and disabled outputs O maps x to the values of F without those in O, at the point that has s at I and x, in order, elsewhere; its sizes, ids, narrowing and widening functions agree with that, disabled indices may be given in any order and repeated, a later call replaces an earlier one, and one with an index that does not exist throws and changes nothing. A reordering mapping with orders p, q (lists of original indices) maps x to the values of F reordered by q at the point which reorders to x by p; ordering and unordering functions are inverse to each other. A diagonal mapping multiplies by its diagonal, unmap divides by it, and its inverse swaps the two. A normalising mapping with scales d maps x to d * F(d * x), element by element; normalize(x0) sets d_i = 1/sqrt|J_ii| for the Jacobian J of F at x0 and throws, changing nothing, if a J_ii vanishes. A right-hand side as a mapping of x is f(t, x) with the current time t. No adapter changes its argument; results do not depend on what the destination held or on its size before.',
  over=['inputs', 'histories', 'configurations'],
  **{'for': 'uninterpreted F and f, arbitrary elements; narrowing: all pairs of disabled sets for up to 3 inputs and 2 outputs (2 and 3), selected ones to 4x4 and repeated changes; reordering: all pairs of permutations up to 3, samples of 4; others 1 to 3 variables'},
  why='An adapter that mixes up the index lists of inputs and outputs works in every example with equal lists and evaluates the wrong system otherwise; no test uses an adapter.',
  files=['include/ode_num_int/alg/VectorNarrowingMapping.h', 'include/ode_num_int/alg/VectorReorderingMapping.h', 'include/ode_num_int/alg/DiagonalMapping.h', 'include/ode_num_int/alg/MappingNormalizer.h', 'include/ode_num_int/alg/interfaces/VectorBijectiveMapping.h', 'include/ode_num_int/ode/interfaces/OdeRhsVectorMapping.h'],
  mech=[('adapters', 'implementations of VectorMapping that wrap another mapping'), ('Jacobian of normalize', 'computeJacobian')],
  tech='element-wise forward abstract interpretation of the adapters over an uninterpreted mapping; values compared as value numbers, quotients by random interpretation in a prime field',
  note=ENG + ' Quotients are taken with non-zero diagonal elements.'),
 dict(id='C21', title='Named parameters: what is set is what is reported and copied',
  statement='For every class with named parameters (solvers, Newton solver and its parts, Jacobian trimmers, initial states, test models): setParameters with a set of values gives each named parameter that value as reported by parameters() afterwards, and leaves every other parameter as it was (a component set under a key may bring its own parts); keys that are absent or unknown change nothing; a refused value throws and changes nothing of what is reported; empty components can be set and reported; help is given for exactly the keys that are parameters. A specified initial state of size n reports size, time and x0..x(n-1), keeps the elements it had when the size changes, has zeros in new ones, and its initialTime() and initialState() are those values. A parameter value made from an int, an unsigned, a bool, a string or (to 16 significant digits) a finite double converts back to the same value; a text that is not a number of the required kind, or is out of its range (negative for unsigned), is refused, not truncated. A parameter value made from an object converts to a new object of the same type with the same parameters on all levels.',
  over=['inputs', 'configurations', 'histories'],
  **{'for': 'every class that overrides setParameters and every parameter it reports: arbitrary positive numbers, both truth values, all texts that occur in the class and another one, components absent and of two types; one key at a time and all together; sizes 0 to 3; copies of all solvers, Newton solver, right-hand sides and initial states with two sets of values; texts: all printed numbers of each kind (language inclusion), selected constant texts'},
  why='Every configuration of the system, its command line and its copies of solvers go through these string maps; a key mistyped in one of the three functions is silently ignored, and the program runs with another setting.',
  files=['include/ode_num_int/infra/OptionalParameters.h', 'include/ode_num_int/ode/interfaces', 'include/ode_num_int/ode', 'include/ode_num_int/alg', 'include/ode_num_int/util/lex_idnum.h', 'include/ode_num_int/ode/SpecifiedOdeInitState.h'],
  mech=[('setParameters', 'overrides of OptionalParameters::setParameters / parameters / helpOnParameters'), ('conversions', 'OptionalParameters::Value')],
  tech='forward abstract interpretation of setParameters, parameters and helpOnParameters of every class with parameter values as held abstract values; texts of numbers as terms, accepted by inclusion of regular languages (finite automata) of printed numbers in the patterns of the source',
  note=ENG + ' Printed numbers are modelled by the languages of std::to_string and of output with %g; the values of texts by the standard conversions.'),
 dict(id='C22', title='The driver: configuration applied, steps to the end, outputs told',
  statement='OdeSolverConfiguration::apply gives the configured right-hand side, and then the same initial time and state, to the solver and, if there is one, to the reference solver: those of the specified initial state if one is configured, otherwise those passed by the caller; the returned components are the configured solver, reference solver and right-hand side. A missing solver is refused, and so is a specified state whose size differs from the number of variables of the right-hand side, or that has no right-hand side to belong to. solveOde makes at least one step and goes on exactly until the solver reports a time that is not before the initial time plus the configured duration; without a right-hand side it is refused before anything else happens. Every configured output (statistics, console, file, in this order) is told once, with the configuration and the components, before the first step, and told once that the integration is over after the last one, also when a step throws; the exception of the step reaches the caller, and no step is made after it.',
  over=['inputs', 'configurations', 'histories', 'fault_sequences'],
  **{'for': 'all sets of outputs; any number of steps with any times (fixpoint over the loop), each of which may throw; in addition up to four steps followed one by one; initial states of sizes 0 to 3 for three sizes of right-hand sides and none, with and without a reference solver, arbitrary times and values'},
  why='This is the main program of every user: an interval that is not integrated to its end, an output that is not closed, or a state given to one solver only makes every result wrong or lost.',
  files=['include/ode_num_int/ode/OdeSolverConfiguration.h', 'include/ode_num_int/ode/SpecifiedOdeInitState.h', 'include/ode_num_int/infra/ComponentConfiguration.h'],
  mech=[('apply', 'OdeSolverConfiguration::apply'), ('solve', 'solveOde'), ('outputs told', 'initOdeOutput, finalizeOdeOutput')],
  tech='forward abstract interpretation of apply and solveOde over an uninterpreted solver; typestate of steps, failures and outputs over a fixpoint of the loop',
  note=ENG + ' The solver is an abstract one (any times, any step may throw); outputs that throw themselves are outside.'),
 dict(id='C23', title='Observers: all registered are told, in order, and none after removal',
  statement='An observer list tells every observer that is registered when it is called exactly once, in the order of registration, with the given arguments, and no other; a list of answering observers asks all of them, whatever the earlier ones answer, and its answer is true exactly when one of the answers is. The identifier returned by a registration is not that of another live observer, and removing it removes that observer only; clear removes all; empty() tells the truth. An observer registered for a scope is told within it and not after it, whether the scope is left normally, by an exception, or the registration was ended earlier or moved to an inner scope. A list that forwards to another one tells that list\'s observers and returns their answer.',
  over=['inputs', 'histories', 'fault_sequences'],
  **{'for': 'all histories of up to six registrations, removals and clears with at most four observers (five when they answer), with any arguments and any answers; scopes left in every way; up to three forwarded observers'},
  why='Events, statistics, outputs, truncation and the failure of iterations are all delivered by these lists; an observer that is skipped or outlives its scope (a dangling call) shows only with several observers and removals in between.',
  files=['include/ode_num_int/infra/cxx_observers.h'],
  mech=[('lists', 'IdentifiedElements, Observers, TerminatingObservers'), ('scopes', 'ScopedIdentifiedElement, makeScopedIdentifiedElement'), ('forwarding', 'forwardObservers')],
  tech='forward abstract interpretation of cxx_observers.h over histories of operations, with arguments as value numbers and answers of either truth value',
  note=ENG + ' std::map and std::function are modelled. Observers that change the list while it is being called are outside.'),
 dict(id='C24', title='Outputs report exactly the steps made, as often as the output timing asks',
  statement='Between beforeFirstStep and afterSolve an output reports what the integration did. The solution output writes a header naming the variables, the initial time and state, and then time and state of accepted steps only; the column-wise output keeps the same columns, max_steps at most, and writes them with index and name of every variable; the general output writes a line for a step, accepted or rejected, with its number, time, size, error, and what was changed or truncated and why, and one for each Newton iteration without ending the iterations; the statistics count steps, rejected, changed and truncated ones, evaluations inside and outside Jacobian refreshes, and the mean accepted step. With a positive output_timing an accepted step is written exactly when at least that time has passed since the last one written (the initial state counts; the general output writes the first and any truncated step); otherwise all are. size_half_lim leaves the first and last variables of each kind. With file_name all goes to that file, otherwise to the console; a file that cannot be opened is refused. After the end, or a refusal, an output observes nothing; when begun again, a step is not reported twice.',
  over=['inputs', 'histories', 'configurations', 'fault_sequences'],
  **{'for': 'any times, states, sizes and errors of the steps; histories of seven steps of all outcomes, of three to five steps with any increasing times and the output timings 1 and 2; right-hand sides of up to 12 first-order (columns: 101) or 11+2*11 variables; size_half_lim 0, 1, 2, 5; max_steps 0..6, 10'},
  why='The written report is the only result a user of the driver gets; which steps are written depends on all earlier step times, and an observer left behind or a lost row shows only in particular histories.',
  files=['include/ode_num_int/ode/ode_solver_output.h', 'include/ode_num_int/ode/OdeVarNameGenerator.h'],
  mech=[('timing', 'OdeSolverStreamOutputOption::D::outputNow'), ('solution', 'OdeSolverStepSolutionConsoleOutput, OdeSolverStepSolutionColumnwiseOutput'), ('steps', 'OdeSolverStepGeneralConsoleOutput'), ('statistics', 'OdeSolverStatisticsOutput')],
  tech='forward abstract interpretation of the output classes over histories of steps, with all numbers as value numbers and the differences of times in intervals, recording what is put into the streams',
  note=ENG + ' Streams are modelled as sequences of what is put into them (number formatting is outside); the measured times are opaque.'),
]

NA = [
 dict(id='N01', title='Solutions converge to the true solution within the requested tolerance',
  statement='For a sufficiently smooth problem the computed trajectory stays within a multiple of the tolerance of the exact solution.',
  over=['inputs'], **{'for': 'every smooth problem and tolerance'},
  why='Tests sample a few problems.', files=[O + 'OdeSolverExplicitEmbeddedRK.h'], mech=[('step size control', 'OdeStepSizeSimpleController')],
  reason='global error depends on the run-time behaviour of an arbitrary right-hand side and on floating-point rounding; no static argument in reach bounds it'),
 dict(id='N02', title='Newton iterations converge for solvable systems',
  statement='Started close enough to a solution, the nonlinear solver converges to it within the iteration limit.',
  over=['inputs'], **{'for': 'every smooth system with a regular Jacobian'},
  why='Tests sample a few systems.', files=['include/ode_num_int/alg/NewtonSolver.h'], mech=[('iteration', 'NewtonSolver::run')],
  reason='convergence is a property of run-time quantities (contraction constants) of an arbitrary mapping'),
 dict(id='N03', title='LU factorisation is backward stable',
  statement='Solving with a factorised matrix gives a small residual relative to the matrix and solution norms.',
  over=['inputs'], **{'for': 'every regular matrix'},
  why='Tests sample a few matrices.', files=['include/ode_num_int/lu/LUFactorizer.h'], mech=[('factorisation', 'LUFactorizer')],
  reason='there is no pivoting, and pivot growth depends on matrix values'),
 dict(id='N04', title='Event times are located accurately',
  statement='The time at which a step is truncated is within the tolerance of the true root of the event function.',
  over=['inputs'], **{'for': 'every event function and trajectory'},
  why='Tests sample a few trajectories.', files=[O + 'LinearOdeEventController.h'], mech=[('linear interpolation', 'LinearOdeEventController::atStepEnd')],
  reason='the accuracy of linear interpolation depends on the curvature of the trajectory and of the event function'),
]
