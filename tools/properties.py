NA = {}
TESTS = "The existing tests that build here only cover file loading, one norm helper and the factorisation of a few random matrices; "

p("C01", "A reported success is a first-order optimal point",
  "Whenever a solve reports success, the point, multipliers and objective value it leaves in its results satisfy, when re-evaluated from scratch on the user's problem, the first-order optimality conditions to the requested tolerance: constraint violation, Lagrangian gradient, multiplier signs and complementarity. The violation, dual residual, objective value and per-constraint violations it reports agree with that re-evaluation. This holds for every configuration of the solver, including every factorisation, KKT system, multiplier update mode, penalty schedule, Hessian mode and starting point; an infeasible problem is never reported as solved.",
  ["inputs", "configurations"],
  "every problem of a gallery of seven small families (QPs, nonconvex, least squares, SO2, SO3xR, products of sets, infeasible) x every solver configuration within a bounded number of deviations from the defaults x starting points and multipliers",
  TESTS + "the solver tests are not built, and they compare a handful of problems with a known solution instead of certifying whatever is returned.",
  [I + "prox-solver.hxx", I + "prox-solver.hpp", I + "results.hpp", I + "pdal.hxx"],
  [("stopping test on max(primal, dual) residual", "ProxNLPSolverTpl::solve"), ("residuals at the current iterate", "ProxNLPSolverTpl::innerLoop, computePrimalResiduals")],
  ["return value of solve and the results object"],
  ("problems, starting points and solver configurations (deviation bound)", "the certificate is recomputed by the harness from the problem's functions and the definition of each set; configurations are enumerated up to a bounded number of deviations from the defaults"))

p("C02", "Strictly convex problems are solved from every start",
  "For every strictly convex quadratic objective with feasible linear equality, inequality or box constraints whose active constraint gradients are independent, a solve with a generous iteration limit reports success and returns the unique minimiser to the requested accuracy. This holds with the primal-dual KKT system for any constraints, and with the classic system for the default primal-dual weight and at most one scalar inequality; from every starting point and starting multipliers, with every factorisation, multiplier update mode, Hessian mode suited to the problem, and line-search interpolation.",
  ["inputs", "configurations"],
  "every problem of a finite grid of strictly convex QPs in up to two (thorough three) variables x solver configurations within a bounded number of deviations x starting points; the minimiser is found independently by enumerating active sets",
  TESTS + "no test varies the solver configuration or compares with an independent minimiser.",
  [I + "prox-solver.hxx", I + "pdal.hxx", I + "linesearch-armijo.hpp"],
  [("augmented Lagrangian outer loop with BCL tolerances", "ProxNLPSolverTpl::solve"), ("inertia-corrected Newton steps", "ProxNLPSolverTpl::innerLoop")],
  ["return value of solve, results.x_opt"],
  ("QPs, starting points and solver configurations (deviation bound)", "the exact minimiser comes from enumerating active sets; three known findings (l1 penalties, the classic system with several inequalities or another weight) mark the boundary of what is claimed"))

p("C03", "A failing user function never corrupts a solve",
  "If any evaluation of a user function throws, or returns NaN or infinity, at any point of a solve, the solve ends within the iteration limit by returning an outcome or letting the exception through. It never reports success at a point where the functions do not have finite, certified values, the returned point and multipliers stay finite, and the reported values belong to it. Afterwards the same solver, without the fault, behaves exactly like a fresh one.",
  ["fault_sequences", "inputs", "configurations"],
  "every call index of a solve x every faulty function x eight faults (throw, NaN, infinities, a single bad entry; once or from then on) x small problems and configurations",
  TESTS + "no test makes a user function fail, and which call fails matters.",
  [I + "prox-solver.hxx", I + "linesearch-armijo.hpp", I + "pdal.hxx"],
  [("NaN checks of gradients, residuals and the KKT matrix", "ProxNLPSolverTpl::innerLoop"), ("exceptions inside the line search", "ArmijoLinesearch::run")],
  ["return value, exception and results of solve, and of the next solve"],
  ("fault positions and kinds at every user call of a solve", "the fault is injected by the environment choice at each call; a reported objective may be the user's own NaN when the solve did not succeed"))

p("C04", "A solve depends only on its inputs, not on history",
  "Solving a problem from given starting point and multipliers gives the same result, bit for bit and iteration by iteration, on a solver that has never been used and on a solver with any history: earlier solves from other points, solves that hit their limit, failed or were interrupted by an exception, repeated setup, changed and restored settings, registered and removed callbacks, and other solvers on the same problem.",
  ["histories", "configurations"],
  "every sequence of up to 3 (4) of eleven operations on a solver before the solve, on small problems and configurations",
  TESTS + "every solver test uses a solver once.",
  [I + "prox-solver.hxx", I + "prox-solver.hpp", I + "workspace.hpp", I + "bfgs-strategy.hpp", I + "pdal.hxx"],
  [("reset of penalty, tolerances, proximal target and quasi-Newton memory", "ProxNLPSolverTpl::solve"), ("workspace allocation", "ProxNLPSolverTpl::setup")],
  ["results and the sequence of iterates seen by a callback"],
  ("histories of solver operations", "the oracle is a fresh solver on a fresh problem; equality is bitwise; a solve without starting multipliers is outside the claim because it documents a warm start"))

p("C05", "Callbacks observe every iteration and never disturb it",
  "Every registered callback is called, in the order of registration, exactly once per iteration and once more for the returned point, with the state of the solver at that moment; none is called after it was cleared, and an exception thrown by one reaches the caller and stops the calls. The last call sees the point, multipliers, objective value and residuals which the solve returns. The history callback stores, for the options selected, exactly what the solver had at each call, across consecutive solves, and its contents stay valid and unchanged when later solves run or the solver and problem are destroyed.",
  ["histories", "configurations"],
  "7 small problems x configurations within 1 (2) deviations x all history options x registration orders x one or two solves x a callback throwing at one of the first calls",
  TESTS + "the solver tests register at most one history callback and never compare what it stored.",
  [I + "prox-solver.hpp", I + "prox-solver.hxx", I + "helpers-base.hpp", I + "helpers/history-callback.hpp"],
  [("callback list", "registerCallback, clearCallbacks, invokeCallbacks"), ("stored history", "helpers::history_callback::call")],
  ["calls seen by recorders; history_callback::storage"],
  ("callback registrations, solver configurations and fault positions", "the oracle is an independent recording callback; AddressSanitizer and libstdc++ assertions watch every execution"))

p("C06", "Penalty and tolerances follow the BCL schedule",
  "Along every solve, the inner tolerances, penalty parameter and multipliers evolve exactly as the bound-constrained Lagrangian strategy prescribes: a sufficiently feasible inner solution accepts the multiplier estimates and tightens both tolerances, otherwise the penalty decreases by its factor and the tolerances restart from it. Penalty, multipliers and tolerances respect their floors and safeguards, the proximal parameter follows its own rule, and limits on inner and outer iterations are honoured.",
  ["inputs", "configurations"],
  "every configuration within two (three) deviations over nineteen solver parameters x small problems; the whole trajectory is compared with a reference model of the strategy run in lockstep",
  TESTS + "no test looks at the penalty or the tolerances.",
  [I + "prox-solver.hxx", I + "prox-solver.hpp", I + "bcl-params.hpp"],
  [("outer loop", "ProxNLPSolverTpl::solve"), ("tolerance update", "updateTolsOnFailure, updateTolsOnSuccess"), ("penalty update", "updatePenalty, setPenalty")],
  ["penalty, tolerances, multipliers and counters seen by a callback and in the results"],
  ("configurations (deviation bound) with a reference model in lockstep", "the model is explicit-state and is checked against the real solver at every observed step of every explored execution"))

p("C07", "The line search returns an evaluated step with sufficient decrease",
  "For every behaviour of the merit function (decrease, increase, infinite or NaN values, exceptions at any trial), the line search first tries the full step, then contracts each trial within the requested bounds and never below the smallest step, and stops at the first trial with sufficient decrease. The value it returns belongs to the step it returns, which satisfies the sufficient-decrease condition unless the smallest step or the step limit was reached; a flat slope accepts the first step that can be evaluated. A failing trial only shortens the step; if no step at all can be evaluated, the failure is reported. Interpolation uses the minimiser of the polynomial through the available data when it lies within the bounds. Searches do not depend on earlier searches.",
  ["inputs", "fault_sequences", "histories"],
  "every sequence of up to 5 (7) answers out of nine kinds at the trial steps, three interpolations, five option sets, slopes and offsets; polynomial merit functions; histories of searches",
  TESTS + "the line search has no test that builds, and the interesting answers (NaN, exceptions) never occur in the solver tests.",
  [I + "linesearch-armijo.hpp", I + "linesearch-base.hpp"],
  [("backtracking loop", "ArmijoLinesearch::run"), ("safeguarded interpolation", "ArmijoLinesearch::minimize_interpolant")],
  ["run(phi, phi0, dphi0, alpha): trial steps, returned step and value"],
  ("answers of the merit function (environment) at every trial step", "contract checked on the recorded trials; cubic interpolants without a usable minimiser only have to respect the bounds"))

p("C08", "Steps solve the regularised Newton system and decrease the merit",
  "Every step the solver takes solves the Newton equations of the problem at the current iterate, assembled from the user's derivatives in the selected Hessian mode, KKT system and factorisation, with the reported regularisation and the proximal term. The regularisation starts from the documented first value, grows until the matrix has the right inertia and shrinks afterwards. The reported active set is that of the multiplier estimates. The new iterate is the retraction of the step scaled by the reported length, with the multipliers moved alongside, and satisfies the line search's sufficient decrease; without exact Hessians the step is a descent direction of the merit function.",
  ["inputs", "configurations"],
  "the first iterations of every problem of the gallery x configurations within a bounded number of deviations x starting points and multipliers",
  TESTS + "no test looks at an individual step.",
  [I + "prox-solver.hxx", I + "pdal.hxx", I + "linalg/dense.hpp", I + "linalg/block-ldlt.hxx"],
  [("KKT assembly", "ProxNLPSolverTpl::assembleKktMatrix, computeLagrangianDerivatives"), ("inertia correction and refinement", "ProxNLPSolverTpl::innerLoop"), ("trial point", "tryStep")],
  ["workspace.pd_step, alpha, delta and results before and after each iteration"],
  ("iterations of the solver over problems and configurations (deviation bound)", "equations are rebuilt independently by the harness at every iteration; iterates that sit on a kink of a set are skipped, where the generalised derivative is not unique"))

p("C09", "The merit function and its derivatives are what they are defined to be",
  "At every point, for every multipliers, penalty and proximal target, the merit function equals the primal-dual augmented Lagrangian of the user's problem, the multiplier estimates are the scaled normal-cone projections, and the gradients used are its derivatives along the space's retraction. The merit value and directional slope the solver reports during a solve are those of the iterate and step it reports.",
  ["inputs", "configurations", "histories"],
  "every problem of the gallery x points, multipliers, penalties, weights and proximal targets, evaluated directly and along solves",
  TESTS + "the merit function is not tested.",
  [I + "pdal.hpp", I + "pdal.hxx", I + "prox-solver.hxx"],
  [("merit value", "ALMeritFunctionTpl::evaluate"), ("multiplier estimates", "ProxNLPSolverTpl::computeMultipliers"), ("slope", "ProxNLPSolverTpl::innerLoop dphi0")],
  ["merit_fun.evaluate, workspace multiplier estimates and gradients, results.merit, workspace.dmerit_dir"],
  ("points, multipliers, penalties and solver configurations", "the oracle evaluates the textbook definition with the harness's own sets; derivatives are compared with central differences away from kinks"))

p("C10", "Bunch-Kaufman solves every regular symmetric system it is given",
  "For every real symmetric or complex Hermitian regular matrix, of any size and in either triangle, the Bunch-Kaufman factorisation reports success, reconstructs its input and solves linear systems to working accuracy, reading only the selected triangle. It never indexes out of range or loops, also for singular or non-finite inputs, and its result depends only on the last matrix it was given.",
  ["inputs", "histories"],
  "every matrix over finite entry sets up to 4x4 (5x5 binary), graded and blocked matrices across the block-size boundary, non-finite entries, histories of re-use",
  TESTS + "the Bunch-Kaufman test samples random dense matrices, which almost never need the 2x2 pivots, zero columns or swaps that exhaustive small matrices reach.",
  [I + "linalg/bunchkaufman.hpp"],
  [("pivot choice and symmetric swaps", "bunch_kaufman_in_place_unblocked"), ("blocked panel factorisation", "bunch_kaufman_in_place_one_block")],
  ["compute(), info(), solve(), matrixLDLT/subdiag/pivots"],
  ("matrices and re-use histories", "every matrix of the enumerated sets is factorised by the real class and checked against exact reconstruction; sizes beyond the block size are covered by structured families only"))

p("C11", "Dense and block-sparse LDLT reproduce, solve with and sign their input",
  "For every symmetric matrix inside the domain of an unpivoted LDL' factorisation, the dense and the block-sparse factorisations reconstruct the matrix, solve with it, and report pivots and sign that match it; an input with a zero pivot is reported as a numerical issue. This holds for every block structure, block sizes, block permutation, analysis, copy or assignment and sequence of earlier factorisations.",
  ["inputs", "histories"],
  "every symmetric integer matrix with non-zero leading minors up to 4x4; every block structure over {zero, dense, diagonal, triangular} blocks with 2-4 blocks, every permutation, sizes 1-3; operation histories of depth 3-4",
  TESTS + "the LDLT tests are not built, and they factorise one block pattern.",
  [I + "linalg/dense.hpp", I + "linalg/block-ldlt.hpp", I + "linalg/block-ldlt.hxx", I + "linalg/ldlt-base.hpp", I + "linalg/block-triangular.hpp"],
  [("in-place unpivoted LDLT", "linalg/dense.hpp ldlt_in_place_unblocked/recursive"), ("block traversal", "BlockLDLT::compute, block_sparse_ldlt_in_place")],
  ["compute(), info(), sign(), vectorD(), solveInPlace(), reconstructedMatrix()"],
  ("matrices, block structures, permutations and histories", "exact integer oracle for pivots and minors; floating-point comparison within a tolerance; AddressSanitizer watches every execution"))

p("C12", "Symbolic block algebra predicts exactly what can be non-zero",
  "For all block kinds and block matrices, the symbolic sum, product, transpose and factorisation describe the smallest kind that contains everything the corresponding numeric operation can produce, so that numeric code that trusts it never misses or overwrites an entry. The permutation search returns a permutation of the blocks with the least fill-in cost together with the structure of the permuted factor. The structure-aware product and triangular-solve kernels compute the same result as dense arithmetic for every supported pair of kinds.",
  ["inputs"],
  "all pairs of kinds, all block matrices up to 3x3 (thorough 4x4), all symmetric structures with up to 4 blocks with all permutations, all kernel kind pairs and sizes",
  TESTS + "the symbolic tests use a single structure.",
  ["src/block-kind.cpp", I + "linalg/block-kind.hpp", I + "linalg/gemmt.hpp", I + "linalg/block-triangular.hpp"],
  [("kind algebra tables", "src/block-kind.cpp"), ("brute force / heuristic permutation", "SymbolicBlockMatrix::brute_force_best_permutation"), ("kind dispatch", "linalg/gemmt.hpp")],
  ["trans/add/mul, llt_in_place, deep_copy, brute_force_best_permutation, backend::gemmt, triangular_solve"],
  ("kinds, block structures and permutations", "the oracle is boolean arithmetic on entry patterns and dense arithmetic; AddressSanitizer watches every execution"))

p("C13", "Every constraint set is the proximal operator of its function",
  "For every point, bound and penalty parameter, each constraint set's projection is the proximal operator of the function it stands for, projection and normal-cone projection add up to the point, and the Moreau envelope equals the minimum it denotes. The generalised Jacobian operators keep exactly the rows selected by the active set, which marks the components where the projection is locally constant. Results do not depend on earlier calls, on output contents, or on in-place use.",
  ["inputs", "histories"],
  "every point of a grid that includes all kinks and infinities, all four sets, dimensions 0-3, penalty parameters, and call histories",
  TESTS + "the constraint tests are not built and sample random points, which never hit the kinks.",
  [I + "constraint-set.hpp", I + "constraint-set.hxx", I + "modelling/constraints/box-constraint.hpp", I + "modelling/constraints/negative-orthant.hpp", I + "modelling/constraints/equality-constraint.hpp", I + "modelling/constraints/l1-penalty.hpp"],
  [("closed-form projections", "modelling/constraints/*.hpp"), ("row masking by active set", "constraint-set.hxx")],
  ["projection, normalConeProjection, evaluate, computeMoreauEnvelope, computeActiveSet, apply*Jacobian"],
  ("points, sets, parameters and call histories", "scalar closed-form oracle plus brute-force minimisation on a grid"))

p("C14", "A product of constraint sets acts block by block",
  "A product of constraint sets, of any arity and nesting, applies each factor to its own segment, in order, for the value, both projections, the active set, both Jacobian operators and the Moreau envelope. Setting its penalty parameter reaches every factor at every depth, and copies do not share state. A mismatch between the number of sets and of block sizes is refused.",
  ["inputs", "histories"],
  "every product of up to 3 factors of 4 kinds and sizes 0-2, nested once, with sequences of parameter changes and copies; all orders of the four kinds",
  TESTS + "products of sets are not tested.",
  [I + "modelling/constraints/constraint-set-product.hpp"],
  [("loop over segments", "ConstraintSetProductTpl"), ("forwarding of the parameter", "ConstraintSetProductTpl::setProxParameter")],
  ["the constraint set interface"],
  ("product structures, points and parameter histories", "componentwise scalar oracle"))

p("C15", "Spaces satisfy the laws of a manifold with a retraction",
  "On every vector space, tangent bundle and Cartesian product, integrating the difference of two points leads from one to the other, the difference after integrating gives the tangent vector back, a zero step does nothing, and interpolation runs along that difference from the first point to the second. The Jacobians of integration and difference with respect to either argument are the derivatives of those operations, and transporting a matrix multiplies it by the Jacobian of integration. The neutral and random elements belong to the space, and operations with output arguments fill exactly their output.",
  ["inputs", "configurations"],
  "all space constructions up to two levels over flat, SO(2) and SO(3) bases, all points and tangent vectors of a grid and all axis-aligned states",
  TESTS + "the manifold tests are not built; they check a few random points with a loose oracle (sizes, midpoint).",
  [I + "manifold-base.hpp", I + "manifold-base.hxx", I + "modelling/spaces/vector-space.hpp", I + "modelling/spaces/tangent-bundle.hpp", I + "modelling/spaces/tangent-bundle.hxx", I + "modelling/spaces/cartesian-product.hxx"],
  [("block formulas on base point and velocity", "tangent-bundle.hxx"), ("loops over factors", "cartesian-product.hxx")],
  ["integrate, difference, interpolate, Jintegrate, Jdifference, JintegrateTransport, neutral, rand, isNormalized"],
  ("spaces, points and tangent vectors", "laws checked directly, Jacobians by central differences; Pinocchio-backed spaces cannot be built here"))

p("C16", "A product space is the ordered list of its factors",
  "However it is built (list, pair, adding factors or whole products, any association of the product operator, copies, adding itself), a Cartesian product consists of exactly its factors in order, products being flattened, and building it leaves the operands unchanged. Every operation, neutral element, split and merge acts factor by factor on the segments in that order, and a point belongs to the product exactly when each of its parts does. Splitting a vector of the wrong size is refused.",
  ["inputs", "histories"],
  "all factor lists of length up to 3 (thorough 4) over six kinds, all ways to build them, all histories of 4 (5) building operations on two products",
  TESTS + "the product tests are not built and only look at total dimensions.",
  [I + "modelling/spaces/cartesian-product.hpp", I + "modelling/spaces/cartesian-product.hxx"],
  [("component vector", "CartesianProductTpl::m_components"), ("operator* overloads", "cartesian-product.hpp")],
  ["numComponents, getComponent, split, merge, the manifold interface"],
  ("factor lists and building histories", "reference model: the list of factors, concatenated"))

p("C17", "Derivatives match values, whatever was called before",
  "For every provided function and cost (linear, difference to a point, quadratic of a residual, squared distance, composition, function cast to a cost, cost sum), the Jacobian, gradient, Hessian and vector-Hessian product requested at a point are the derivatives of the value at that point. Where a Gauss-Newton Hessian is selected it is the Jacobian-weighted one. The answer does not depend on which calls were made before, at which points, nor on the contents of the output buffer, and follows changes of target, weights, slope, constant and mode.",
  ["inputs", "histories"],
  "all functions of a family over flat and curved spaces, all call histories of length 3 (thorough 4) over value/Jacobian/Hessian calls at two points, parameter-change histories",
  TESTS + "the function and cost tests are not built, and they always evaluate the value right before the derivative.",
  [I + "function-base.hpp", I + "function-ops.hpp", I + "cost-function.hpp", I + "modelling/costs/quadratic-residual.hxx", I + "modelling/costs/squared-distance.hpp", I + "modelling/residuals/linear.hpp", I + "modelling/residuals/state-residual.hpp"],
  [("chain rule", "ComposeFunctionTpl"), ("cached residual", "QuadraticResidualCostTpl"), ("gradient/Jacobian adaptors", "CostFunctionBaseTpl, func_to_cost")],
  ["operator(), call, computeJacobian, computeGradient, computeHessian, vectorHessianProduct"],
  ("functions, points and call histories", "numeric differentiation of an independent value oracle and closed forms"))

p("C18", "Cost and function algebra denotes the weighted list it was built from",
  "Any combination of adding, scaling, negating, cloning and copying costs and cost sums yields a cost whose value, gradient and Hessian are the weighted sum of its terms in order, and no operation disturbs its operands except the documented in-place and temporary forms. Composing two functions or casting a function to a cost yields the composed or the same function, and mismatched dimensions are refused.",
  ["inputs", "histories"],
  "all histories of 4 (thorough 5) operations on two sums over three costs, all term lists and weights up to 3, all dimension combinations up to 3 for composition",
  TESTS + "cost sums are not covered by a test that builds.",
  [I + "cost-sum.hpp", I + "cost-sum.hxx", I + "function-ops.hpp", I + "cost-function.hpp"],
  [("term and weight vectors", "CostSumTpl"), ("operators", "cost-sum.hxx")],
  ["numComponents, weights, call, computeGradient, computeHessian, printing"],
  ("operation histories and dimension combinations", "reference model: list of weighted terms"))

p("C19", "The polymorphic value wrapper has value semantics",
  "For every history of constructions, copies, moves, assignments, swaps and destructions, with any allocator propagation traits and any failing allocation or copy, each polymorphic wrapper holds the value the history gives it, of the right dynamic type and from the right allocator. Copies are independent, a moved-from wrapper reports that it is valueless, failures leave the destination as it was, and every object is destroyed exactly once.",
  ["histories", "fault_sequences"],
  "all operation histories of length 3 (thorough 4) on three slots under all allocator traits, with one (two) injected failures; state matching on slot contents",
  TESTS + "no test exercises the wrapper.",
  [I + "third-party/polymorphic_cxx14.hpp"],
  [("control block with allocator", "polymorphic_cxx14.hpp detail::control_block"), ("swap-based assignment", "polymorphic::operator=")],
  ["operator*, operator->, valueless_after_move, get_allocator, copies"],
  ("operation histories with allocation and copy faults", "reference model of slots and allocators; AddressSanitizer and live-object counts watch leaks and double frees"))

p("C20", "The quasi-Newton matrix satisfies the secant equation along any history",
  "For every history of iterates and gradients, the quasi-Newton strategy applies the documented rank-two update exactly when the curvature of the last step is positive: the updated matrix maps the last step to the last gradient change (or back, in the inverse form), stays symmetric and stays positive definite. On a step without positive curvature it leaves the matrix as it was, says so, and goes on from the new iterate. The first call only remembers the iterate, re-initialising and copying behave like values, and an unsized strategy refuses to work.",
  ["inputs", "histories"],
  "both forms, dimensions 1-3, all step and gradient-change grids over three updates, all histories of 4 (5) updates, initialisations, copies and moves",
  TESTS + "the quasi-Newton code has no test that builds.",
  [I + "bfgs-strategy.hpp"],
  [("rank-two update and skip rule", "BFGSStrategy::update"), ("first call", "BFGSStrategy::init")],
  ["update(), init(), is_psd, is_init, isValid(), the matrix argument"],
  ("steps, gradient changes and histories", "the documented formula evaluated in extended precision, plus secant equation, symmetry, definiteness and quadratic termination"))

p("C21", "A problem is the ordered list of its constraint blocks",
  "However a problem is built (constructor, constraints added one by one, copies and assignments), its constraint blocks have the sizes and offsets of the list, in order. Evaluating it or its first or second derivatives at a point writes each constraint's value, Jacobian and multiplier-weighted Hessian to exactly that block and nothing else, whatever the workspace held before. Constraint Hessians are produced when the set asks for them or when all are requested. The problem holds its own copy of each set.",
  ["inputs", "histories"],
  "all lists of up to 3 (4) blocks of sizes 0-3 and six set kinds, every split between constructor and later additions, all histories of 4 (5) building operations on two problems",
  TESTS + "the problem class is only used by tests that are not built.",
  [I + "problem-base.hpp", I + "constraint-set.hpp"],
  [("offsets", "ProblemTpl::reset_constraint_dim_vars"), ("block loops", "ProblemTpl::evaluate, computeDerivatives, computeHessians")],
  ["getIndex, getConstraintDim, getSegment, evaluate, computeDerivatives, computeHessians"],
  ("constraint lists, points and building histories", "reference model: the list of blocks, each function evaluated by itself"))

p("C22", "Workspace and results mirror the problem they were made for",
  "For every problem, the workspace and the results have the problem's dimensions and start from zero and from the neutral point. Each block view refers to exactly its segment of the stacked storage, no two buffers overlap, and the workspace's factorisation solves systems of the size of the problem. Copies, assignments and moves of results keep every value and never refer to another object's storage.",
  ["inputs", "histories"],
  "all problems of up to 3 (4) blocks of sizes 0-3 over six spaces, all factorisation choices, all histories of 4 (5) copies, moves and assignments of two results",
  TESTS + "the layout is not tested.",
  [I + "workspace.hpp", I + "results.hpp", I + "problem-base.hpp"],
  [("views over stacked vectors", "WorkspaceTpl::init, helpers::createConstraintWiseView"), ("copies", "ResultsTpl")],
  ["public members of the workspace and of the results"],
  ("problem shapes and copy histories", "every buffer is written and read back through its views; AddressSanitizer watches every execution; copies of the workspace are not specified"))

p("C23", "Invalid requests are refused and leave the object usable",
  "A request that cannot be served (solving before setup, starting points or multipliers of a wrong size or in a wrong number of blocks, unavailable factorisations or line searches, quasi-Newton updates on a curved space, compositions, costs, products or targets whose dimensions do not match) is refused with an exception, and nothing is computed from it. Whatever was refused, the object then serves valid requests exactly like one that never saw it.",
  ["inputs", "histories"],
  "every sequence of up to 3 (4) of seven kinds of requests, valid and invalid, on small problems; every small wrong dimension of the constructors",
  TESTS + "no test makes an invalid request.",
  [I + "prox-solver.hxx", I + "prox-solver.hpp", I + "function-base.hpp", I + "modelling/residuals/state-residual.hpp", I + "function-ops.hpp", I + "bfgs-strategy.hpp", I + "modelling/spaces/cartesian-product.hxx"],
  [("checks on entry", "ProxNLPSolverTpl::solve"), ("dimension checks", "PROXSUITE_NLP_DIM_CHECK, constructors")],
  ["exceptions, and results of the next valid request"],
  ("sequences of valid and invalid requests", "the reference model is {set up, not set up}; AddressSanitizer watches every execution"))

p("C24", "Numeric helpers mean what they say",
  "The infinity norm of any finite matrix, expression or list of vectors (empty ones included) is its largest magnitude; the validity test is true exactly when some entry is infinite or not a number; sign and closeness agree with their definitions. A polynomial evaluates and differentiates, repeatedly, to the values its coefficients (highest degree first) define.",
  ["inputs"],
  "all small matrices over a value set with signed zeros, subnormals, infinities and NaN, all pairs of scalars, all small polynomials with all their derivatives",
  "The existing test compares one norm; corner values and polynomials are not tested.",
  [I + "math.hpp", I + "linesearch-armijo.hpp"],
  [("norm and validity helpers", "math.hpp"), ("Horner evaluation", "PolynomialTpl")],
  ["math::infty_norm, check_value, check_scalar, scalar_close, sign, PolynomialTpl"],
  ("values", "definitions evaluated directly; the norm of non-finite data is not specified"))

p("C25", "Factorisations report the true inertia at any scale",
  "Each factorisation obtained for a problem's sizes and a choice of method reports, for every matrix inside its domain, exactly the number of positive, negative and zero pivots the matrix has, whatever its overall scale, and solves with it. A matrix with a zero row is never reported as free of zero pivots. Asking for an unsupported method is refused.",
  ["inputs", "configurations"],
  "every symmetric matrix over a value set up to 4x4 at several scales, every small KKT matrix for all methods and block sizes",
  TESTS + "the inertia code has no test.",
  [I + "ldlt-allocator.hpp", I + "linalg/ldlt-base.hpp", I + "linalg/bunchkaufman.hpp"],
  [("signature from the 1x1 and 2x2 pivots", "ldlt-allocator.hpp ComputeSignatureVisitor, bunchKaufmanSignature"), ("counting", "computeInertiaTuple")],
  ["ComputeSignatureVisitor, computeInertiaTuple, allocate_ldlt_from_sizes"],
  ("matrices, methods and scales", "exact rational inertia oracle; matrices whose eigenvalues span more than nine orders are out of scope"))

p("C26", "Finite differences are second-order accurate on every space",
  "For every function on a flat, curved, product or bundle space, the finite-difference wrapper returns the function's own value, a first-order wrapper returns its Jacobian and a second-order wrapper the multiplier-weighted derivative of its Jacobian along tangent directions, with an error proportional to the square of the step and independent of the contents of the output. The second-order wrapper passes the function's own Jacobian through, wrappers nest, and a changed step takes effect.",
  ["inputs", "configurations"],
  "seven spaces, residual sizes 0-3, polynomial degrees 1-3, step sizes 1e-5 to 1e-2, points, multipliers and buffer contents; nested wrappers",
  TESTS + "the finite-difference test is not built, and it uses one function.",
  [I + "modelling/autodiff/finite-difference.hpp"],
  [("central differences along the retraction", "finite_difference_impl")],
  ["operator(), computeJacobian, vectorHessianProduct of finite_difference_wrapper"],
  ("functions, spaces, steps and points", "exact chain-rule derivatives; error bounds proportional to the squared step"))

p("C27", "Solves and operations that share no state never interfere",
  "Solves, factorisations, evaluations of costs, residuals, constraint sets, spaces and quasi-Newton updates that run in different threads, each on its own objects, give bit for bit the results they give alone, under every schedule. They may share constants: spaces, residual functions, weighted sums of functions, constraint sets whose proximal parameter is not changed meanwhile, finite-difference wrappers and problem descriptions. A solve started inside a user function or callback of another solve, at any call, changes neither result.",
  ["schedules", "configurations"],
  "two real threads under a controlled scheduler that hands over at the basic blocks of the real code: every stop of the first thread at the first two visits of every basic block, for all pairs of 29 kinds of operations with and without shared constants and for solves of seven configurations; thorough: also a second preemption, and two inner solves at any two user calls",
  TESTS + "no test runs two operations at once or nests them, and a shared buffer shows only in particular schedules.",
  [I + "prox-solver.hxx", I + "pdal.hxx", "src/block-kind.cpp", I + "linesearch-armijo.hpp", I + "cost-sum.hpp", I + "function-ops.hpp", I + "modelling/spaces/cartesian-product.hxx", I + "modelling/autodiff/finite-difference.hpp"],
  [("all buffers belong to workspaces, results and function objects", "WorkspaceTpl, ResultsTpl"), ("const evaluation without side effects", "C2FunctionTpl, CostFunctionBaseTpl, ConstraintSetTpl")],
  ["results of concurrent or nested calls"],
  ("preemption points (basic blocks, up to one or two preemptions) of two threads of the real code", "sequential consistency between the hand-overs; quadratic residual costs, solvers, workspaces and results are not shared; function-local constants are initialised before"))


p("C28", "What is printed is what was computed",
  "A solve whose log is on prints one row per Newton step, in order, under a heading that starts the log and recurs every 25 rows; every column of a row shows, to the digits displayed, the quantity its heading names for that very step: step length, inner criterion, primal and dual residual, the regularisation of the system that was solved, the slope, the merit value reached and its change, and the two iteration counters. The closing line announces success or an iteration limit exactly when that is the outcome. A quiet solve, or one whose logger is off, prints no row, and printing never changes a result. Printed block structures and line-search options show what is stored.",
  ["inputs", "configurations"],
  "logger records over special values, iterations and column widths; every solve of seven problem families and steep concave ones, configurations within 1 (thorough: 2) deviations, three verbosities, two solves; all block structures of up to 2 (partly 3) blocks of sizes 0-3",
  TESTS + "nothing that is printed is ever read back by a test.",
  [I + "logger.hpp", I + "prox-solver.hxx", I + "linesearch-base.hpp", "src/block-kind.cpp"],
  [("one record per step, formatted column by column", "BaseLogger::log, innerLoop"), ("pattern buffer", "print_sparsity_pattern")],
  ["standard output of solve, BaseLogger, print_sparsity_pattern, operator<< of Linesearch::Options"],
  ("problems, configurations and verbosities; record values; block structures", "numbers are compared to the digits displayed; turning the log on again after a quiet solve of the same solver is not required"))

