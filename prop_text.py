"""Text of the properties (source of properties.jsonl and of the notes in MANIFEST.json)."""


def Q(over, text):
    return dict(over=over, text=text)


def A(files, mech, state=(), observe=()):
    return dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe))


TEXT = []
NOT_APPLICABLE = {}


def P(id, title, statement, quant, why, anchors, note):
    TEXT.append(dict(id=id, title=title, statement=statement, quantifier=quant, why_tests_cant=why, anchors=anchors, note=note))


P("C01", "An index list is a duplicate-free sequence with a correct sorted view",
  "After any sequence of operations (add a number that is not in the list, remove, swap, copy, assign, re-initialise) an index list contains exactly the numbers put in and not removed, in insertion order (removal closes the gap, swapping exchanges two positions), and its accompanying sorting permutation lists exactly these positions in ascending order of their numbers. Membership and position queries answer correctly for every number, positions outside the list are reported as errors, a full list refuses additions, and a refused or void operation leaves the list unchanged; copies are independent of the original.",
  Q(["histories", "inputs"], "every capacity, every history of operations, every queried number including numbers smaller or larger than all entries"),
  "tests/ only use index lists indirectly through a few QPs; insertion orders, boundary queries and the sorted view are never examined",
  A(["src/Indexlist.cpp", "include/qpOASES/Indexlist.ipp", "include/qpOASES/Indexlist.hpp"],
    [("binary search in the sorted view", "Indexlist::findInsert"), ("insertion", "Indexlist::addNumber"), ("removal", "Indexlist::removeNumber"), ("swap", "Indexlist::swapNumbers")],
    [("number[0..length)", "the sequence", "Indexlist.hpp"), ("iSort[0..length)", "positions in ascending order of their numbers", "Indexlist.hpp")],
    ["getNumberArray", "getISortArray", "getIndex", "isMember", "getNumber", "getLength"]),
  "All functions of the class are proved for all inputs against contracts over the sequence and sorting permutation (integers mathematical, new never fails, destructors not modelled). The harness (exhaustive to 5 entries plus seeded random histories, ASan/UBSan) replays concretely.")

P("C02", "Working sets always partition variables/constraints consistently",
  "For bounds and for constraints alike, after any sequence of set-up, move, flip, swap, shift, rotate, copy and re-initialise operations every index with status inactive is listed exactly once among the free/inactive ones, every index at its lower or upper limit is listed exactly once among the fixed/active ones, an index without status is in neither list, and all other entries keep their types and statuses. Moves append to the target list and preserve the order of the rest, the set-up of all entries orders them by type (unbounded, bounded, equality, others), shift and rotate move types and statuses together and rebuild the lists in ascending order, and out-of-range indices or impossible moves are refused without changing the working set.",
  Q(["histories", "inputs"], "every number of variables/constraints, every history of operations, including those the solver itself performs"),
  "the tests check QP solutions only; the bookkeeping is not observed and shift/rotate/swap are almost never run",
  A(["src/Bounds.cpp", "src/Constraints.cpp", "src/SubjectTo.cpp", "include/qpOASES/SubjectTo.ipp", "include/qpOASES/Bounds.ipp", "include/qpOASES/Constraints.ipp"],
    [("status and list updated together", "SubjectTo::addIndex/removeIndex/swapIndex"), ("moves", "Bounds::moveFixedToFree, moveFreeToFixed; Constraints::moveActiveToInactive, moveInactiveToActive"), ("rebuild", "shift, rotate, setupAll")],
    [("type, status", "per index", "SubjectTo.hpp"), ("freee/fixed, inactive/active", "index lists", "Bounds.hpp, Constraints.hpp")],
    ["getStatus", "getType", "getFree/getFixed", "getActive/getInactive", "getBounds/getConstraints after a solve"]),
  "Every mutating function of Bounds and Constraints proved to preserve the partition invariant and to have exactly the stated effect, using the index-list contracts (proved by C01). Preconditions: moves start from the set they name. Harness: random histories and working sets taken from solver runs.")

P("C14", "Options: documented presets, loss-free copies and consistency repair",
  "Every option preset (default, reliable, MPC/fast), in the C++ class as in the C interface, sets every option to its documented value whatever the values were before; copying and assigning options, handing them to a solver (QProblemB, QProblem, SQProblem) and translating them from the C structure transfer every option unchanged, except that handing them to a solver repairs inconsistent values first. The repair replaces exactly the invalid entries (negative counts and ramping values, non-positive tolerances, a growth factor below 1.1, initial far bounds not larger than the bound relaxation) by their documented replacements, leaves all others alone, reports whether anything was changed and has nothing left to do when called again. Changing the print level changes nothing else. Invalid arguments of the C functions are refused.",
  Q(["inputs"], "all values of all options, finite reals"),
  "tests use three presets as they are; single options, invalid values and the C translation of rarely used options are never looked at",
  A(["src/Options.cpp", "include/qpOASES/Options.hpp", "interfaces/c/qpOASES_wrapper.cpp", "src/QProblemB.cpp"],
    [("presets", "Options::setToDefault, setToReliable, setToMPC, setToFast; qpOASES_Options_init"), ("copies", "Options::copy; qpOASES_Options_copy"), ("repair", "Options::ensureConsistency"), ("transport", "QProblemB::setOptions, setPrintLevel")],
    [("the public members of Options", "option values", "Options.hpp")], ["Options members", "QProblemB::getOptions"]),
  "Field by field for every member the class declares (a member added without contract fails). Floating-point arithmetic is treated as exact; printResiduals of the C structure has no C++ counterpart and is ignored. Harness: random option values through all paths.")

P("C03", "Dense matrix operations compute the stated products, norms and extractions",
  "For every dense matrix (whatever its leading dimension, owned or shared storage) multiplication with the matrix or its transpose gives beta*y + alpha*M*x in exactly the addressed entries of y, for every number of right-hand sides, every leading dimension of x and y, all coefficients including the specially handled 0, 1, -1, for whole matrices, for listed rows and columns in any order, with or without compressed result. Rows, columns, diagonal, norms, full and sparse copies and the bilinear form over listed columns equal their mathematical definition; adding a multiple of the identity changes the diagonal only; duplicates have equal entries and, if the original owns its storage, share nothing with it. No other entry of any output is touched.",
  Q(["inputs"], "all sizes including 0, all leading dimensions, coefficients and index lists"),
  "the solver tests use contiguous matrices, one right-hand side and coefficients 0/1/-1; offsets, leading dimensions, unsorted lists and other coefficients never occur",
  A(["src/Matrices.cpp", "src/BLASReplacement.cpp", "src/Utils.cpp"], [("product kernel", "dgemm_"), ("products with lists", "DenseMatrix::times, transTimes"), ("bilinear form", "SymDenseMat::bilinear")],
    [("val, nRows, nCols, leaDim", "row-major storage", "Matrices.hpp")], ["times", "transTimes", "getRow", "getCol", "getNorm", "getRowNorm", "full", "bilinear", "diag", "isDiag", "getSparseSubmatrix"]),
  "Proved for all sizes against sums of products (exact reals; coefficients within 1e-25 of 0, 1, -1 count as these, as in the code). Listed entries of dense matrices are summed in the order of the sorted list. Member getNorm, getSparseSubmatrix and duplicates are bounded (harness only).")

P("C04", "Sparse matrices behave exactly like the dense matrix they store",
  "For compressed-column, compressed-row and symmetric sparse matrices, built from compressed arrays or from a dense array, owned or shared, every operation gives the result the dense matrix with the same entries would give: products with the matrix and its transpose (all coefficients, right-hand sides, leading dimensions, listed rows/columns in any order, compressed or not), rows, columns, diagonal, norms, dense copies, triplet submatrices (also lower triangle only) and the bilinear form; entries that are not stored count as zero. Adding a multiple of the identity changes the stored diagonal only, or is refused without any change if a diagonal entry is not stored. Duplicates have the same entries and diagonal information and share nothing with the original. Replacing the values keeps the pattern.",
  Q(["inputs"], "all sizes including 0, all sorted sparsity patterns including empty rows/columns and missing diagonal entries, all coefficients and index lists"),
  "two tests use sparse matrices at all, with a fixed pattern; empty columns, missing diagonals, explicit zeros and other coefficients never occur",
  A(["src/Matrices.cpp", "include/qpOASES/Matrices.hpp"], [("scatter/gather products", "SparseMatrix::times, transTimes; SparseMatrixRow::times, transTimes"), ("merging a list with a vector", "getCol, getRow"), ("diagonal information", "createDiagInfo, addToDiag, diag")],
    [("jc/ir/val, jr/ic/val, jd", "compressed storage and first entry not above the diagonal", "Matrices.hpp")], ["times", "transTimes", "getRow", "getCol", "getNorm", "getRowNorm", "full", "bilinear", "diag", "addToDiag", "getSparseSubmatrix"]),
  "Proved for all sizes and patterns: whole products, rows and columns (listed and all), norms, diagonal information, diag, isDiag, addToDiag, setVal, full. Bounded (harness against a dense reference): products with index lists, bilinear, duplicates, triplet submatrices, constructors, column-storage row norms.")

P("C05", "Cholesky factors, triangular solves, rotations and initial TQ factors are exact",
  "The built-in Cholesky routine, if it reports success, leaves an upper triangular factor with positive diagonal whose transpose times itself is the given symmetric matrix (any leading dimension, entries below the diagonal untouched); otherwise it reports failure and leaves a non-positive number in the first entry. Computing the Cholesky factor of the Hessian yields the factor of the Hessian restricted to the free variables in the order of the list of free variables (the identity for identity Hessians, the square root of the regularisation value times the identity for regularised zero Hessians), refuses unregularised zero Hessians and reports and records a Hessian that is not positive definite. Back-substitution with the null-space factor and with the triangular factor of the active constraints, plain or transposed, with separate or shared vectors, with or without the column about to be removed, solves exactly the triangular system whenever it reports success, never reports success for a singular null-space factor, and touches no entry beyond the system. A computed plane rotation is orthogonal, maps the given pair to (norm with the sign of the first, 0) and applying a rotation gives the rotated pair. The initial factorisation takes the unit vectors of the free variables as null-space basis and a zero triangular factor.",
  Q(["inputs"], "every dimension including 0, every working-set size, every factor and right-hand side, every order of the free variables"),
  "the tests reach these kernels only through whole solves with lists of free variables in natural order; zero pivots, transposed solves at all sizes, unusual leading dimensions and failure of the factorisation with later restart are not observed",
  A(["src/LAPACKReplacement.cpp", "src/QProblemB.cpp", "src/QProblem.cpp", "include/qpOASES/QProblemB.ipp"], [("Cholesky", "dpotrf_"), ("factor of the reduced Hessian", "QProblemB::computeCholesky"), ("triangular solves", "QProblemB::backsolveR, QProblem::backsolveT"), ("rotations", "computeGivens, applyGivens"), ("initial basis", "QProblem::setupTQfactorisation")],
    [("R, Q, T", "factors of the current working set", "QProblemB.hpp, QProblem.hpp")], ["dpotrf_", "backsolveR", "backsolveT", "computeCholesky", "computeGivens", "applyGivens"]),
  "Proved for all sizes against sums of products (exact reals), with two lemmas on sums proved by induction; the Hessian's column access enters through an abstract contract that C03/C04 prove for the implementations. Harness: random factors, singular pivots, aliasing, ASan/UBSan.")
P("C06", "A step along the homotopy path never crosses the first blocking limit",
  "The ratio test over a list of entries never lengthens the step, shortens it exactly to the smallest ratio num/den among the eligible entries (not an implicit equality; lower or inactive entries with num and den at least the two tolerances, upper entries with the negated pair) below the given length, and returns the index that attains it, or -1 and the length unchanged if there is none; the plain ratio test does the same for all listed entries whose num and den exceed the tolerances (leaving the index alone if there is none). A homotopy step has length at most 1; afterwards every eligible multiplier of an active bound or constraint and every eligible slack (clipped at zero) of a free bound or inactive constraint permits the chosen length, where sides without any finite limit are skipped; unless the length is 1 the reported blocking index, kind (bound or constraint) and new status name one limit that attains the length exactly, and no change (index -1, undefined status) is reported exactly for a full step. If the length exceeds zero, gradient, bounds, constraint bounds, primal variables (free and fixed) and multipliers of fixed variables and active constraints move by exactly length times their direction, multipliers of free variables and inactive constraints stay, the products of active constraints are recomputed from the new point with matching slacks, and products and slacks of inactive constraints that are not unbounded move along (unbounded ones stay and never depend on uninitialised data); otherwise nothing moves. Failure of a user constraint product for a needed constraint is reported.",
  Q(["inputs"], "every data and direction vector, every working set and classification of bounds and constraints, both tolerances, with and without unbounded sides"),
  "whole solves on regular problems pass even if a tie, a zero-length step, an implicit equality, an unbounded side or a violated (clipped) slack is treated wrongly, because later iterations correct or hide it",
  A(["src/QProblemB.cpp", "src/QProblem.cpp", "include/qpOASES/QProblemB.ipp"], [("ratio test", "QProblemB::performRatioTest, isBlocking"), ("step", "QProblemB::performStep, QProblem::performStep"), ("plain ratio test", "QProblem::performPlainRatioTest")],
    [("tau", "length of the last step", "QProblemB.hpp"), ("Ax, Ax_l, Ax_u", "products and slacks of the constraints", "QProblem.hpp")], ["performRatioTest", "performStep"]),
  "Proved for all inputs over exact reals, without a user constraint product; the product with listed rows enters through an abstract contract that C03/C04 prove for the implementations. Harness: random data, tolerances, types, products and failing products, ASan/UBSan with poisoned allocations.")
P("C07", "Homotopy data: shift, relative length and auxiliary QP are exactly as specified",
  "For problems with bounds only and with constraints: the data shift is the new data minus the stored data in every entry of gradient, bounds and constraint limits, where an absent vector of lower (upper) limits counts as minus (plus) INFTY; the flag for bounds (constraints) is true exactly if no fixed variable (active constraint) has a limit that moves by more than EPS. The relative homotopy length is the largest |new-old|/max(1,|new|) over all entries of all given vectors (0 if none differs). The auxiliary QP takes over the given primal and dual vectors (zeros if absent, also if the object's own vectors are given), with the products A*x of all constraints; its limits pass through that point for active limits and for equalities, keep distance boundRelaxation on the other side and for inactive limits if relaxation is requested (distance 0 where the wanted working set had the limit active), are unchanged otherwise, and slacks match them; its gradient makes the point stationary: g = y - H*x + A'*y_constraints, for zero (with and without regularisation), identity and general Hessians.",
  Q(["inputs"], "all sizes, data, working sets, classifications, present and absent vectors, Hessian types"),
  "an error in the start or shift of the homotopy is mostly repaired by later iterations or only costs iterations, so whole-solve tests with their few sparsity patterns of absent vectors do not see it",
  A(["src/QProblemB.cpp", "src/QProblem.cpp"], [("data shift", "determineDataShift"), ("relative length", "getRelativeHomotopyLength"), ("auxiliary QP", "setupAuxiliaryQPsolution, setupAuxiliaryQPbounds, setupAuxiliaryQPgradient")],
    [("g, lb, ub, lbA, ubA", "data of the current QP of the homotopy", "QProblemB.hpp, QProblem.hpp")], ["determineDataShift", "getRelativeHomotopyLength", "setupAuxiliaryQPsolution", "setupAuxiliaryQPbounds", "setupAuxiliaryQPgradient"]),
  "Proved for all inputs over exact reals, both classes; products with H, A and A' enter through abstract contracts that C03/C04 prove for the implementations. Harness: random states compared entry by entry, exactly sized arrays under ASan.")

P("C12", "Drift correction, ramping and far bounds keep a consistent, optimal homotopy QP",
  "Drift correction leaves the point unchanged and moves the data so that it is exactly optimal: an active two-sided limit is set to the value of its variable or constraint, the other side is moved only if it would be violated, multipliers of active lower (upper) limits are made nonnegative (nonpositive), those of inactive ones zero, both sides of equalities are set to the value, constraint slacks match the limits, limits of other types are kept, and the gradient is recomputed for stationarity. Ramping likewise puts active limits and equalities at the point, puts inactive sides at a distance and multipliers at values (positive for lower, negative for upper, zero for inactive limits) taken from an evenly spaced ramp between the two ramping values, shifted cyclically by the ramp offset, which it advances by one; distances scale with max(1,|value|) if there are constraints. Far bounds replace absent limits, and cap given ones, by the far bound (times one plus the ramp value if ramping is enabled). The ramp is well defined for every size including a single variable, and the ramping values given in the options are used.",
  Q(["inputs"], "all sizes, data, working sets, classifications, offsets, ramping values, Hessian types"),
  "tests see only whole solves; a wrong sign, side, offset or division by zero for a single variable only shows on cycling, unbounded or infeasible problems and can return a wrong point as optimal",
  A(["src/QProblemB.cpp", "src/QProblem.cpp", "include/qpOASES/QProblemB.ipp"], [("drift correction", "performDriftCorrection"), ("ramping", "performRamping"), ("far bounds", "updateFarBounds")],
    [("ramp0, ramp1, rampOffset", "ramp", "QProblemB.hpp"), ("lb, ub, lbA, ubA, g", "data of the current QP", "QProblemB.hpp, QProblem.hpp")], ["performDriftCorrection", "performRamping", "updateFarBounds", "setOptions"]),
  "Proved for all inputs over exact reals, both classes; products enter through abstract matrix contracts (C03/C04). The far bounds' place in the outer loop is only exercised by harness solves of separable problems with known solutions.")

P("C08", "The KKT violation metric is the largest residual of each optimality condition",
  "For every QP (any of Hessian, gradient, constraint matrix, bounds and constraint limits may be absent) and every primal-dual point, getKktViolation returns exactly three numbers: the largest absolute stationarity residual |g - y + H*x - A'*y|_i (identity Hessian added when none is given and so requested); the largest violation of any lower or upper bound or constraint limit (0 if none); and the largest complementarity product, where a limit counts as active if the working set says so or, without a working set, if the multiplier has the matching sign and exceeds 1000 machine epsilons. Each is attained by some index and none is exceeded. SolutionAnalysis::getKktViolation is this metric for the data, iterate and working set stored in the solver object (with regularisation removed from the Hessian), returns the maximum of the three, stores each one asked for, and returns INFTY for a missing object. The exported working sets are -1, +1 or 0 per index exactly as the status is lower, upper or otherwise, bounds first.",
  Q(["inputs"], "all dimensions, all data, every combination of absent arguments, every working set"),
  "tests call the metric on solved QPs, where all residuals are about zero: an omitted term or a row that is skipped is invisible there",
  A(["src/Utils.cpp", "src/SolutionAnalysis.cpp", "src/QProblemB.cpp", "src/QProblem.cpp"],
    [("metric", "getKktViolation (both overloads)"), ("applied to the solver object", "SolutionAnalysis::getKktViolation"), ("exported working sets", "getWorkingSet, getWorkingSetBounds, getWorkingSetConstraints")],
    [("status per bound/constraint", "working set", "SubjectTo.hpp")],
    ["getKktViolation", "SolutionAnalysis::getKktViolation", "getWorkingSet"]),
  "Proved for all inputs (exact arithmetic; products of reals kept uninterpreted, so only commutativity is used; Matrix::full trusted here, its implementations proved by C03/C04). The harness recomputes the metric on random data with absent arguments and on solver objects.")

P("C09", "Limits are classified correctly and inconsistent limits are always reported",
  "For bounds and constraints alike: given new limits, an index is unbounded if neither side is given at all, or if both given sides are infinite (beyond +-INFTY up to boundTolerance) and far bounds are off; an equality if implicit equalities are enabled and both the stored and the new limits coincide up to boundTolerance; bounded otherwise; disabled constraints stay disabled; the flags for absent lower (upper) limits are set exactly if no index has a finite one. Nothing but types and these flags changes. When a homotopy starts, an inactive index is never left an implicit equality, and an index active at coinciding limits that is not an equality sits on the side matching the sign of its multiplier. Limits are consistent exactly if no given lower limit exceeds the given upper limit by more than EPS. init and hotstart with inconsistent limits report it, set the infeasibility flag and (hotstart) leave point, multipliers and usability of the object unchanged; the next hotstart with consistent limits succeeds and clears the flag. A QP whose constraint is out of reach of its bounds is reported infeasible, never solved. Limits may appear, vanish, coincide or separate between hotstarts: the solution always belongs to the new limits.",
  Q(["inputs", "histories"], "all sizes, all limits including absent vectors and infinite values, all working sets, types and tolerances, all sequences of hotstarts with changing kinds of limits"),
  "tests hotstart with limits of unchanged kind and never with crossed or unreachable ones; a stale classification silently drops a limit",
  A(["src/QProblemB.cpp", "src/QProblem.cpp"], [("classification", "setupSubjectToType, adaptImplicitEqualities, QProblem::updateActivitiesForHotstart"), ("consistency", "areBoundsConsistent"), ("report", "setInfeasibilityFlag, hotstart, init")],
    [("type, noLower, noUpper", "kind of each limit", "SubjectTo.hpp"), ("infeasible", "flag", "QProblemB.hpp")], ["setupSubjectToType", "areBoundsConsistent", "isInfeasible", "hotstart", "init"]),
  "Proved for all inputs over exact reals: classification, adaptation at the start of a homotopy, consistency check, flag. Bounded (harness): the reports of init and hotstart, unreachable constraints, sequences of hotstarts whose limits change their kind (separable problems with known solutions).")

P("C13", "Solver calls stop exactly as documented and within the given limits",
  "hotstart and the loops below it report success only with status solved, the infeasibility and unboundedness flags clear and the remaining relative distance to the new data at most the termination tolerance. Working set changes are counted from those already performed, never exceed the given number, and the count is handed back. Without a time limit, stopping for too many changes happens only after exactly the given number; the object then stays usable, and continuing with further calls leads to the solution of the same QP. With a time limit, the first change is always allowed and the loop stops exactly when elapsed time plus 1.25 times the average time per change exceeds the limit. Regularisation steps and repeated passes with growing far bounds share one budget of changes and time; the gradient modified for regularisation is replaced by the given one afterwards. Every hotstart with consistent limits advances the solution counter once. Inconsistent limits are reported as infeasible, a call on an object that has not been initialised (also after reset) is refused with an error and without touching memory it does not own. The print level never influences result, count or code.",
  Q(["inputs", "histories", "time"], "every budget of changes including 0, every time limit and course of the clock, all options, every number and outcome of the inner steps, every state of the object"),
  "tests call the solver with ample budgets and no time limit; a lost, doubled or wrongly counted budget, a status left behind by an aborted call, or a wrong rule for the time limit only shows when a limit is hit at a particular iteration and the object is used again",
  A(["src/QProblemB.cpp", "src/QProblem.cpp"], [("homotopy loop", "solveQP"), ("regularisation loop", "solveRegularisedQP"), ("far-bound loop", "hotstart"), ("time rule", "isCPUtimeLimitExceeded")],
    [("status, infeasible, unbounded, count", "state of the object", "QProblemB.hpp")], ["hotstart", "init", "getStatus", "getCount"]),
  "Proved for every number of iterations and every outcome of the steps inside the loops (their contracts, proved by C06, C07, C09 and C12 or trusted, only say what they may change). Bounded (harness, ASan/UBSan): usability after an exhausted budget, uninitialised objects, printing, a simulated clock.")

P("C15", "Step directions solve the linearised optimality conditions exactly",
  "For every shift of the data and every working set, the step direction moves each fixed variable exactly with its active bound (not at all if the bounds are flagged as not moving), solves H*dx - A'*dy = -dg for the free variables and gives each fixed variable (each active constraint) the multiplier change that keeps stationarity, for zero (with its regularisation), identity and general Hessians and with any number of iterative refinement steps; active constraints move exactly with their limits; failure of a factor is reported. A step of any length along such a direction keeps a stationary point stationary for the moved data, so after a full step it is stationary for the new data. After every solve the factors belong to the working set: the basis of the free variables is orthonormal, active constraints times it give zero for the null space and the triangular factor otherwise, and the Cholesky factor is that of the Hessian projected on the null space.",
  Q(["inputs", "histories"], "every dimension, data shift, working set reached by any sequence of solves, Hessian type, refinement setting"),
  "whole solves on small fixed QPs tolerate an inexact direction, because refinement, drift correction or extra working set changes repair it; wrong factors only show several working set changes later",
  A(["src/QProblemB.cpp", "src/QProblem.cpp"], [("step direction", "QProblemB::determineStepDirection, QProblem::determineStepDirection"), ("factor updates", "addBound, removeBound, addConstraint, removeConstraint, computeProjectedCholesky, setupTQfactorisation")],
    [("R, Q, T", "factors of the working set", "QProblemB.hpp, QProblem.hpp")], ["determineStepDirection", "backsolveR", "backsolveT"]),
  "Proved for all inputs over exact reals for problems with bounds, given that the factor is that of the reduced Hessian (with the lemma that solving with R' and R solves with R'R, by induction), and that steps keep stationarity. Bounded (harness): problems with constraints, and the factors after working set changes.")

P("C20", "A point returned with success is optimal for the QP that was given",
  "Whenever init or hotstart (with new vectors, limits of other kinds, or, for SQProblem, new matrices) returns success, the primal and dual solution handed out satisfy the optimality conditions of exactly the given QP within 1e-5: stationarity, all bounds and constraints, signs of multipliers and complementarity; multipliers of free variables and inactive constraints are zero, active limits are attained, the objective value is that of the point, and the object is solved, neither infeasible nor unbounded. This holds for bound-constrained and general problems, dense and sparse matrices, definite and semidefinite Hessians, every preset and every combination of ramping, far bounds, flipping bounds, regularisation, drift correction, refactorisation, refinement and linear independence tests. Feasible QPs with positive definite Hessian are solved with the default and the reliable options, from scratch and by hotstart.",
  Q(["inputs", "histories"], "every feasible convex QP of moderate size and conditioning, every option combination, every sequence of hotstarts"),
  "the tests solve a fixed set of QPs with a few option sets; an error in a rarely taken branch of a working set change, of an option or of a hotstart changes the result only for particular data",
  A(["src/QProblemB.cpp", "src/QProblem.cpp", "src/SQProblem.cpp", "src/Matrices.cpp"], [("solver", "init, hotstart, solveQP"), ("working set changes", "changeActiveSet, addBound, removeBound, addConstraint, removeConstraint, ensureNonzeroCurvature"), ("new matrices", "SQProblem::hotstart, setupNewAuxiliaryQP")],
    [("x, y, g, lb, ub, lbA, ubA", "iterate and data", "QProblemB.hpp, QProblem.hpp")], ["init", "hotstart", "getPrimalSolution", "getDualSolution", "getObjVal"]),
  "Bounded: decided by an end-to-end check of the real solver on random QPs with an independent KKT oracle; only the composing lemmas and contracts (see C05-C07, C09, C12, C13, C15) are proved, the whole solve is not. Not claimed: ill-conditioned or unbounded problems, success of the MPC preset.")

P("C10", "Data setters store exactly what is given; queries return exactly the state",
  "Setting gradient, bounds or constraint limits stores the given vector, an absent vector of lower (upper) limits meaning minus (plus) INFTY everywhere and an absent gradient being refused; setting a single limit changes exactly that entry and refuses every other index; all are refused on an object without variables; nothing else changes. Setting the constraint matrix makes the products A*x and both slacks of every constraint match it, and marks constraints with an empty row as disabled (matrix object). The primal solution is returned, entry by entry, only if a QP has been solved (otherwise the output is untouched and an error returned); all multipliers are copied, with success reported only if a QP has been solved. The objective value is g'x + 1/2 x'Hx for zero, identity and general Hessians with the regularisation removed again, for a given point or the iterate (INFTY if none has been solved). Counts (variables, constraints, free, fixed, active, inactive, null-space dimension, equalities, bounded, unbounded), status, flags, Hessian type, counter and copies of the working sets are those of the stored state, and queries change nothing.",
  Q(["inputs"], "all sizes, data, states, indices including negative and too large ones, absent vectors"),
  "tests use these functions only on the way to a solve with valid full data; off-by-one entries, missing vectors, partial updates of derived data or side effects of queries are not observed",
  A(["include/qpOASES/QProblemB.ipp", "include/qpOASES/QProblem.ipp", "src/QProblemB.cpp", "src/QProblem.cpp", "src/SubjectTo.cpp"],
    [("setters", "setG, setLB, setUB, setLBA, setUBA, setA, setH, setupQPdata"), ("queries", "getPrimalSolution, getDualSolution, getObjVal, counts and flags")],
    [("g, lb, ub, lbA, ubA, H, A, Ax, Ax_l, Ax_u", "problem data and products", "QProblemB.hpp, QProblem.hpp")], ["setLB", "setUBA", "setA", "getObjVal", "getPrimalSolution", "getDualSolution", "getNFR"]),
  "Proved for all inputs over exact reals; products and row norms enter through abstract matrix contracts that C03/C04 prove. Bounded (harness): setH, setA from an array, setupQPdata, copies of the working sets, regularised objective after whole solves.")
