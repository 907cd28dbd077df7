#!/usr/bin/env python3
"""Source of properties.jsonl (run by hand after editing)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), obs=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(obs), hook_needed=hook)))

prop("P01", "A successful cold start returns the optimum of the QP that was passed",
 "Whenever initialisation from problem data reports success, the reported primal/dual pair satisfies the optimality (KKT) conditions of exactly that problem up to a small tolerance and the reported objective is that of the reported point. Every well-posed strictly convex problem (feasible, well-conditioned) is solved successfully given a generous iteration limit.",
 ["inputs", "configurations"], "All QPs (bounds only or with constraints, equalities, infinite or omitted bounds, duplicate/degenerate constraints, identity/diagonal/sparse/dense Hessians), all four option presets.",
 "Tests solve a few dozen fixed QPs; optimality must hold for the whole input space, and degenerate or one-sided structures steer the homotopy through paths the fixed problems never take.",
 ["src/QProblem.cpp", "src/QProblemB.cpp"],
 [("homotopy loop: step direction, ratio test, working-set change", "src/QProblem.cpp solveQP/determineStepDirection/performStep/changeActiveSet, src/QProblemB.cpp same"), ("TQ and Cholesky updates", "src/QProblem.cpp addBound/removeBound/addConstraint/removeConstraint"), ("far bounds and ramping", "src/QProblemB.cpp updateFarBounds/performRamping")],
 [("x,y", "primal/dual iterate", "include/qpOASES/QProblemB.hpp"), ("R,Q,T", "factors of the projected Hessian and active constraints", "include/qpOASES/QProblem.hpp")],
 ["getPrimalSolution", "getDualSolution", "getObjVal", "return value of init"])

prop("P02", "Infeasible problems are reported infeasible, feasible ones never are",
 "For a problem whose constraints contradict each other by a clear margin (including a lower bound above its upper bound), initialisation and hotstart fail and the infeasibility query answers yes, never success. A problem with a strictly feasible point is never declared infeasible, and after an infeasible problem the same object can go on to solve a feasible one to optimality.",
 ["inputs", "histories", "configurations"], "All QPs with certified infeasibility (explicit Farkas certificate) or certified feasibility, cold or warm, all presets, positions of the infeasible QP in a sequence.",
 "Tests contain one or two hand-made infeasible problems; a false verdict depends on which constraint blocks first and on linear-dependence handling.",
 ["src/QProblem.cpp", "src/QProblemB.cpp"],
 [("linear dependence resolution decides infeasibility", "src/QProblem.cpp ensureLI (addConstraint_ensureLI/addBound_ensureLI)"), ("far-bound escalation", "src/QProblem.cpp hotstart"), ("bound consistency pre-check", "src/QProblem.cpp areBoundsConsistent")],
 [("infeasible", "flag reported by the query", "include/qpOASES/QProblemB.hpp")], ["isInfeasible", "getSimpleStatus", "return values"])

prop("P03", "Unbounded problems are reported unbounded, bounded ones never are",
 "For a convex problem with a feasible descent ray along which the objective has zero curvature, solving never reports success with an answer that is optimal for nothing: it fails and the unboundedness query answers yes. A problem with a finite optimum is never declared unbounded.",
 ["inputs", "configurations"], "All semidefinite QPs and LPs with a certified unbounded ray or certified bounded optimum, presets with and without far bounds/regularisation.",
 "Unboundedness is reached through zero-curvature removal, bound flipping, far bounds and regularisation, whose combinations the fixed tests do not cover.",
 ["src/QProblem.cpp", "src/QProblemB.cpp"],
 [("zero-curvature tests on removal", "src/QProblem.cpp removeBound/removeConstraint"), ("far bounds growth until infinity", "src/QProblem.cpp hotstart"), ("regularisation", "src/QProblemB.cpp regulariseHessian")],
 [("unbounded", "flag reported by the query", "include/qpOASES/QProblemB.hpp")], ["isUnbounded", "getSimpleStatus"])

prop("P04", "Any sequence of hotstarts yields the optimum of each successive QP",
 "After a successful initialisation, every successful hotstart with new gradient and bounds returns a KKT point of the new problem, the same optimum a cold start finds, no matter what sequence of problems, working-set changes, bound kinds (inequality, equality, infinite, omitted) or guesses came before. Well-posed members of a sequence are always solved.",
 ["histories", "inputs", "configurations"], "All sequences of vectors g, lb, ub, lbA, ubA for fixed matrices, for bound-only and general problems, with every preset, including hotstarts with guessed working sets.",
 "The factorisations are carried across calls, so an error may only appear many updates later; tests replay a handful of recorded sequences.",
 ["src/QProblem.cpp", "src/QProblemB.cpp"],
 [("hotstart homotopy", "src/QProblem.cpp hotstart/solveRegularisedQP/solveQP"), ("activity/type updates on hotstart", "src/QProblem.cpp updateActivitiesForHotstart"), ("factor up/downdates", "src/QProblem.cpp addConstraint/removeConstraint/addBound/removeBound"), ("drift correction", "src/QProblem.cpp performDriftCorrection")],
 [("R,Q,T,bounds,constraints", "working set and its factors carried between calls", "include/qpOASES/QProblem.hpp")], ["getPrimalSolution", "getDualSolution", "hotstart return value"])

prop("P05", "Sequences with changing matrices yield the optimum of each successive QP",
 "For the problem class that allows the Hessian and constraint matrix to change between calls, every successful hotstart returns a KKT point of the problem with the new matrices, and well-posed members are solved. Mixing such calls with vector-only hotstarts gives the same guarantee, always with respect to the matrices passed last.",
 ["histories", "inputs", "configurations"], "All sequences of (H, g, A, lb, ub, lbA, ubA), dense or sparse, interleaved with vector-only hotstarts, all presets.",
 "One chain of recorded MPC problems and one tutorial example are tested; rebuild of factors for an inherited working set (possibly linearly dependent under the new matrix) depends on history.",
 ["src/SQProblem.cpp", "src/QProblem.cpp"],
 [("auxiliary QP for new matrices", "src/SQProblem.cpp setupNewAuxiliaryQP/setupAuxiliaryQP"), ("working set re-adding with LI handling", "src/QProblem.cpp setupAuxiliaryWorkingSet")],
 [("H,A", "current matrices and their ownership", "include/qpOASES/QProblemB.hpp")], ["getPrimalSolution", "getDualSolution"])

prop("P06", "Reported working set, multipliers, counts and status are mutually coherent",
 "After every successful solve each multiplier sign matches the reported working set (nonnegative at lower limits, nonpositive at upper limits, zero when inactive), entries reported active sit at that limit, the reported counts of free/fixed variables and active/inactive constraints match the working set, and the free/fixed and active/inactive index sets partition all indices. Status, initialised/solved/infeasible/unbounded queries and dimensions agree with the outcome of the last call.",
 ["histories", "inputs", "configurations"], "All solves in all sequences of calls on bound-only, general and matrix-varying problems.",
 "Tests look at x, y and the objective of few problems; coherence of the exported working set is a relation over the complete internal state after every history.",
 ["src/QProblem.cpp", "src/QProblemB.cpp", "src/Bounds.cpp", "src/Constraints.cpp", "src/SubjectTo.cpp", "src/Indexlist.cpp"],
 [("index list moves", "src/Bounds.cpp moveFixedToFree/moveFreeToFixed, src/Constraints.cpp moveActiveToInactive"), ("working set export", "src/QProblem.cpp getWorkingSet*")],
 [("bounds,constraints", "status per bound/constraint plus index lists", "include/qpOASES/Bounds.hpp")], ["getWorkingSet", "getBounds/getConstraints", "getNFR/getNFX/getNAC/getNIAC", "getStatus"])

prop("P07", "Iteration and time limits are honoured and an interrupted solve can be resumed",
 "A solve never performs more working-set recalculations than the given limit, reports how many it performed, and returns the limit-reached code rather than success when it had to stop early; a time budget that is too small likewise ends the solve early with the limit code. Afterwards the object is usable: calling hotstart again (with any limits and data) eventually reaches the same optimum, and its working set stays coherent in between.",
 ["inputs", "histories", "fault_sequences"], "All QPs and sequences, all iteration limits 0..needed (i.e. every possible interruption point), CPU limits, presets with and without far bounds/regularisation.",
 "Every interruption point of every homotopy is a different state; tests always allow enough iterations.",
 ["src/QProblem.cpp", "src/QProblemB.cpp", "src/SQProblem.cpp"],
 [("limit test in the homotopy loop", "src/QProblem.cpp solveQP, isCPUtimeLimitExceeded"), ("homotopy status kept for resumption", "src/QProblem.cpp solveQP (status)"), ("bookkeeping across far-bound and regularisation steps", "src/QProblem.cpp hotstart/solveRegularisedQP")],
 [("status", "homotopy phase", "include/qpOASES/QProblemB.hpp")], ["nWSR in/out", "return value", "later optimum"])

prop("P08", "Copies are independent and complete; reset and re-initialisation start afresh",
 "A copied or assigned problem object (at any point of its life) behaves on every later call exactly like the original would, and neither object nor its destruction influences the other. Resetting, or initialising again with a different problem of the same dimensions, leaves no trace of earlier problems: results equal those of a brand-new object.",
 ["histories"], "All call histories of the bound-only, general and matrix-varying classes with copy construction, assignment (also onto a used object and to itself), reset, destruction in any order.",
 "Tests copy a fresh or solved object once; a forgotten or shared member only matters for particular later calls.",
 ["src/QProblem.cpp", "src/QProblemB.cpp", "src/SQProblem.cpp", "src/Bounds.cpp", "src/Constraints.cpp", "src/SubjectTo.cpp", "src/Indexlist.cpp", "src/Flipper.cpp", "src/Options.cpp", "src/Matrices.cpp"],
 [("copy/clear/reset of every class", "src/QProblem.cpp copy/clear/reset and same in QProblemB/SQProblem/Bounds/...")],
 [("all members", "problem data, iterate, factors, options, flags", "include/qpOASES/QProblemB.hpp")], ["solutions and return values of later calls"])

prop("P09", "Solving is deterministic, isolated per object and leaves inputs untouched",
 "The same calls on a fresh object give bitwise the same results, whatever other objects did before or do interleaved or concurrently in other threads on their own data. Caller arrays passed as input vectors, matrices or options are never modified by a completed call, and results never depend on uninitialised memory.",
 ["schedules", "histories", "inputs"], "All call sequences; two or more objects interleaved arbitrarily or used in parallel threads.",
 "Single-threaded tests of single objects cannot exhibit shared mutable state, races or uninitialised reads.",
 ["src/QProblem.cpp", "src/QProblemB.cpp", "src/MessageHandling.cpp", "src/Utils.cpp", "src/Matrices.cpp"],
 [("per-object state", "include/qpOASES/QProblemB.hpp"), ("shallow matrix wrappers and in-place regularisation", "src/QProblemB.cpp setH, regulariseHessian"), ("global message handler", "src/MessageHandling.cpp")],
 [("globalMessageHandler", "process-wide message state", "src/MessageHandling.cpp")], ["bitwise equality of x,y,obj,nWSR", "ThreadSanitizer/MemorySanitizer"])

prop("P10", "No call history causes memory errors, undefined behaviour or leaks",
 "Any sequence of public solver calls with arguments meeting the documented preconditions (including failing solves, limits, changing options, guesses, copies, print levels) completes without out-of-bounds or stale accesses, reads of uninitialised data, undefined arithmetic conversions or crashes, and releases all memory once the objects are destroyed.",
 ["histories", "inputs", "configurations", "fault_sequences"], "All call histories of the three problem classes, dense and sparse data, degenerate, infeasible, unbounded and indefinite problems, all options.",
 "The valgrind runs replay about twenty fixed example programs.",
 ["src/"],
 [("manual memory management and index lists", "src/QProblem.cpp, src/Matrices.cpp, src/Indexlist.cpp"), ("working arrays sized by nV/nC", "src/QProblem.cpp")],
 [], ["AddressSanitizer", "UndefinedBehaviorSanitizer", "MemorySanitizer", "heap balance per case"])

prop("P11", "Rejected or failing calls are reported and leave the object usable",
 "Calls with invalid arguments, wrong dimensions, missing data, wrong order (hotstart before initialisation, limits already consumed) or inconsistent bounds return an error code instead of success, and never damage the object: the documented next step (a correct initialisation or hotstart) then yields the correct optimum.",
 ["fault_sequences", "histories", "inputs"], "All public calls with all kinds of invalid arguments at all points of a history.",
 "Error paths are tested for hardly any call, and what matters is the behaviour of later correct calls.",
 ["src/QProblem.cpp", "src/QProblemB.cpp", "src/SQProblem.cpp", "src/OQPinterface.cpp"],
 [("argument checks and THROWERROR paths", "src/QProblem.cpp init/hotstart/setupQPdata"), ("status handling on failure", "src/QProblem.cpp solveQP")],
 [("status,infeasible,unbounded", "flags surviving a failed call", "include/qpOASES/QProblemB.hpp")], ["return value", "later optimum"])

prop("P12", "All matrix classes implement the same linear algebra",
 "Dense, symmetric dense, column-sparse, row-sparse and symmetric sparse matrices built from the same data give the same results as plain arithmetic for every operation (element access, rows, columns, products with and without index sets, transposed products, bilinear forms, norms, duplicates, dense export, diagonal shift, identity/diagonal tests), touching only the documented parts of the outputs.",
 ["inputs"], "All dimensions including empty rows/columns and leading dimensions, all index sets, scale factors, strides, compression flags.",
 "The unit test covers one or two shapes and argument combinations per method; the methods branch on alpha, beta, number of right-hand sides, index sets, storage order.",
 ["src/Matrices.cpp", "include/qpOASES/Matrices.hpp", "src/BLASReplacement.cpp"],
 [("per-class kernels", "src/Matrices.cpp")], [], ["outputs of the matrix methods"])

prop("P13", "The representation of the problem data does not change the solution",
 "A problem passed as plain arrays, dense matrix objects, sparse matrix objects, files or with a user-supplied constraint-product routine has the same optimum, optimal value and status in every representation, in cold starts and along sequences of hotstarts.",
 ["inputs", "histories", "configurations"], "All QPs and hotstart sequences, all combinations of representation, all presets.",
 "Tests solve one problem in sparse form; sparse-specific code paths depend on the sparsity pattern and working set.",
 ["src/QProblem.cpp", "src/QProblemB.cpp", "src/Matrices.cpp", "include/qpOASES/ConstraintProduct.hpp"],
 [("matrix interface", "include/qpOASES/Matrices.hpp"), ("file based init", "src/QProblem.cpp setupQPdataFromFile"), ("constraint product hook", "src/QProblem.cpp setConstraintProduct")],
 [], ["x, y, objective, return value per representation"])

prop("P14", "Index sets behave as ordered sets under any history of updates",
 "The bookkeeping of bounds and constraints (set up, move between free/fixed or active/inactive, flip, shift, rotate, swap, copy) always represents exactly the abstract status map the operations describe: every index is in exactly one list, orders and inverse lookups are consistent, and invalid operations are rejected without changing anything. Saved working sets can be restored exactly.",
 ["histories", "inputs"], "All sequences of operations on index lists, bound sets, constraint sets and the flip store, all sizes.",
 "Unit tests perform a handful of operations; sortedness and inverse permutations depend on the history of insertions and removals.",
 ["src/Indexlist.cpp", "src/SubjectTo.cpp", "src/Bounds.cpp", "src/Constraints.cpp", "src/Flipper.cpp"],
 [("sorted insertion/removal", "src/Indexlist.cpp"), ("shift/rotate", "src/Bounds.cpp, src/Constraints.cpp"), ("snapshots", "src/Flipper.cpp")],
 [("number,iSort,length", "index list with sort permutation", "include/qpOASES/Indexlist.hpp")], ["getNumberArray/getISortArray/getIndex", "getStatus/getType"])

prop("P15", "Algorithmic options change effort, not answers; option sets stay consistent",
 "For well-posed strictly convex problems any consistent combination of algorithmic options leads to the same optimum, in cold and hot starts, also when options are changed between calls. The consistency repair of options makes every option set valid, is idempotent, never alters an already consistent set, and copies and presets carry every field.",
 ["configurations", "inputs", "histories"], "All combinations of option values (valid, random, out of range) and presets, with all well-posed problems and sequences.",
 "Tests use the presets with default tolerances.",
 ["src/Options.cpp", "src/QProblem.cpp", "src/QProblemB.cpp"],
 [("ensureConsistency and presets", "src/Options.cpp"), ("option-dependent branches", "src/QProblem.cpp")],
 [("options", "per-object option set", "include/qpOASES/Options.hpp")], ["optimum per option set", "getOptions"])

prop("P16", "Files are read back exactly as written, malformed ones are rejected",
 "Vectors, matrices and integer data written by the library and read back have the same values (up to the printed precision), problems initialised or hotstarted from files give the same result as from arrays, and exported binary data files contain exactly the problem data. Missing, truncated or malformed files are reported as errors without success and without memory errors.",
 ["inputs", "fault_sequences"], "All array sizes and values; all missing, truncated and corrupted files.",
 "Tests read well-formed benchmark files only.",
 ["src/Utils.cpp", "src/QProblem.cpp", "src/QProblemB.cpp", "src/SQProblem.cpp", "src/OQPinterface.cpp"],
 [("readFromFile/writeIntoFile", "src/Utils.cpp"), ("writeIntoMatFile", "src/Utils.cpp"), ("setupQPdataFromFile/loadQPvectorsFromFile", "src/QProblem.cpp, src/QProblemB.cpp")],
 [], ["file contents", "return values", "solutions"])

prop("P17", "The benchmark-collection interface solves and scores sequences correctly",
 "Reading a benchmark problem collection yields exactly the stored data; solving it (cold or hot, dense or sparse, bounds-only or general, MPC or default options) solves every member problem, and the reported worst stationarity, feasibility, complementarity errors, iteration and timing figures are those of the computed solutions. Broken or incomplete collections are reported as errors without success, leaks or memory errors.",
 ["inputs", "fault_sequences", "configurations"], "All small collections in the documented format, all flags, all missing/truncated files.",
 "The test collection is absent from this checkout, so these paths are barely executed by the tests.",
 ["src/OQPinterface.cpp", "include/qpOASES/extras/OQPinterface.hpp"],
 [("readOqpDimensions/readOqpData", "src/OQPinterface.cpp"), ("solveOqpBenchmark/runOqpBenchmark", "src/OQPinterface.cpp"), ("KKT violation measure", "src/Utils.cpp getKktViolation")],
 [], ["outputs of runOqpBenchmark/solveOqpBenchmark"])

prop("P18", "The C interface behaves like the C++ classes",
 "Every call sequence through the C interface (setup, init, hotstart, cleanup of the three kinds, option presets and option conversion) returns the same solution, multipliers, objective, iteration count and simple status as the corresponding C++ calls, with options taking effect field by field. Calls in the wrong order or with invalid dimensions return an error code and have no other effect, and repeated setup/cleanup leaks nothing.",
 ["histories", "inputs", "configurations"], "All interleavings of the C calls for the three problem kinds, all option values, all QPs.",
 "Only three fixed example programs exercise the wrapper.",
 ["interfaces/c/qpOASES_wrapper.cpp", "interfaces/c/qpOASES_wrapper.h"],
 [("global solver objects", "interfaces/c/qpOASES_wrapper.cpp"), ("option conversion", "interfaces/c/qpOASES_wrapper.cpp qpOASES_Options_init/qpOASES_Options_copy")],
 [("globalQProblemObject etc.", "one live object per kind", "interfaces/c/qpOASES_wrapper.cpp")], ["C call outputs vs C++ outputs"])

prop("P19", "The Octave/MATLAB interface solves what it is given and rejects bad calls",
 "Every problem passed through the scripting interface (dense or sparse matrices, empty arguments, option and auxiliary structures, several vector columns at once) returns per column the optimum, objective, exit flag, iterations, multipliers and working set of that problem; sequence handles always refer to their own problem until cleaned up. Wrong types, sizes, NaN/Inf data or stale handles raise an error and leave all other handles intact.",
 ["inputs", "histories", "configurations"], "All argument combinations and handle histories reachable from scripts.",
 "The Octave tests run a fixed list of calls; handle histories and sparse/empty argument combinations are unbounded.",
 ["interfaces/octave/qpOASES.cpp", "interfaces/octave/qpOASES_sequence.cpp", "interfaces/octave/qpOASES_octave_utils.cpp"],
 [("argument validation", "interfaces/octave/qpOASES_octave_utils.cpp smartDimensionCheck/containsNaNorInf"), ("handle registry", "interfaces/octave/qpOASES_octave_utils.cpp allocateQPInstance/getQPInstance/deleteQPInstance"), ("matrix conversion", "interfaces/octave/qpOASES_octave_utils.cpp setupHessianMatrix/setupConstraintMatrix")],
 [("g_instances", "live handles", "interfaces/octave/qpOASES_sequence.cpp")], ["outputs seen by the script"])

prop("P20", "Initial guesses influence the path, never the answer",
 "Whatever primal guess, dual guess or guessed working set (consistent or wrong, complete or partial, also combined) or correct precomputed Cholesky factor of the Hessian is supplied to an initialisation, a well-posed strictly convex problem is solved to the same optimum as without a guess; a correct complete guess needs no more iterations than none. Combinations the interface excludes (dual guess and working set without primal guess, Cholesky factor with other guesses) are rejected with an error and leave the object usable. Guessed working sets given to a hotstart have the same property.",
 ["inputs", "configurations"], "All guesses for all well-posed problems, all presets.",
 "Tests pass a few correct guesses for fixed problems.",
 ["src/QProblem.cpp", "src/QProblemB.cpp"],
 [("working set from guess", "src/QProblem.cpp obtainAuxiliaryWorkingSet"), ("auxiliary QP set-up", "src/QProblem.cpp setupAuxiliaryQPsolution/setupAuxiliaryWorkingSet/setupAuxiliaryQPgradient/setupAuxiliaryQPbounds")],
 [], ["optimum with and without guess", "iteration counts"])

prop("P21", "Semidefinite, linear and indefinite problems are solved to (local) optimality",
 "Linear programs and QPs with singular convex Hessians that have a bounded solution set are solved to a point satisfying the KKT conditions with the optimal objective value, in cold starts and sequences, whichever way the Hessian is (correctly) declared, provided far bounds are enabled or all variables have finite limits. For indefinite problems a reported success is a KKT point with nonnegative curvature on the null space of its working set.",
 ["inputs", "histories", "configurations"], "All bounded LPs, semidefinite and indefinite QPs, every Hessian type declaration compatible with the data, presets (regularised or far-bounded).",
 "Tests include few LPs; nullspace handling, regularisation and bound flipping depend on data.",
 ["src/QProblem.cpp", "src/QProblemB.cpp"],
 [("regularisation iterations", "src/QProblem.cpp solveRegularisedQP"), ("zero-curvature tests and flipping bounds", "src/QProblem.cpp removeBound/removeConstraint, src/Flipper.cpp"), ("hessian type detection", "src/QProblemB.cpp determineHessianType")],
 [("hessianType,regVal", "declared/detected type and regularisation", "include/qpOASES/QProblemB.hpp")], ["KKT residual", "objective vs certified optimum"])

prop("P22", "Solution analysis reports the true KKT violation and sensitivity",
 "The maximum KKT violation reported for a solved problem equals the violation computed directly from problem data and solution, is zero up to round-off exactly for optimal pairs, and reacts to every kind of violation (stationarity, feasibility, complementarity and, where no working set is supplied, multiplier sign). The variance-covariance analysis returns the covariance of the solution implied by the sensitivities at the final working set.",
 ["inputs", "histories"], "All solved problems of the three classes, all perturbed primal-dual pairs, all input covariance matrices.",
 "Tests evaluate these on one or two fixed solutions.",
 ["src/SolutionAnalysis.cpp", "src/Utils.cpp"],
 [("KKT residual", "src/SolutionAnalysis.cpp getKktViolation, src/Utils.cpp getKktViolation"), ("variance-covariance", "src/SolutionAnalysis.cpp getVarianceCovariance")],
 [], ["analysis outputs"])

prop("P23", "The Schur-complement sparse solver agrees with the dense one",
 "With a correct sparse linear solver plugged in, the Schur-complement variant returns the same optimum, status and coherent working set as the dense variant for cold starts and every sequence of hotstarts, for any allowed maximum number of Schur updates, and recovers from singular or wrong-inertia factorisations reported by the linear solver.",
 ["inputs", "histories", "configurations", "fault_sequences"], "All convex QPs and sequences, all limits on Schur updates, linear-solver failures at any call.",
 "The tests are built without a sparse linear solver, so this code is never run by them.",
 ["src/SQProblemSchur.cpp", "src/SparseSolver.cpp", "include/qpOASES/SQProblemSchur.hpp"],
 [("Schur update/downdate and inertia checks", "src/SQProblemSchur.cpp addToSchurComplement/deleteFromSchurComplement/updateSchurQR"), ("KKT factorisation reset", "src/SQProblemSchur.cpp resetSchurComplement/repairSingularWorkingSet"), ("triplet hand-over", "src/SparseSolver.cpp setMatrixData")],
 [("S,Q_,R_", "Schur complement and QR factors", "include/qpOASES/SQProblemSchur.hpp")], ["optimum vs dense solver"])

prop("P24", "Solving the current equality-constrained QP gives the fixed-working-set solution",
 "For any number of right-hand sides, solving the equality-constrained problem of the current working set returns primal-dual vectors that satisfy stationarity with the supplied gradients, meet the active limits at the supplied values and give zero multipliers for inactive ones, while the object's own state stays unchanged.",
 ["inputs", "histories"], "All solved problems (any working set reached by any history), all supplied vectors, one or several right-hand sides.",
 "One unit test with a single problem.",
 ["src/QProblem.cpp"],
 [("multi right-hand-side step computation", "src/QProblem.cpp solveCurrentEQP/determineStepDirection")], [], ["x_out, y_out"])

prop("P25", "Printing and messages never influence results and are well-formed",
 "Print levels, property printing, message visibility and output redirection never change return values or solutions; every return code maps to a text and to the documented simple status. Nothing is printed at level none, and message output is bounded and well-formed for all codes and texts, including very long ones.",
 ["configurations", "inputs"], "All print levels, option sets, outcomes and message texts; all return codes.",
 "Tests run with fixed print levels and do not look at the output.",
 ["src/MessageHandling.cpp", "src/QProblem.cpp", "src/QProblemB.cpp", "src/Utils.cpp", "src/Options.cpp"],
 [("throwMessage", "src/MessageHandling.cpp"), ("printIteration/printProperties", "src/QProblem.cpp, src/QProblemB.cpp"), ("getSimpleStatus", "src/Utils.cpp")],
 [("errorCount,visibility", "message handler state", "include/qpOASES/MessageHandling.hpp")], ["captured stdout", "return values"])

prop("P26", "Built-in linear algebra routines and numeric helpers are exact to round-off",
 "The bundled replacements for matrix-matrix products and Cholesky factorisation compute what the standard routines compute for every supported argument combination, touch only the documented memory and flag non-positive-definite input; bundled routines without an implementation report failure. The numeric helpers (norms, comparisons, min/max/sign/rounding, Givens rotations, back-substitution) satisfy their definitions for all finite inputs.",
 ["inputs"], "All dimensions, leading dimensions, scale factors, transposition flags, definite and indefinite matrices; all finite numbers.",
 "There are no direct tests for these routines.",
 ["src/BLASReplacement.cpp", "src/LAPACKReplacement.cpp", "src/Utils.cpp", "include/qpOASES/Utils.ipp", "include/qpOASES/QProblemB.ipp", "src/QProblemB.cpp"],
 [("gemm/potrf/trtrs", "src/BLASReplacement.cpp, src/LAPACKReplacement.cpp"), ("computeGivens/applyGivens", "include/qpOASES/QProblemB.ipp"), ("backsolveR", "src/QProblemB.cpp")],
 [], ["routine outputs"])

prop("P27", "Simulink blocks put out the optimum of each time step's own signals",
 "For the three S-functions: whatever the history of earlier time steps (infeasible ones included), in whatever memory layout the input signals arrive, and with any number of blocks in a model, each step's outputs are the first controls and optimal value of the QP given by that step's inputs with exit flag 0, or the exit flag names infeasibility or the exhausted iteration limit. Outputs are always finite, determined values; blocks whose parameters or signals do not fit together are refused at start; termination frees everything.",
 ["histories", "inputs", "configurations"], "All signal sequences and layouts, omitted limit vectors, all sizes, interleaved blocks.",
 "No test compiles or runs the Simulink blocks.",
 ["interfaces/simulink/qpOASES_QProblem.cpp", "interfaces/simulink/qpOASES_QProblemB.cpp", "interfaces/simulink/qpOASES_SQProblem.cpp", "interfaces/simulink/qpOASES_simulink_utils.cpp"],
 [("mdlStart", "size checks and allocation"), ("mdlOutputs", "signal copy, init/hotstart, fallback"), ("mdlTerminate", "release")],
 [("PWork", "solver object and data copies of a block", "interfaces/simulink")], ["uOpt, fval, exitflag, iter"])

prop("P28", "Scilab calls solve exactly the QP they are given and keep no scilab memory",
 "For every sequence of Scilab calls (qpOASES, _init/_initSB/_initVM, the hotstarts and clean-ups, interleaved over the three objects): results have the documented shapes and satisfy the optimality conditions of that call's QP (for hotstarts: with the matrices of the object's initialisation or of that call) with status 0, or the status names infeasibility or the exhausted iteration limit; wrongly shaped arguments and hotstarts without object are refused with an error and change nothing; no memory of an earlier call is used and all results are determined values.",
 ["histories", "inputs"], "All call sequences, shapes, omitted vectors, iteration limits.",
 "No test compiles or runs the Scilab interface.",
 ["interfaces/scilab/qpOASESinterface.c", "interfaces/scilab/qpOASESroutines.cpp"],
 [("gateway", "interfaces/scilab/qpOASESinterface.c"), ("sci_* routines", "interfaces/scilab/qpOASESroutines.cpp")],
 [("qp, qpb, sqp", "global objects and matrix copies", "interfaces/scilab/qpOASESroutines.cpp")], ["x, obj, status, nWSR, y"])

prop("P29", "Documented compile-time configurations keep the guarantees",
 "In every documented build configuration (integer widths, single precision, debug, silent, xPC target, own math functions, no snprintf, renamed linear algebra, three-multiplication Givens rotations) the library compiles, and all histories of initialisations, hotstarts, resets and copies keep the guarantees: optimal answers to the accuracy of the number type, correct verdicts on infeasible problems, step counts within limits, clean memory. Where a configuration does not change the arithmetic, every answer is bit for bit the same as in the standard configuration; silent configurations print nothing.",
 ["configurations", "histories", "inputs"], "All documented preprocessor configurations, all option presets and call histories.",
 "The test suite is built in a single configuration.",
 ["include/qpOASES/Types.hpp", "include/qpOASES/Constants.hpp", "include/qpOASES/Utils.ipp", "include/qpOASES/QProblemB.ipp", "src/BLASReplacement.cpp", "src/LAPACKReplacement.cpp", "src/Utils.cpp", "src/MessageHandling.cpp"],
 [("configuration switches", "include/qpOASES/Types.hpp"), ("tolerances per number type", "include/qpOASES/Constants.hpp, src/Options.cpp")], [], ["all outputs of the public calls", "captured output"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as fh:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            fh.write(json.dumps(p) + "\n")
    print(len(P), "properties")
