"""Which monitored workloads decide which property, and how the evidence is to be read."""
import os
INTDEFS = ["-DLINUX", "-D__NO_COPYRIGHT__"]
DEFS = INTDEFS + ["-D__USE_LONG_INTEGERS__", "-D__USE_LONG_FINTS__"]
PROPS = {}
NOT_BUILT = {}
SAN = "runtime monitoring under ASan+UBSan"

PROPS["P01"] = dict(
    parts=[dict(src="p01_optimal.cpp", variant="asan", cases=(100000, 2000000), shards=32)],
    technique=SAN + ": generated QPs (constructed optimum / feasible / degenerate / integer classes, 7 option presets), independent long-double KKT oracle on every reported success",
    note="exploration: every solve of the run is judged by an oracle that shares no code with the solver; classes with a known unique optimum must be solved",
    rule="distinct = distinct problem data (hash of H,g,A and limits); non-trivial when at least one problem of that data was passed to the solver and judged",
    require={"solved": 5000, "nontrivial_solves": 4000, "compared_with_known": 1000},
)
PROPS["P04"] = dict(
    parts=[dict(src="p04_hotstart.cpp", variant="asan", cases=(12000, 200000), shards=32)],
    technique=SAN + ": random histories of hotstarts judged step by step by the long-double KKT oracle and by cold-start comparison",
    note="exploration: histories of 5-25 (thorough 5-60) hotstarts over equality/infinite/omitted limits, guesses and 7 presets",
    rule="distinct = distinct histories (hash over all problem data of the sequence) in which the working set changed at least once",
    require={"hotstarts_ok": 20000, "iterations": 50000, "guessed_hotstarts": 500, "cold_compared": 1000},
)
PROPS["P02"] = dict(
    parts=[dict(src="p02_infeasible.cpp", variant="asan", cases=(50000, 400000), shards=32)],
    technique=SAN + ": generated infeasible families (crossed limits, row against box, Farkas combinations, inconsistent dependent equalities) with certified margin, feasible counterparts and recovery on the same object",
    note="exploration: outcome code, simple status and infeasibility query judged on every call; the certificate comes from the construction",
    rule="distinct = distinct problem data (hash) of infeasible or feasible problems whose verdict was judged",
    limit={"inf_numeric_failures": ("flagged_infeasible", 0.001)},
    require={"flagged_infeasible": 3000, "recovered": 1500},
)
PROPS["P03"] = dict(
    parts=[dict(src="p03_unbounded.cpp", variant="asan", cases=(60000, 400000), shards=32)],
    technique=SAN + ": generated LPs and semidefinite QPs with a certified descent ray, and ray-free counterparts; verdict monitor on codes and queries, KKT oracle on successes",
    note="exploration: unbounded families run with the option presets that detect unboundedness (far bounds enabled, default regularisation)",
    rule="distinct = distinct problem data (hash) whose verdict was judged",
    limit={"unb_numeric_failures": ("flagged_unbounded", 0.001)},
    require={"flagged_unbounded": 3000, "bounded_ok": 5000},
)
PROPS["P12"] = dict(
    parts=[dict(src="p12_matrices.cpp", variant="asan", cases=(100000, 2000000), shards=32)],
    technique=SAN + ": every operation of the five matrix classes on generated data against naive long-double arithmetic, NaN-filled input gaps and sentinel-filled output gaps in exact-size buffers",
    note="exploration: sizes 0-20, any density, index lists in any order, leading dimensions, scalar factors, explicit zeros, duplicates and shifts",
    rule="distinct = distinct (class, matrix data) on which all operations of the class were compared",
    require={"products": 150000, "indexed_products": 150000, "bilinear_forms": 15000, "submatrices": 30000},
)
PROPS["P14"] = dict(
    parts=[dict(src="p14_indexsets.cpp", variant="asan", cases=(24000, 400000), shards=32)],
    technique=SAN + ": random operation histories on index lists, bounds, constraints and saved working sets against an abstract status map and ordered lists, full state comparison after every operation",
    note="exploration: sizes 0-12, valid and invalid operations mixed, copies, shifts, rotations, re-initialisation",
    rule="distinct = distinct operation histories (hash over operations and arguments)",
    require={"operations": 300000, "list_states_checked": 500000, "saved_sets": 3000},
)
PROPS["P26"] = dict(
    parts=[dict(src="p26_helpers.cpp", variant="asan", cases=(200000, 4000000), shards=32)],
    technique=SAN + ": bundled dgemm/sgemm/dpotrf/spotrf and numeric helpers against long-double definitions with NaN in unreferenced inputs and sentinels in untouchable outputs",
    note="exploration: all supported argument combinations (transposition, scalars, leading dimensions, empty sizes), definite and indefinite input",
    rule="distinct = distinct generator states, one operation batch each; all are non-trivial evaluations of a routine on fresh data",
    require={"gemm_calls": 30000, "potrf_indefinite": 10000, "givens": 100000, "backsolves": 10000},
)
PROPS["P06"] = dict(
    parts=[dict(src="p06_coherence.cpp", variant="asan", cases=(60000, 1000000), shards=32)],
    technique=SAN + ": random solve/hotstart/interrupt/fail histories; after every call a monitor compares status, counters, working set, index lists, multipliers, active limits and objective with each other and with the problem data",
    note="exploration: three problem classes, seven option presets, eight problem families, up to 12 (thorough 25) calls per object",
    rule="distinct = distinct call histories (hash over problem data of all steps) with at least one working-set change",
    require={"coherence_checked": 200000, "failure_coherence_checked": 50000, "resumed": 10000},
)
PROPS["P05"] = dict(
    parts=[dict(src="p05_matrices_change.cpp", variant="asan", cases=(12000, 250000), shards=32)],
    technique=SAN + ": random histories that change Hessian and constraint matrix (drifting, fresh, other structure) between hotstarts, judged step by step by the long-double KKT oracle for the matrices passed last and by cold-start comparison",
    note="exploration: histories of 4-18 (thorough 4-40) calls mixing matrix and vector hotstarts, guesses, CPU-time arguments and 7 presets",
    rule="distinct = distinct histories (hash over all problem data of the sequence) in which the working set changed at least once",
    limit={"unsolved": ("changed", 0.01)},
    require={"changed": 50000, "vectors": 15000, "changed_guess": 4000, "cold_compared": 10000},
)
PROPS["P07"] = dict(
    parts=[dict(src="p07_limits.cpp", variant="asan", cases=(15000, 200000), shards=32)],
    technique=SAN + ": every working-set limit 0..N+2 of a solve needing N changes, time limits on an injected clock (gettimeofday stand-in that ticks per reading), resumption with random limits and data; monitors on counts, codes, reported time, working-set structure and final KKT",
    note="exploration: quick tries up to 9 limits per problem, thorough every limit; interrupted solves resumed by vector or matrix hotstarts, with unchanged or changed data; 7 presets",
    rule="distinct = distinct (problem data, preset) whose unlimited solve needs at least one working-set change",
    limit={"resumed_unsolved": ("resumed_solved", 0.005), "reference_unsolved": ("limits_tried", 0.002)},
    require={"interrupted": 20000, "resumed_solved": 20000, "timed_out": 4000, "hot_timed_out": 4000, "interrupted_hotstarts": 10000},
)
PROPS["P08"] = dict(
    parts=[dict(src="p08_copies.cpp", variant="asan", cases=(30000, 500000), shards=32)],
    technique=SAN + ": random call histories replayed on a shadow object, an original and its copy / assigned copy / copy of a copy, bitwise comparison of every observable after each call, with diverging calls and destruction on either side; histories on one object followed by reset or re-initialisation compared bitwise with a brand-new object",
    note="exploration: 4-16 (thorough 4-40) calls per history, three classes, seven presets, limits, guesses, option changes, assignment over used objects of other dimensions",
    rule="distinct = distinct call histories (hash over operations and problem data) with at least one working-set change",
    require={"copies": 10000, "comparisons": 200000, "resets": 7000, "diverging_operations": 10000, "assigned_other_dimensions": 3000},
)
PROPS["P11"] = dict(
    parts=[dict(src="p11_invalid.cpp", variant="asan", cases=(40000, 600000), shards=32)],
    technique=SAN + ": 36 kinds of invalid, incomplete, misordered or failing calls (arrays, matrix objects and files) injected into correct call sequences on objects in every state; monitor on the returned code, on the claimed state and on the outcome of the documented next step (KKT oracle)",
    note="exploration: 1-3 rejected calls before each of 2-8 (thorough 2-20) correct steps; three classes, seven presets; documented codes compared where the interface documents one",
    rule="distinct = distinct histories (hash over the kinds of rejected calls, object states and initial problem) with at least one rejected call",
    require={"rejected": 100000, "recovered_by_init": 30000, "recovered_by_hotstart": 30000, "recovered_by_matrix_hotstart": 4000, "file_overload": 5000, "object_overload": 15000, "empty_objects": 500},
)
PROPS["P24"] = dict(
    parts=[dict(src="p24_eqp.cpp", variant="asan", cases=(40000, 600000), shards=32)],
    technique=SAN + ": random working sets reached by solves, interrupted solves and (matrix) hotstarts; every right-hand side judged by a long-double oracle (stationarity, active limits, zero multipliers), object state compared bitwise before/after and the next hotstart with that of a copy that never ran the query",
    note="exploration: 1-5 right-hand sides, seven presets, six problem families",
    rule="distinct = distinct initial problem data for which at least one right-hand side was judged",
    require={"rhs_checked": 100000, "active_checked": 400000, "aftermath_compared": 40000},
)
def _schur(src, variant, cases, solver=True):
    """A workload of another property with every QP object replaced by the Schur complement variant."""
    return dict(src=src, variant=variant, cases=cases, shards=16, schur=solver, extra=("-DVF_SCHUR",))
PROPS["P23"] = dict(
    parts=[dict(src="p23_schur.cpp", variant="asan", cases=(10000, 500000), shards=32, schur=True),
           dict(src="p23_schur.cpp", variant="asan", cases=(2500, 100000), shards=16, schur="MA27"),
           dict(src="p23_schur.cpp", variant="msan", cases=(1500, 100000), shards=16, schur=True),
           _schur("p01_optimal.cpp", "asan", (2400, 100000)),
           _schur("p04_hotstart.cpp", "asan", (1600, 60000)),
           _schur("p05_matrices_change.cpp", "asan", (1600, 60000)),
           _schur("p08_copies.cpp", "asan", (1600, 60000)),
           _schur("p10_memory.cpp", "asan", (4000, 200000)),
           _schur("p10_memory.cpp", "msan", (1600, 60000)),
           _schur("p20_guesses.cpp", "asan", (1600, 60000)),
           _schur("p21_nonstrict.cpp", "asan", (8000, 300000)),
           _schur("p24_eqp.cpp", "asan", (1600, 60000))],
    technique=SAN + " and MemorySanitizer: the real Schur complement code linked against stand-in MA57/MA27 routines (dense LDL^T with exact inertia, zero-pivot reports, injected failures of analysis, factorisation and solve, unsorted pivot lists); random histories judged by the KKT oracle and against the dense class fed the same calls, and the workloads of other properties replayed with the Schur class",
    note="exploration: limits on Schur updates 1..n, sparse and dense matrix classes, copies at any time, dependent constraints, infeasible and unbounded members, faults at any call, seven presets",
    rule="distinct = distinct histories (hash over all problem data) with at least one solved member compared with the dense class, or a working-set change in the replayed workloads",
    limit={"unsolved": ("dense_compared", 0.02), "only_dense_solved": ("dense_compared", 0.01), "schur_inexact": ("indef_solved", 0.0002), "indef_unsolved": ("indef_solved", 0.01)},
    require={"dense_compared": 30000, "refactorisations": 100000, "lin_singular": 300, "lin_failed": 100, "flagged_infeasible": 100, "flagged_unbounded": 100, "copies": 5000, "recovered": 100, "reinit": 3000, "made_dependent": 500, "printing": 500, "curvatures_nontrivial": 5000},
)
PROPS["P25"] = dict(
    parts=[dict(src="p25_messages.cpp", variant="asan", cases=(40000, 600000), shards=32)],
    technique=SAN + ": every return code times visibility, error depth and additional texts of 0-5000 bytes (with % directives) into a memory sink, judged against the documented layout and bound; iteration tables parsed (numbering, step lengths, residuals of every iterate recomputed, working-set changes replayed against the final working set); twin objects fed identical calls, one at level none (must be silent), one at random levels with printing calls and redirection in between, compared bitwise",
    note="exploration: all codes, six print levels, property/option printing, handler copies, missing output file; standard output watched for bytes past the redirection",
    rule="distinct = distinct message sequences (hash over codes and kinds) or twin histories with at least one working-set change",
    require={"messages_printed": 100000, "silent_calls": 100000, "printing_calls": 60000, "summaries_checked": 8000, "simple_status": 100000, "tables_checked": 20000, "table_rows": 200000, "table_changes": 8000, "tables_replayed": 5000},
)
PROPS["P22"] = dict(
    parts=[dict(src="p22_analysis.cpp", variant="asan", cases=(80000, 1200000), shards=32)],
    technique=SAN + ": KKT figures of the analysis class and the free functions against long-double definitions on random, optimal and deliberately perturbed pairs; covariance matrices against S C S^T with S from an independent long-double KKT solve at the reported working set",
    note="exploration: cold and hot solves of three classes, seven presets, definite/semidefinite/linear/identity objectives, omitted limits, working sets supplied or not; the analysed object compared before/after",
    rule="distinct = distinct initial problem data (hash) for which an analysis was compared",
    require={"analyses": 100000, "covariances": 80000, "violations_compared": 20000, "reactions": 3000, "uninitialised": 8000},
)
PROPS["P15"] = dict(
    parts=[dict(src="p15_options.cpp", variant="asan", cases=(40000, 600000), shards=32)],
    technique=SAN + ": random consistent option combinations (30 fields) on well-posed problems in cold solves and hotstart sequences with option changes in between, judged by the KKT oracle and against a reference object with reliable options; arbitrary option sets repaired, copied, assigned, preset and passed through objects, field by field against the documented ranges",
    note="exploration: five problem families, three classes, 6 (thorough 13) problems per sequence; option values inside the ranges the accuracy of the answer does not depend on",
    rule="distinct = distinct (problem data, option combination) with at least one working-set change, or distinct batches of option sets",
    limit={"unsolved": ("solved", 0.001), "reference_unsolved": ("solved", 0.001)},
    require={"cold_solves": 20000, "hot_solves": 80000, "compared": 100000, "option_changes": 30000, "repaired": 30000, "already_consistent": 8000},
)
PROPS["P20"] = dict(
    parts=[dict(src="p20_guesses.cpp", variant="asan", cases=(16000, 300000), shards=32)],
    technique=SAN + ": guesses (exact, perturbed, wrong, partial, random; primal, dual, working set, Cholesky factor, combined) for initialisations and guessed working sets for hotstarts; every answer judged by the KKT oracle and against the solution without guess; iteration counts of exact guesses monitored",
    note="exploration: five strictly convex problem families, three classes, seven presets, 10 guesses per problem",
    rule="distinct = distinct (problem data, preset) for which at least one guessed solve changed the working set",
    limit={"unsolved": ("solved", 0.002), "reference_unsolved": ("solved", 0.002)},
    require={"guessed_inits": 80000, "hot_solved": 20000, "exact_guesses": 6000, "factors": 3000, "excluded_combinations": 3000, "compared": 80000},
)
PROPS["P21"] = dict(
    parts=[dict(src="p21_nonstrict.cpp", variant="asan", cases=(40000, 600000), shards=32)],
    technique=SAN + ": LPs, singular convex and indefinite QPs with constructed unique optima, degenerate faces or finite boxes, cold and in hotstart sequences; judged by a long-double KKT oracle, the certified optimal objective and the smallest eigenvalue of the reduced Hessian at the reported working set",
    note="exploration: ten families, every compatible type declaration, three classes, seven presets; problems with infinite limits under disabled far bounds are statistically limited only",
    rule="distinct = distinct problem sequences (hash) with at least one working-set change",
    limit={"unsolved": ("solved", 0.001), "matrix_unsolved": ("matrix_hotstarts", 0.03), "open_failures": ("open_solved", 0.04), "open_inexact": ("open_solved", 0.002), "indef_unsolved": ("indef_solved", 0.08), "lp_loose_wrong": ("kkt_checked", 0.00005), "honest_wrong_bounds": ("honest_solved", 0.0005), "honest_wrong_constraints": ("honest_solved", 0.0003)},
    require={"honest_solved": 10000, "honest_hot": 7000, "hot_solved": 100000, "solved": 60000, "optima_compared": 40000, "curvatures": 30000, "curvatures_nontrivial": 8000, "matrix_hotstarts": 5000},
)
PROPS["P10"] = dict(
    parts=[dict(src="p10_memory.cpp", variant="asan", cases=(60000, 1200000), shards=32),
           dict(src="p10_memory.cpp", variant="msan", cases=(30000, 600000), shards=32)],
    technique=SAN + " and MemorySanitizer (whole library instrumented): random histories over up to four live objects; every result handed out is checked to be fully initialised, and the heap must be balanced when a history ends",
    note="exploration: 5-30 (thorough 5-60) operations per history on up to four objects of three classes: initialisations and hotstarts from arrays, all matrix classes and constraint products, with guesses, factors, iteration and time limits, option sets, queries, copies, assignments, resets, destruction, on feasible, infeasible, indefinite, badly scaled, rank-deficient data",
    rule="distinct = distinct histories (hash over operations and problem data) with at least one working-set change",
    require={"operations": 1000000, "outputs_checked": 150000, "copies": 8000, "assignments": 10000, "object_inits": 10000, "matrix_hotstarts": 10000, "guessed_inits": 10000, "leak_checked_cases": 10000, "eqps": 500, "covariances": 1000},
)
PROPS["P09"] = dict(
    parts=[dict(src="p09_isolation.cpp", variant="plain", cases=(10000, 300000), shards=32),
           dict(src="p09_isolation.cpp", variant="asan", cases=(6000, 120000), shards=32),
           dict(src="p09_isolation.cpp", variant="msan", cases=(4000, 80000), shards=32),
           dict(src="p09_isolation.cpp", variant="tsan", cases=(2000, 60000), shards=16)],
    technique="runtime monitoring: bitwise comparison of every output of a call script with its undisturbed execution, when interleaved with other objects (perturbed heap and stack contents, printing enabled on others) and when run in parallel threads; ThreadSanitizer, MemorySanitizer, " + SAN + "; input arrays in write-protected pages, matrix objects, guesses and options hashed around every call",
    note="exploration: 2-6 objects per case, 3-12 (thorough 24) calls each; random call interleavings, real threads with random yields; thread schedules are sampled, not enumerated",
    rule="distinct = distinct (call scripts, interleaving) with at least one working-set change",
    require={"comparisons": 300000, "switches": 100000, "threads": 20000, "shared_input_threads": 500, "inputs_checked": 500000},
)
PROPS["P13"] = dict(
    parts=[dict(src="p13_reps.cpp", variant="asan", cases=(20000, 500000), shards=32)],
    technique=SAN + ": differential monitoring of up to seven live objects fed the same problem sequence in different representations (arrays; dense, padded, sparse-column, sparse-row and symmetric sparse matrix objects; files; user constraint product; undeclared Hessian type; a mixture changing per call), each answer also judged by the long-double KKT oracle",
    note="exploration: n<=14, m<=16, ten problem classes incl. semidefinite, LP, infeasible and unbounded ones, three classes, vector and matrix hotstarts, objects replaced by copies in mid-sequence, constraint products that fail at a chosen evaluation",
    rule="distinct = distinct (problem sequence, preset, class) with at least one working-set change",
    limit={"unsolved": ("solved", 0.0005), "unsolved_degenerate": ("solved_degenerate", 0.01), "status_differs_degenerate": ("solved_degenerate", 0.01)},
    require={"compared": 150000, "file_calls": 30000, "products": 20000, "product_evaluations": 1000000, "product_failures": 500, "implicit_types": 2000, "replaced_by_copy": 20000, "H:sparse": 3000, "H:sparse-arrays": 3000, "H:dense": 3000, "H:dense-padded": 3000, "A:dense": 3000, "A:sparse": 3000, "A:sparse-arrays": 3000, "A:sparse-row": 3000, "A:sparse-row-arrays": 3000},
)
PROPS["P16"] = dict(
    parts=[dict(src="p16_files.cpp", variant="asan", cases=(24000, 800000), shards=32),
           dict(src="p16_files.cpp", variant="msan", cases=(6000, 250000), shards=32)],
    technique=SAN + " and MemorySanitizer: bitwise comparison of written and read data, of QPs solved from files and from arrays by twin objects (the twin never sees the broken calls), an independent reader for exported MAT level 4 files, a reference tokenizer for mutated text files, and files broken in six ways",
    note="exploration: arrays up to 40x30 incl. denormal, huge, infinite and signed-zero values; QPs n<=7, m<=8 of three classes in sequences of cold starts, vector and matrix hotstarts with 35% broken calls",
    rule="distinct = distinct arrays or QP call sequences (hash) that were written, read and compared",
    limit={"unsolved": ("solved", 0.001), "unsolved_degenerate": ("solved_degenerate", 0.02)},
    require={"roundtrips": 5000, "int_roundtrips": 5000, "compared": 50000, "broken_calls": 20000, "exports": 15000, "factor_files": 1500, "mutated": 3000, "broken:missing": 3000, "broken:truncated": 3000, "broken:garbage": 3000, "broken:directory": 3000, "broken:empty": 3000},
)
PROPS["P17"] = dict(
    parts=[dict(src="p17_oqp.cpp", variant="asan", cases=(16000, 600000), shards=32),
           dict(src="p17_oqp.cpp", variant="msan", cases=(6000, 200000), shards=32)],
    technique=SAN + " and MemorySanitizer: generated benchmark collections; data read compared bitwise, every figure compared with a second run of the same sequence driven call by call and scored by a long-double KKT measure; collections broken in every file in seven ways, members that are infeasible or interrupted",
    note="exploration: 1-6 members, n<=7, m<=8, dense/sparse, hot/cold, three presets, all overloads (from files and from memory), iteration limits 0..6 and generous",
    rule="distinct = distinct (collection, dense/sparse, hot/cold) that were solved and compared",
    limit={"unsolved": ("fully_solved", 0.001), "unsolved_degenerate": ("fully_solved", 0.01)},
    require={"compared": 15000, "fully_solved": 12000, "members_interrupted": 5000, "broken_reads": 4000, "values_compared": 1000000, "unsolvable": 3000, "empty_constraints": 1500},
)
_MX = ["p19_mock.cpp", "p19_octave_qp.cpp", "p19_octave_seq.cpp", "p19_matlab_qp.cpp", "p19_matlab_seq.cpp"]
PROPS["P19"] = dict(
    parts=[dict(src="p19_octave.cpp", variant="asan", cases=(6000, 300000), shards=32, more=_MX),
           dict(src="p19_octave.cpp", variant="msan", cases=(1500, 60000), shards=32, more=_MX),
           dict(src="p19_octave.cpp", variant="asan", cases=(2000, 60000), shards=32, more=_MX, defs=INTDEFS),
           dict(src="p19_opts.cpp", variant="asan", cases=(160, 4000), shards=32)],
    technique=SAN + " and MemorySanitizer: the real MEX sources (Octave and MATLAB) linked against a stand-in engine, random histories of all calls; every column compared with a C++ twin (bitwise for dense data) and the KKT oracle, invalid calls must raise an error and leave every handle as it was; option and auxiliary-input scripts run by Octave and compared with the C++ presets",
    note="exploration: qpOASES and qpOASES_sequence ('i','h','m','e','c'), 1-4 columns, dense and sparse matrices with slack and NaN in unused entries, omitted arguments, all option fields, wrong shapes/classes/NaN/handles; builds with long and plain integers",
    rule="distinct = distinct call histories with at least one solved column, or distinct sets of script calls",
    limit={"status_differs_sparse": ("columns_solved", 0.005)},
    require={"qp_calls": 8000, "init_calls": 4000, "hot_calls": 8000, "modify_calls": 4000, "eqp_calls": 2000, "bad_calls": 8000, "columns_solved": 15000, "columns_bitwise": 10000, "kkt_checked": 15000, "sparse_matrices": 5000, "octave_sessions": 100, "fields_compared": 50000},
)
_CW = ["p18_c.c", "p18_wrap.cpp"]
PROPS["P18"] = dict(
    parts=[dict(src="p18_cwrap.cpp", variant="asan", cases=(12000, 500000), shards=32, more=_CW),
           dict(src="p18_cwrap.cpp", variant="msan", cases=(4000, 150000), shards=32, more=_CW),
           dict(src="p18_cwrap.cpp", variant="asan", cases=(4000, 150000), shards=32, more=_CW, defs=INTDEFS)],
    technique=SAN + " and MemorySanitizer: random interleavings of all C calls made from a plain C translation unit, each followed by the corresponding C++ call on a shadow object, all outputs compared bit by bit; option structures start poisoned and are compared field by field with the C++ presets and with the converted C++ object",
    note="exploration: 6-30 calls per history over the three kinds, n<=7, m<=8, random option values (valid and not), omitted arguments, limits 0..4 and 400, infeasible problems, calls before setup/after cleanup; builds with long and with plain integers",
    rule="distinct = distinct call histories with at least one solved problem, or distinct sets of option values",
    require={"calls_compared": 80000, "calls_with_switches": 30000, "converted_fields": 500000, "preset_fields": 100000, "bad_presets": 5000, "dead_calls": 10000, "bad_setups": 5000, "hot_before_init": 5000, "hotstarts": 30000},
)
_SIM = ["p19_mock.cpp", "p27_QProblem.cpp", "p27_QProblemB.cpp", "p27_SQProblem.cpp"]
PROPS["P27"] = dict(
    parts=[dict(src="p27_simulink.cpp", variant="asan", cases=(2400, 120000), shards=32, more=_SIM),
           dict(src="p27_simulink.cpp", variant="msan", cases=(800, 40000), shards=32, more=_SIM)],
    technique=SAN + " and MemorySanitizer: the real S-functions linked against a stand-in for Simulink's block API (one pointer per signal element), random block histories; every step's outputs compared with an independently solved and KKT-checked reference",
    note="exploration: 1-3 interleaved blocks of the three kinds, 2-14 (90-120 for the iteration limit) variables, contiguous/scattered/permuted signals renewed each step, omitted vectors, infeasible steps, parameters and signals of wrong size",
    rule="distinct = distinct block histories (all problem data)",
    require={"optimal_steps": 20000, "hot_steps": 15000, "recovered_steps": 1500, "infeasible_reported": 2000, "limit_steps": 40, "matrix_changes": 2000, "scattered_ports": 30000, "permuted_ports": 30000, "misfit_blocks": 2000, "fitting_blocks": 300},
)
_SCI = ["p28_iface.c", "p28_routines.cpp"]
PROPS["P28"] = dict(
    parts=[dict(src="p28_scilab.cpp", variant="asan", cases=(16000, 600000), shards=32, more=_SCI, defs=INTDEFS),
           dict(src="p28_scilab.cpp", variant="msan", cases=(4000, 150000), shards=32, more=_SCI, defs=INTDEFS)],
    technique=SAN + " and MemorySanitizer: the real Scilab gateway and routines linked against a stand-in for Scilab's stack (every variable an exact block that dies with its call), random scripts; every result judged by KKT residuals in long double, shape and status",
    note="exploration: 6-60 calls over the ten functions with interleaved objects, omitted vectors, row and column gradients, iteration limits, infeasible data, wrong shapes and argument counts, calls before initialisation and after clean-up",
    rule="distinct = distinct scripts with at least one solved problem",
    require={"optimal_results": 80000, "results_with_iterations": 60000, "init_calls": 50000, "hotstart_calls": 60000, "matrix_changes": 10000, "misfit_calls": 15000, "premature_hotstarts": 8000, "infeasible_results": 8000, "limit_results": 8000},
)

_L, _LL = ["-DLINUX", "-D__NO_COPYRIGHT__"], DEFS
CONFIGS = [  # name, defines, same arithmetic as the standard configuration
    ("base", _LL, True), ("int32", _L, True), ("lint", _L + ["-D__USE_LONG_INTEGERS__"], True), ("lfint", _L + ["-D__USE_LONG_FINTS__"], True),
    ("debug", _LL + ["-D__DEBUG__"], True), ("quiet", _LL + ["-D__SUPPRESSANYOUTPUT__"], True), ("xpc", _LL + ["-D__XPCTARGET__"], True),
    ("nofmath", _LL + ["-D__NO_FMATH__"], True), ("nosnp", _LL + ["-D__NO_SNPRINTF__"], True), ("avoid", _LL + ["-D__AVOID_LA_NAMING_CONFLICTS__"], True),
    ("three", _LL + ["-D__USE_THREE_MULTS_GIVENS__"], False), ("single", _LL + ["-D__USE_SINGLE_PRECISION__"], False),
    ("single32q", _L + ["-D__USE_SINGLE_PRECISION__", "-D__SUPPRESSANYOUTPUT__"], False)]


def compare_configs(res, seed, thorough, tmpdir):
    """Every answer of a case (solutions, codes, counts, states) must be bit for bit the same in all configurations with the same arithmetic."""
    tr = {}
    for f in sorted(os.listdir(tmpdir)):
        if f.startswith("trace-"):
            t = tr.setdefault(f.split("-")[1], {})
            for line in open(os.path.join(tmpdir, f)):
                w = line.split()
                if len(w) != 2:
                    continue
                if t.setdefault(int(w[0]), w[1]) != w[1]:
                    res.viol.append(("config-%s-not-repeatable" % f.split("-")[1], int(w[0]), "two runs of the case differ", ["(driver of configuration %s)" % f.split("-")[1]], "", f))
    base = tr.get("base", {})
    for name, _, exact in CONFIGS[1:]:
        t = tr.get(name, {})
        common = [i for i in t if i in base]
        res.stats["traces:" + name] = len(common)
        if exact:
            for i in sorted(common):
                if t[i] != base[i]:
                    res.viol.append(("config-%s-differs" % name, i, "answers in configuration %s (hash %s) differ from those of the standard configuration (%s)" % (name, t[i], base[i]), ["(driver of configuration %s)" % name], "", "configs"))
            res.stats["traces_compared_bitwise"] = res.stats.get("traces_compared_bitwise", 0) + len(common)


PROPS["P29"] = dict(
    parts=[dict(src="p29_configs.cpp", variant="asan", cases=(12000, 200000) if n in ("base", "single", "single32q", "three") else (6000, 120000), shards=16, defs=d, extra=['-DVF_CFG="%s"' % n], label="p29-" + n) for n, d, _ in CONFIGS],
    custom=compare_configs,
    technique=SAN + ": the library is built in 13 documented compile-time configurations; the same random histories run in each, answers are judged by the long-double KKT oracle and compared bitwise across all configurations with the same arithmetic",
    note="exploration: integer widths (4), single precision (2), debug, silent, xPC target, own math functions, no snprintf, renamed linear algebra, three-multiplication Givens rotations; three classes, cold starts, vector and matrix hotstarts, copies, resets, infeasible problems, iteration limits, printing",
    rule="distinct = distinct problem data (hash) of histories",
    limit={"unsolved": ("solved", 0.001), "single_unsolved": ("single_solved", 0.004), "single_inexact_mpc": ("single_solved", 0.025), "single_off_optimum": ("single_compared", 0.02), "single_wrong": ("single_solved", 0.002), "single_unflagged": ("single_flagged", 0.05)},
    require=dict([("cases:" + n, 5000) for n, _, _ in CONFIGS] + [("traces_compared_bitwise", 50000), ("solved", 50000), ("single_solved", 10000), ("flagged_infeasible", 5000), ("copies", 2000), ("matrix_hotstarts", 5000), ("interrupted", 2000), ("printed_something", 1000)]),
)
