# The single source of properties.jsonl and MANIFEST.json (python3 /verif/gen.py writes both) and of how run.py runs each check.
PROPS = {}

def P(id, title, statement, over, quant, why, files, mech, state=(), observe=(), level="model_checking",
      technique="", note="", harness=(), rule="", assumptions=(), shards=8, na=None, extra_src=()):
    PROPS[id] = dict(id=id, title=title, statement=statement, over=list(over), quant=quant, why=why, files=list(files),
                     mech=list(mech), state=list(state), observe=list(observe), level=level, technique=technique,
                     note=note, harness=list(harness), rule=rule, assumptions=list(assumptions), shards=shards, na=na,
                     extra_src=list(extra_src))

TODO = "check under construction (model checking applies; the harness is not in place yet)"

P("S01", "A solve that reports success returns a KKT point of the user's problem",
  "Whenever a solve ends with a success or acceptable-level status, the returned primal point satisfies the user's bounds and constraints, and together with the returned multipliers (bound and constraint ones, in the user's order, signs and units) it satisfies stationarity and complementarity, all to the accuracy the tolerances ask for. The reported objective is the user's objective at the returned point. This holds for every formulation (dense, mixed dense-sparse, sparse) and every combination of the algorithm options that the solver accepts.",
  ["inputs", "configurations"], "all small problems of enumerated families x all combinations of the algorithm, linear-algebra, scaling and bound-treatment options",
  "the tests compare one objective value per example; they never recompute KKT residuals from the user's functions, and run a handful of option settings",
  ["src/Optimization/hiopAlgFilterIPM.cpp", "src/Optimization/hiopNlpFormulation.cpp", "src/Optimization/hiopResidual.cpp", "src/Interface/hiopInterface.hpp"],
  [dict(name="checkTermination, evalNlpAndLogErrors, nlp->user_* and get_dual_solutions", where="src/Optimization/hiopAlgFilterIPM.cpp, src/Optimization/hiopNlpFormulation.cpp")],
  technique="bounded-exhaustive enumeration of problems x options on the real solver; oracle: KKT residuals recomputed from the user's functions",
  note="exhaustive over the listed families, formulations and option settings; each solve is one execution of the real solver in its own process",
  harness=[("base", "solve"), ("sparse", "solve")], rule="every problem of the families (all bound-type pairs, constraint types, orders of equalities and inequalities, scaling, nonlinear, nonconvex, degenerate and fixed-variable problems) x dense and every admissible mixed dense-sparse split x one-/two-call constraints x every option setting, and pairs of option settings (quick: two-call, dense and one split; thorough: everywhere); the same with the sparse formulation: KKT systems XYcYd (also inertia-free, randomized, quick), XDYcYd, condensed, normal equations, forced restoration",
  assumptions=["KKT residuals are accepted up to 2e-6 relative to the size of the multipliers and bounds (tolerance 1e-8 on the scaled problem); elastic_mode: bounds up to its own relaxation 1e-2"])

P("S02", "Whatever goes wrong, the solver stops with a truthful status",
  "If an evaluation callback (objective, gradient, constraints, Jacobian, Hessian) reports failure at any call, the user asks to stop at any iteration, the iteration limit is reached, or the problem has no feasible point, the solve returns (no crash, no endless loop) with a status that says what happened, and never a success status it has not earned. A stop requested by the user or the iteration limit gives exactly the corresponding status.",
  ["fault_sequences", "inputs"], "every user callback failing at every call index; a user stop at every iteration; every iteration limit up to the length of the run",
  "the tests never make a callback fail",
  ["src/Optimization/hiopAlgFilterIPM.cpp", "src/Optimization/hiopNlpFormulation.cpp"],
  [dict(name="error returns of evalNlp*, user_callback_iterate, checkTermination", where="src/Optimization/hiopAlgFilterIPM.cpp")],
  level="fault_enumeration", technique="exhaustive fault injection: every callback x every call index on the real solver, in isolated processes",
  note="every single fault position of every run of the listed problems, formulations and options; an evaluation failure that a feasibility restoration absorbs may also end in Error_In_FR or an earned success",
  harness=[("base", "faults"), ("sparse", "faults")], rule="per problem x formulation x option setting: every evaluation callback x every call index of the fault-free run, once and from then on; no starting point; a stop request at every iteration; every iteration limit below the run's length; plus infeasible problems; the same with the sparse formulation",
  assumptions=["callbacks that describe the problem (sizes, bounds) are taken to succeed: HiOp aborts by design on those"])

P("F01", "The line-search filter accepts exactly the undominated pairs",
  "After any sequence of additions, a pair (infeasibility, barrier objective) is rejected by the filter exactly when it is at least the maximal infeasibility or both its components are no better than those of some pair added since the last initialization. Adding a pair never makes a rejected pair acceptable, and reinitialization or clearing forgets every earlier pair.",
  ["histories"], "all sequences of add, initialize, reinitialize and clear up to depth 6 over a grid of pairs, each followed by all membership queries",
  "no test exercises the filter on its own; the examples visit a few entries",
  ["src/Optimization/hiopFilter.cpp", "src/Optimization/hiopFilter.hpp"],
  [dict(name="dominance pruning in add, contains", where="src/Optimization/hiopFilter.cpp")],
  technique="explicit-state exploration of the real filter: all operation sequences up to a depth against a reference set",
  note="exhaustive up to the depth on a grid that includes equal coordinates; the reference is a plain list of all added pairs",
  harness=[("base", "filter")], rule="every sequence of add/initialize/reinitialize/clear over a 4x3 grid of (theta,phi) up to the depth, each followed by 64 membership queries")

P("D01", "Primal decomposition gives the serial result under every MPI schedule",
  "For every number of ranks and every order in which messages arrive and evaluators finish, a parallel primal decomposition run terminates (no deadlock, no lost or misdirected message, no use of dead buffers) and produces the same sequence of master problems, the same solution, objective, status and number of iterations as the serial run. In every outer iteration each recourse term is evaluated exactly once, at the current master point, by a non-master rank.",
  ["schedules", "configurations"], "all schedules of 2-4 ranks up to a bound on deviations from the default schedule, 1-4 recourse terms, both accumulation modes, buffered and unbuffered sends",
  "the tests run this on a single process; with MPI a test would see one arrival order",
  ["src/Optimization/hiopAlgPrimalDecomp.cpp", "src/Optimization/hiopAlgPrimalDecomp.hpp"],
  [dict(name="master/evaluator loops with Isend/Irecv/Test and the end signal", where="src/Optimization/hiopAlgPrimalDecomp.cpp: run, run_local")],
  technique="stateless exploration (delay-bounded) of the real MPI master/evaluator engine under a controlled scheduler",
  note="the real engine, compiled against a simulated MPI whose ranks are fibers; every execution with at most the stated number of deviations is run under AddressSanitizer and compared with the serial engine on data where sums are exact",
  harness=[("asan", "pridec")], rule="every schedule with at most the stated number of deviations from round-robin run-to-block scheduling; collectives commute with all other steps and are not choice points")

P("D02", "Primal decomposition builds and solves the sequence of models it documents",
  "A run of the primal decomposition solver first solves the base problem; then in every outer iteration it asks each recourse term for its value and gradient exactly once, at the coupling variables (picked in the user's order) of the last master solution, and hands the master problem the quadratic model with the mean value and gradient there and one curvature: ||g||^2/(2 f) times a ratio moved by the trust-region rule on true against predicted decrease, within alpha_min and alpha_max. It stops in the first iteration whose error is below the tolerance, or after the given number of consecutive acceptable ones, or at the iteration limit, and reports the last master's status, solution and objective. The model's value, gradient and Hessian, as the user evaluates them, are those of that quadratic in the user's variables, whatever was evaluated or set before. Options mean the same in the file and through the calls.",
  ["inputs", "histories"], "all ordered lists of coupling variables of up to 3 variables, 1-5 recourse terms, 7 recourse shapes (convex, linear, nonsmooth, discontinuous, negative) x 4 base problems, 13 settings; all sequences of up to 5 points for the curvature rules; all evaluation points on a grid for the model",
  "the tests run two examples and look at one objective; a wrong model or rule still converges there",
  ["src/Optimization/hiopAlgPrimalDecomp.cpp", "src/Optimization/hiopAlgPrimalDecomp.hpp", "src/Interface/hiopInterfacePrimalDecomp.cpp", "src/Interface/hiopInterfacePrimalDecomp.hpp"],
  [dict(name="hiopAlgPrimalDecomposition::run_single", where="src/Optimization/hiopAlgPrimalDecomp.cpp"), dict(name="hiopAlgPrimalDecomposition::HessianApprox", where="src/Optimization/hiopAlgPrimalDecomp.cpp"), dict(name="hiopInterfacePriDecProblem::RecourseApproxEvaluator", where="src/Interface/hiopInterfacePrimalDecomp.cpp")],
  technique="exhaustive exploration of runs of the real outer loop, every transition compared with a reference model (online conformance); exhaustive enumeration of update sequences",
  note="the serial engine; D01 shows that the parallel engines follow it under every schedule; decisions within rounding distance of a threshold are not judged; refused evaluations of recourse terms are outside (the interface leaves them open)",
  harness=[("base", "twostage")], rule="(n <= 3, ordered coupling lists) x terms x shapes x base problems x settings, by call and by options file; curvature rules: all sequences of 4 (thorough 5) steps over 5 points x 4 rules x 3 ranges")

P("V01", "Vector operations compute their element-wise definition on any partition",
  "Every operation of the vector classes (sets, copies with positions, maps and patterns, component-wise arithmetic, axpy forms, norms, dot products, barrier and damping terms, projections, fraction to the boundary, dual adjustment, predicates, counts) gives the result of its element-wise definition for every size, including empty vectors, and every selection pattern, and changes nothing else; so does every operation that vectors compounded of parts offer, for every division into parts, empty ones included, and for their clones. Global operations give the same result on every rank for every distribution of the elements over ranks, including empty parts.",
  ["inputs", "configurations"], "all data over small alphabets and all patterns for small sizes; all partitions over 1-4 ranks; all positions and index maps",
  "the tests use constant vectors of one size with one or two modified elements, on one partition",
  ["src/LinAlg/hiopVectorPar.cpp", "src/LinAlg/hiopVectorIntSeq.cpp", "src/LinAlg/hiopVectorCompoundPD.cpp", "src/LinAlg/hiopVectorIntCompoundPD.cpp", "src/LinAlg/hiopVector.hpp"],
  [dict(name="hiopVectorPar, hiopVectorIntSeq, hiopVectorCompoundPD", where="src/LinAlg/hiopVectorPar.cpp, src/LinAlg/hiopVectorIntSeq.cpp, src/LinAlg/hiopVectorCompoundPD.cpp")],
  technique="bounded-exhaustive enumeration of operations x data x patterns x partitions on the real classes (ranks simulated)",
  note="exhaustive over the listed alphabets and sizes; reference: the element-wise definition",
  harness=[("base", "vec")], rule="every operation x every assignment of an alphabet of 3-6 values per operand and every pattern for sizes 0-4 (as far as the product stays below the limit), each element in turn over its alphabet for sizes up to 33, every partition over 2-3 ranks, every division of a compound vector and of its clone into up to 3 parts; every position, count, pattern and index map for the copying operations, sizes 0-5")

P("M01", "Matrix operations compute their definition for every shape and pattern",
  "Every operation of the dense, sparse triplet, symmetric sparse and mixed dense-sparse matrices (products with vectors and matrices with any alpha and beta, products M*D^-1*N', additions to diagonals and to triangles of larger symmetric matrices, row maxima and row scaling, copies of rows, blocks and diagonals with positions and selection patterns, copies, sorting, conversion to CSR, assembly of the elastic Jacobian and Hessian) gives the result of plain dense arithmetic for every shape, including empty ones, and every sparsity pattern, and changes nothing else. With beta = 0 the previous contents of the result do not matter. Dense matrices whose columns are distributed give the same result for every distribution.",
  ["inputs", "configurations"], "all shapes up to 3x3 (4x4), all sparsity patterns, all data over a small alphabet or distinct values with all single and pair substitutions, all positions, all partitions over 1-3 (4) ranks",
  "the tests use constant matrices of one shape, one sparsity pattern and one partition",
  ["src/LinAlg/hiopMatrixDenseRowMajor.cpp", "src/LinAlg/hiopMatrixSparseTriplet.cpp", "src/LinAlg/hiopMatrixMDS.hpp"],
  [dict(name="hiopMatrixDenseRowMajor, hiopMatrixSparseTriplet, hiopMatrixSymSparseTriplet, hiopMatrixMDS, hiopMatrixSymBlockDiagMDS", where="src/LinAlg/hiopMatrix*.cpp, hiopMatrixMDS.hpp")],
  technique="bounded-exhaustive enumeration of operations x shapes x sparsity patterns x data x partitions on the real classes (ranks simulated)",
  note="exhaustive over the listed shapes, patterns and alphabets; reference: plain dense arithmetic written in the harness",
  harness=[("base", "mat")], rule="every operation x every shape up to 3x3 (thorough 4x4) x every sparsity pattern up to 9 (12) positions x every pair of patterns up to 12 (14) positions x alpha, beta in {0,1,-1/2} x every position at which a block or diagonal fits x every partition of up to 3 columns over up to 3 (4) ranks")

P("K01", "Every search direction solves the regularized Newton system it stands for",
  "After a successful update, the direction returned for any right-hand side satisfies every equation of the full primal-dual Newton system of the barrier problem (stationarity in x and d, equalities, inequalities, slack definitions and perturbed complementarity) with exactly the reported regularization, whichever condensed form (XYcYd, XDYcYd, mixed dense-sparse with any split, low-rank, and for sparse problems also the condensed and the normal-equation one) and refinement is used; components of nonexistent bounds are zero, and the inputs are unchanged. The accepted matrix has exactly as many negative eigenvalues as there are constraints (none, when condensed to a definite matrix), or, in inertia-free mode, the loop ends with a direction that passes the curvature test; a matrix that already has the right inertia is not regularized. The KKT operator and its transpose are the matrix of that system.",
  ["inputs", "configurations", "histories"], "all bound-type and constraint combinations of small problems x all classes x Hessians (definite, indefinite, singular) x Jacobians (full and deficient rank) x iterates x right-hand sides, and all sequences of updates of one object",
  "the tests see directions only through converged objective values; a wrong entry of a direction is corrected by later iterations",
  ["src/Optimization/hiopKKTLinSysSparse.cpp", "src/Optimization/hiopKKTLinSysSparseCondensed.cpp", "src/Optimization/hiopKKTLinSysSparseNormalEqn.cpp", "src/Optimization/hiopKKTLinSys.cpp", "src/Optimization/hiopKKTLinSysDense.hpp", "src/Optimization/hiopKKTLinSysMDS.cpp", "src/Optimization/hiopPDPerturbation.cpp", "src/Optimization/hiopFactAcceptor.cpp", "src/LinAlg/hiopKrylovSolver.cpp"],
  [dict(name="hiopKKTLinSys::update/factorize/computeDirections/compute_directions_w_IR/test_direction, hiopMatVecKKTFullOpr", where="src/Optimization/hiopKKTLinSys*.cpp")],
  technique="bounded-exhaustive enumeration of problems x iterates x update histories on the real KKT classes; oracle: residual of the uncondensed system and eigenvalues by Jacobi rotations",
  note="exhaustive over the listed shapes and data; the oracle applies the full Newton operator from the problem's data, independent of any condensation",
  harness=[("base", "kkt"), ("sparse", "kkt")], rule="every shape with n<=3 (thorough 4) variables, up to 2 equalities and 2 inequalities, every combination of bound types (n=3: uniform) x every KKT class and every dense-sparse split x inertia/inertia-free x constant/randomized regularization x Hessian (6) x Jacobian (3) x iterate (3) x barrier parameter x right-hand sides; every sequence of 3 (4) updates over 5 situations; sparse formulation: XYcYd, XDYcYd, condensed (inequalities only) and normal equations (diagonal Hessian) with full, diagonal and holed Hessian patterns",
  assumptions=["refined directions are only checked for systems that are not numerically singular", "low-rank form: equality Jacobian of full row rank (that form has no dual regularization)"])

P("R01", "Regularization state machine: monotone, bounded, and forgets nothing it needs",
  "For every sequence of events of the inertia correction (new iteration, wrong inertia, singular matrix, factorization failure, direction with negative curvature) and every option set, the regularizations of the primal-dual systems are nonnegative and consistent among the x, d, c and d blocks; a new iteration starts unregularized unless degeneracy has been established; the first and the following values follow the documented schedule from the last accepted value; every rejection strictly increases some regularization; and the correction gives up only beyond the documented maximum, so every correction loop ends. The factorization acceptors accept exactly the matrices of right inertia (or, inertia-free, factorizable ones). Reinitializing forgets everything.",
  ["histories", "configurations"], "all event sequences up to the stated depth over all outcome alphabets, for every policy (primal first, dual first, randomized or not), option set and acceptor",
  "the tests see one sequence of factorizations per problem",
  ["src/Optimization/hiopPDPerturbation.cpp", "src/Optimization/hiopFactAcceptor.cpp", "src/Optimization/hiopPDPerturbation.hpp"],
  [dict(name="hiopPDPerturbation (4 policies), hiopFactAcceptorIC, hiopFactAcceptorInertiaFreeDWD", where="src/Optimization/hiopPDPerturbation.cpp, hiopFactAcceptor.cpp")],
  technique="explicit-state exploration of the real regularization objects: all event sequences up to a depth; oracle: the documented schedule as a reference automaton",
  note="every sequence of outcomes up to the depth, without sampling; randomized regularization is checked against its interval",
  harness=[("base", "pert")], rule="every sequence of events up to depth 8 (thorough 10) x 4 policies x 5 option sets x {direct, inertia acceptor, inertia-free acceptor, no constraints}, and all histories of three runs of up to 13 (24) equal corrections")

P("I01", "Iterates, residuals, barrier and dual updates are the documented formulas",
  "For every iterate, direction and problem data, the pieces of an iteration compute what they are documented to compute and change nothing else: the residuals of the original and of the barrier problem with all their norms, the barrier function and its gradient with the damping terms, slack computation and safeguarding, steps to the boundary, trial points along a direction, projection of duals and their adjustment to the primal log Hessian, linear and least-squares dual updates, norms and copies.",
  ["inputs", "configurations"], "all small shapes and bound-type combinations x data with every entry varied (and pairs of entries) x dense and mixed formulations; slack safeguarding over an alphabet of extreme values",
  "the tests see these quantities only through converged objective values",
  ["src/Optimization/hiopIterate.cpp", "src/Optimization/hiopResidual.cpp", "src/Optimization/hiopLogBarProblem.hpp", "src/Optimization/hiopDualsUpdater.cpp"],
  [dict(name="hiopIterate, hiopResidual, hiopLogBarProblem, hiopDualsUpdater", where="src/Optimization/hiopIterate.cpp, hiopResidual.cpp, hiopLogBarProblem.hpp, hiopDualsUpdater.cpp")],
  technique="bounded-exhaustive enumeration of shapes x data on the real classes; oracle: the formulas written component by component in the harness",
  note="every shape and bound-type combination in the bounds, each input entry over an alphabet; the least-squares update is judged by its optimality conditions",
  harness=[("base", "iter"), ("sparse", "iter")], rule="every shape n<=3 (thorough 4), up to 2 equalities and 2 inequalities, every bound type per component (n<=2; cyclic above) x dense and every dense-sparse split x two base data sets x each input entry over 4 values (thorough: pairs of entries up to 3 rows); slack safeguarding: 6 mu x 5 bounds x 5 duals x 11 slacks; the same with the sparse formulation",
  assumptions=["fraction to the boundary with tau < 1 as the method requires"])

P("R02", "A checkpointed solve can be continued from any checkpoint",
  "A quasi-Newton solve that saves its state (to a Sidre group or to files, at any frequency, on any number of ranks) is not changed by saving, and a solve continued from any of its checkpoints - loaded by the solver's method or by option, into a new solver or one that was used - has the checkpointed iterate, barrier parameter, secant approximation and scaling, goes through the same iterates as the checkpointed run (up to what the filter, which starts anew, decides) and ends with the same solution; a run after it is a new solve. A state with a missing view, one of another size, of another number of ranks, a file that is missing, cut off or holds something else is refused and leaves no trace: the solve is then exactly the one from the user's starting point. A HiOp without Axom ignores the options.",
  ["crash points", "histories", "configurations"], "every iteration of every run as the point of interruption x every problem of the families x option sets (and pairs) x API, file and used solver; every view of a checkpoint missing, too short and too long; every distribution of the variables over 2 (3) ranks",
  "Axom is not part of the build here and no test restarts a solve",
  ["src/Optimization/hiopAlgFilterIPM.cpp", "src/Optimization/hiopHessianLowRank.cpp", "src/Utils/SidreHelper.hpp", "src/Utils/hiopOptions.cpp"],
  [dict(name="save_state_to_sidre_group / load_state_from_sidre_group / checkpointing_stuff / hiopAlgFilterIPMQuasiNewton::run", where="src/Optimization/hiopAlgFilterIPM.cpp")],
  technique="exhaustive enumeration of interruption points (a checkpoint at every iteration) and of damaged checkpoints on the real solver, over a stand-in for Sidre; the continued run is compared with the rest of the interrupted one",
  harness=[("base", "chk"), ("sparse", "chk")])
P("P01", "Watching a solve does not change it, and what is printed and written is true",
  "For every problem and formulation, the iterates, the solution and the status are bit for bit the same at every verbosity level, with options, timings and linear systems printed or not; the table of iterations printed from the summary level on has one row per iteration with the values the iterate callback gets (on one rank only in a distributed solve), the closing message is that of the status returned, the printed options have the values given; and every linear system written by write_kkt is complete, symmetric in one triangle, of the stated dimensions, one at least per iteration, with solutions that solve it.",
  ["configurations", "histories"], "every verbosity level and every output option x every problem of the families x every formulation and mixed split x option sets (and pairs); runs stopped at every early iteration; every distribution over two ranks",
  "the tests run at one verbosity and read none of the output",
  ["src/Utils/hiopLogger.cpp", "src/Utils/hiopCSR_IO.hpp", "src/Utils/hiopOptions.cpp", "src/Utils/hiopRunStats.hpp", "src/Optimization/hiopAlgFilterIPM.cpp", "src/Optimization/hiopKKTLinSys.cpp", "src/Optimization/hiopKKTLinSysMDS.cpp"],
  [dict(name="outputIteration / displayTerminationMsg", where="src/Optimization/hiopAlgFilterIPM.cpp"), dict(name="hiopLogger, hiopCSR_IO", where="src/Utils/hiopLogger.cpp, hiopCSR_IO.hpp")],
  technique="bounded-exhaustive enumeration of output configurations x problems on the real solver; each observed run is compared step by step with the silent one and with what it printed",
  harness=[("base", "obs"), ("sparse", "obs")])
P("S06", "Every iteration is reported to the user truthfully",
  "The iterate callback is called once per iteration, numbered from zero, with the user's own variables, constraints, slacks and multipliers (the user's number, order, signs and units, fixed variables included): objective and constraint values are those at the reported point, the barrier function and primal and dual infeasibility are those of the reported iterate, primal and slack variables stay strictly within the (relaxed) bounds, multipliers exist exactly for the existing bounds and are positive and kept near mu/slack, no step exceeds the fraction to the boundary, step sizes are in (0,1], the barrier parameter never grows, and the last report of a successful run is the returned solution.",
  ["histories", "configurations"], "every iteration of the runs on all problems of the families x formulations x option sets and pairs of option sets",
  "the tests do not look at what the callback gets",
  ["src/Optimization/hiopNlpFormulation.cpp", "src/Optimization/hiopAlgFilterIPM.cpp", "src/Interface/hiopInterface.hpp"],
  [dict(name="user_callback_iterate and the iteration loops", where="src/Optimization/hiopNlpFormulation.cpp, src/Optimization/hiopAlgFilterIPM.cpp")],
  technique="bounded-exhaustive enumeration of problems x options on the real solver with a monitor on every iteration",
  note="every iteration of every run is compared with quantities recomputed from the user's functions",
  harness=[("base", "iterates"), ("sparse", "iterates")], rule="every problem of the families x dense and every admissible mixed split x 17-22 option sets (thorough: and all pairs of them); the same with the sparse formulation, also posed with inequalities only",
  assumptions=["infeasibilities, barrier function and multiplier safeguards are recomputed when scaling is off (they are scaled quantities otherwise)"])

P("T01", "The problem solved internally is the user's problem",
  "For every problem, formulation and option setting, the internal formulation has exactly the user's variables (minus removed fixed ones) and constraints, split into equalities and inequalities, with the user's bounds relaxed exactly as the options say and the corresponding bound patterns and counts; every evaluation (objective, gradient, constraints, Jacobians, Hessian), in any order and with any valid use of new_x, returns the user's functions times the scaling factors of the documented gradient-based rule, calling the user with the user's own full point; points, objective values and multipliers are converted back to the user's variables, signs and units without touching anything else; and moving bounds (reset_bounds, adjust_bounds) yields exactly the requested ones.",
  ["inputs", "configurations", "histories"], "all bound and constraint types up to 3+3 x dense and mixed forms x one- and two-call constraint evaluation x 16 option sets x sequences of evaluations",
  "the tests run whole solves of problems with few combinations of types; nobody compares the internal functions with the user's",
  ["src/Optimization/hiopNlpFormulation.cpp", "src/Optimization/hiopNlpTransforms.cpp", "src/Optimization/hiopNlpTransforms.hpp"],
  [dict(name="hiopNlpFormulation::finalizeInitialization, eval_*, apply_scaling and the transformations", where="src/Optimization/hiopNlpFormulation.cpp, src/Optimization/hiopNlpTransforms.cpp")],
  technique="bounded-exhaustive enumeration of problem shapes x options x evaluation sequences on the real formulation classes against a reference",
  note="the reference computes every internal quantity from the user's functions",
  harness=[("base", "form"), ("sparse", "form")], rule="shapes: all 6 variable types and 4 constraint types for n+m<=3 (thorough 4), cyclic patterns above; data at 3 magnitudes; sequences of 5 evaluations x 3 points, depth 1-2, after 3 different pre-scaling histories; the same with the sparse formulation, also posed with inequalities only",
  assumptions=["fixed_var=remove only with dense problems (the documented limit)", "the scaling rule uses one common factor per block for scaling_max_con_grad, as coded"])

P("W01", "The solver starts exactly from the user's starting point",
  "Whichever of the ways to give a starting point a user chooses (none, primal only, primal with multipliers and/or inequality slacks, complete warm start, a method that refuses), for every shape of problem, formulation and option setting, iteration 0 is exactly that point: primals and slacks projected into the relaxed bounds by the documented rule (not in a warm start), missing slacks equal to the constraint values, given multipliers converted to the scaled problem's units, multipliers only for existing bounds, defaults otherwise; slacks of bounds are consistent and positive; and from every such start convex problems are solved.",
  ["inputs", "configurations"], "all bound and constraint types up to 3+3 x dense and mixed forms x 10 ways of starting x up to 8 point patterns x 3 multiplier patterns x 9 option sets",
  "the tests start all problems but two from a plain primal point and only look at the solution",
  ["src/Optimization/hiopNlpFormulation.cpp", "src/Optimization/hiopAlgFilterIPM.cpp", "src/Optimization/hiopIterate.cpp"],
  [dict(name="startingProcedure, get_starting_point, get_warmstart_point", where="src/Optimization/hiopAlgFilterIPM.cpp, src/Optimization/hiopNlpFormulation.cpp")],
  technique="bounded-exhaustive enumeration of problem shapes x ways of starting x points x options on the real solver, stopped at iteration 0, against a reference",
  note="the initial iterate (all 12 parts) and the first report to the user are compared with the reference; whole solves from every kind of start for the families of convex problems",
  harness=[("base", "start"), ("sparse", "start")], rule="shapes: all types for n+m<=3 (thorough 4), cyclic above; point patterns: interior, on, outside and near the bounds; multipliers: ordinary, with zeros and large, tiny; the same with the sparse formulation",
  assumptions=["a warm start has positive multipliers, and for whole solves lies within the bounds (HiOp documents that it skips all safeguards there)"])

P("S05", "A solve depends only on the problem and the options",
  "A second and any later run of the same solver object gives exactly the solve a new object would: whatever was solved before with it (to the end, or stopped by the user), whatever options were in force when the objects were made or in earlier runs, whatever the memory the program gets contains, and whether or not the user says (truthfully) that the problem is linear or quadratic. Every iterate, the solution, multipliers, objective, status and number of iterations are the same.",
  ["histories", "configurations"], "all sequences of 2-3 runs over 10-14 option sets, with earlier runs finished, stopped or not made, on all problems of the families; 4 memory fill patterns; problem declared linear, quadratic or not, two- and one-call constraints",
  "the tests run each solver object once, with fixed options",
  ["src/Optimization/hiopAlgFilterIPM.cpp", "src/Optimization/hiopNlpFormulation.cpp", "src/Optimization/hiopHessianLowRank.cpp"],
  [dict(name="run, reInitializeNlpObjects, reload_options, finalizeInitialization", where="src/Optimization/hiopAlgFilterIPM.cpp, src/Optimization/hiopNlpFormulation.cpp")],
  technique="exhaustive enumeration of run histories of one solver object on the real solver; oracle: a fresh object, compared bit by bit at every iteration",
  note="every sequence of runs within the bounds; a fresh object per option set is the reference",
  harness=[("base", "rerun"), ("sparse", "rerun")], rule="problem families x formulations x all ordered pairs of option sets (thorough: triples and all splits), earlier runs complete, stopped at iteration 2, or options only set; heap filled with 4 patterns; the same with the sparse formulation and its KKT systems",
  assumptions=["tighten_bound with fixed variables is left out (a known finding of S01)"])

P("H01", "The secant Hessian is the BFGS matrix of the last accepted pairs",
  "After any sequence of updates the limited-memory Hessian is the BFGS matrix built from the documented initial scaling and the most recent pairs of steps and Lagrangian-gradient changes that have sufficient curvature, at most as many as the memory holds, in order. Pairs without curvature and too short steps change nothing but the reference point. Products use that matrix, and solves and the products X*inv(H+Dx)*X' use its sum with the log-barrier diagonal, for every alpha and beta, without changing inputs, and the same on every distribution of the variables over ranks.",
  ["histories", "configurations"], "all sequences of up to 4 (5) updates over an alphabet of 9 pairs x memory lengths 0-3 x 5 scaling strategies x 1-3 variables x all distributions over 1-3 ranks",
  "the tests see the secant approximation only through converged objective values, which any positive definite matrix would give",
  ["src/Optimization/hiopHessianLowRank.cpp", "src/Optimization/hiopHessianLowRank.hpp"],
  [dict(name="update, growL/updateL, updateInternalBFGSRepresentation, solve, symMatTimesInverseTimesMatTrans, timesVec", where="src/Optimization/hiopHessianLowRank.cpp")],
  technique="explicit exploration of all update histories up to a depth on the real class; oracle: the dense BFGS recursion in extended precision",
  note="exhaustive over the alphabet up to the depth; the compact representation is compared through its solves",
  harness=[("base", "secant")], rule="alphabet: three good pairs (through the objective and through both Jacobians), negative curvature, no step, stiff, hardly any curvature, tiny step, step below the threshold; checks after every update up to depth 3, at the end beyond; three barrier diagonals",
  assumptions=["accuracy relative to the conditioning of the pairs"])

P("D03", "Distributed dense solves give the serial result on every rank",
  "Solving a dense-constraint problem whose variables are distributed over MPI ranks ends, for every distribution (empty parts included), on every rank with the same status, number of iterations, objective and multipliers, and with the same primal solution and bound multipliers (each rank its own part) as the serial solve, up to rounding; collective operations match on all ranks, also when the user stops the solve, and through feasibility restoration and bound relaxation.",
  ["configurations", "inputs"], "all distributions over 2-3 (4) ranks of all problems of the families x option sets x user stops, both ways of evaluating constraints",
  "the tests run distributed examples on one rank",
  ["src/Optimization/hiopAlgFilterIPM.cpp", "src/Optimization/hiopNlpFormulation.cpp", "src/Optimization/hiopHessianLowRank.cpp", "src/Optimization/hiopKKTLinSys.cpp", "src/Optimization/hiopNlpTransforms.cpp", "src/Optimization/hiopFRProb.cpp"],
  [dict(name="distributed vectors, reductions, FR problem's distribution", where="src/Optimization, src/LinAlg")],
  technique="bounded-exhaustive enumeration of distributions x problems x options on the real solver with simulated MPI ranks (barrier collectives); oracle: the serial solve",
  note="the solver only uses collectives, so ranks commute between them and one schedule per distribution is complete; mismatched collectives and deadlocks are detected",
  harness=[("base", "dist")], rule="every nondecreasing cut of the variables over 2 and 3 (thorough 4) ranks x families x 8 option sets; one-call constraints and stops at iterations 0 and 3 with the default options (thorough: with all)",
  assumptions=["outcomes decided by rounding errors are not compared: forced restoration from a feasible point, intermediate iterates of a linear program"])

P("Q01", "The restoration problem is the one its definition says",
  "The feasibility-restoration problem built at any iterate has the bounds and constraints of the original problem relaxed by non-negative p and n, the objective rho*sum(p+n)+zeta/2*||D_R(x-x_ref)||^2, exact derivatives, and the starting point and duals of its definition; every function gives that answer whatever was called before. It hands the iterate back exactly when the original infeasibility dropped by the required factor and the original filter accepts the point, and recomputing p and n for a given x gives the best values for the constraints at that x and the current slacks.",
  ["inputs", "histories"], "all small shapes x dense and MDS layouts x every entry of the iterate and of the point over special values; all sequences of up to 3 (4) calls; all stop decisions around the thresholds and filter entries",
  "few tests enter the restoration, and then only its outcome is seen; a wrong term only makes it slower or end elsewhere",
  ["src/Optimization/hiopFRProb.cpp", "src/Optimization/hiopFRProb.hpp"],
  [dict(name="eval_*, get_warmstart_point, iterate_callback, force_update_x", where="src/Optimization/hiopFRProb.cpp")],
  technique="explicit exploration of all call sequences up to a depth and of all single-entry value variations on the real class; oracle: the definition of the restoration problem",
  note="exhaustive within the stated shapes, values and depth; distributed restoration is covered by D03",
  harness=[("base", "frprob"), ("sparse", "frprob")], rule="shapes with up to 3 (4) variables, 2 equalities, 2 inequalities, all bound kinds; two base points x every entry x 6 values; every sequence of 3 (4) calls out of 10 functions x 2 points; 5 infeasibility levels x 6 filters x 3 iteration numbers; the same for the sparse restoration problem, also with missing Hessian diagonals",
  assumptions=["the barrier parameter is not negligible against the residual when p and n are computed (otherwise they are dominated by rounding)"])

P("O01", "Options take the value the user gave, by file or call, and stay consistent",
  "After any sequence of options-file lines and Set calls, every option has the last admissible value given for it, the file taking precedence over run-time calls; unknown names, other types, unparsable or out-of-range values (NaN included) change nothing; an option counts as set by the user exactly when the user set it. Options in their ranges satisfy the documented mutual constraints after every step (tolerances not tighter than 'tolerance', dual update for exact Hessians, KKT/solver/inertia combinations, what the build does not support), options that no constraint concerns keep their value, and the outcome of a file does not depend on the order of its lines. Warnings report the user's text as it is.",
  ["histories", "inputs"], "every option with all its values and near misses, alone and in all ordered pairs (file/file, file/call, call/call); every sequence of 3 (4) settings of the constrained options; every file-line form of a small grammar",
  "tests read a handful of options; the rules interact over sequences of settings",
  ["src/Utils/hiopOptions.cpp", "src/Utils/hiopOptions.hpp"],
  [dict(name="load_from_file, Set*Value, ensure_consistence", where="src/Utils/hiopOptions.cpp")],
  technique="explicit exploration of all histories of settings up to a depth on the real options objects, each step compared with a reference table of precedence, validity and consistency rules",
  note="exhaustive within the depth and the values listed; the configuration without GPU, RAJA and Axom",
  harness=[("base", "opts")], rule="all options (NLP and PriDec) x all values x file/call and all pairs of values of one option; all pairs of options; all sequences of 3 (4) out of 44 settings of the constrained options with every split between file and run time; all orders of 3-line files; 6 names x 33 value forms x 5 indentations x 5 separators x 6 tails",
  assumptions=["run-time settings are made consistent one by one, in the order of the calls", "an option that the file names, even with a value that is refused, is not changed at run time"])

P("M02", "Compressed sparse row matrices compute their definition for every pattern",
  "A CSR matrix formed from a triplet matrix, as the transpose of a triplet or CSR matrix, as a diagonal, as the sum of two matrices or as the product of two matrices is exactly that matrix: its pattern is the one the operands imply (ordered, without duplicates), row pointers are valid for every shape, matrices without rows, columns or nonzeros included, and its values are those of plain arithmetic for any alpha and beta. Numeric phases can be repeated with new values of the same pattern, and one object can be formed again and again from matrices of other shapes and patterns. Scaling, diagonals, copies, norms and finiteness tests give their definition and change nothing else.",
  ["inputs", "histories"], "all patterns of shapes up to 3x3 (4x4), all pairs of patterns for products and sums, all ordered pairs of ways of forming one object",
  "the tests form a handful of matrices, each object once",
  ["src/LinAlg/hiopMatrixSparseCSRSeq.cpp", "src/LinAlg/hiopMatrixSparseCSRSeq.hpp"],
  [dict(name="hiopMatrixSparseCSRSeq", where="src/LinAlg/hiopMatrixSparseCSRSeq.cpp")],
  technique="bounded-exhaustive enumeration of shapes x sparsity patterns x operations x histories of one object on the real class",
  note="exhaustive over the listed shapes and patterns; reference: plain dense arithmetic with patterns, written in the harness",
  harness=[("base", "csr")], rule="every pattern of every shape up to 3x3 (thorough 4x4) through every operation of one matrix; all pairs of patterns of products with dimensions up to 4 and up to 16 (20) positions in the operands, 9 (beta, alpha) each; all pairs of patterns of sums with up to 8 (10) positions; every ordered pair of (way of forming, matrix) on one object for shapes up to 2x2 (2x3)")

P("N01", "The Kron reduction and its complex algebra are right for every network split",
  "Reducing an admittance matrix onto any subset of its buses yields exactly the Schur complement Yaa - Yab Ybb^-1 Yba, and the map it keeps gives the voltages of the eliminated buses for which no current is injected there; a split whose eliminated block is singular is refused, never answered with infinities or NaN; no split is too extreme (no bus eliminated, all eliminated), the admittance matrix is not touched, and one reduction object can be used for one network after another. The complex sparse matrices it is built from give the stated slices (of general and of symmetric storage, for any increasing row and column sets), sort and merge triplets, and, like the complex dense matrices, multiply, add, copy and measure as defined for every shape; the complex LU solver solves each system it accepts to rounding accuracy, sums repeated triplets, can be refactorized with new values, and keeps no memory behind.",
  ["inputs", "histories"], "all sparsity patterns of small shapes, all index subsets, all splits of networks of up to 4 (5) buses, pairs and triples of networks on one object",
  "the driver reduces one network with one split",
  ["src/Utils/hiopKronReduction.cpp", "src/LinAlg/hiopMatrixComplexSparseTriplet.cpp", "src/LinAlg/hiopMatrixComplexDense.cpp", "src/LinAlg/hiopLinSolverUMFPACKZ.cpp", "src/LinAlg/hiopMatrixSparseTripletStorage.hpp"],
  [dict(name="hiopKronReduction::go", where="src/Utils/hiopKronReduction.cpp")],
  technique="bounded-exhaustive enumeration of sparsity patterns x index subsets x operations x histories of one object on the real classes",
  note="exhaustive over the listed shapes, patterns and subsets; singularity is decided exactly (determinants of Gaussian integers), solutions by backward error against the given matrices, the Schur complement against elimination in extended precision written in the harness",
  harness=[("base", "complex")], rule="every pattern up to 3x3 through every operation; every pattern up to 3x4 (thorough 4x4) x every row set x every column set; every symmetric pattern up to 4 (5) x every row set x every column set; every list of up to 5 (6) triplets with repetitions on up to 2x3; every pattern up to 3x3 (4x4) factorized with three or four sets of values on one solver; every symmetric pattern of up to 4 (5) buses x 3 kinds of network x every split; ordered pairs from a list of networks and splits, the first used again third; memory in use before and after repeated rounds")

P("L01", "The dense symmetric factorization reports the true inertia and solves",
  "The dense indefinite solver reports exactly the number of negative eigenvalues of the symmetric matrix given by the upper triangle, whatever is stored below it, and -1 when the matrix is singular or has a NaN entry; after a factorization it accepted, every right-hand side is solved to rounding accuracy, any number of times; a solver object gives the same answers whatever it factorized before, for every size including zero and for the sizes at which the blocked algorithm takes over.",
  ["inputs", "histories"], "all symmetric integer matrices of small sizes and ranges, symmetric scalings by powers of two, NaN in every position, all ordered pairs and returns of matrices on one solver",
  "tests solve a few systems; the inertia of a singular or differently pivoted matrix is never compared with the exact one",
  ["src/LinAlg/hiopLinSolverSymDenseLapack.hpp", "src/LinAlg/hiopLinSolver.cpp"],
  [dict(name="hiopLinSolverSymDenseLapack::matrixChanged", where="src/LinAlg/hiopLinSolverSymDenseLapack.hpp")],
  technique="bounded-exhaustive enumeration of matrices x scalings x histories of one solver on the real class, against exact integer inertia",
  note="exhaustive over the listed matrices; the reference inertia is exact (characteristic polynomial in integers, Descartes' rule), solutions are judged by backward error; for scaled singular matrices a rounded eigenvalue of either sign is accepted",
  harness=[("base", "symdense")], rule="all symmetric matrices: 2x2 entries -4..4 (thorough -9..9), 3x3 -2..2 (-3..3), 4x4 -1..1 (-2..2), thorough also 5x5 -1..1, each unscaled and with 3 symmetric power-of-two scalings; a NaN in every position of every small nonsingular matrix; every ordered pair (and return to the first) of 3x3 matrices with entries -1..1 on one solver; saddle-point, dominated and anti-diagonal matrices of known inertia for 10 sizes up to 130")

P("L02", "The Krylov solvers tell the truth about the iterate they return",
  "For any square matrix, right-hand side, starting vector, preconditioners, tolerance and iteration limit, preconditioned conjugate gradients and BiCGStab report convergence only when the residual of the returned vector is within the tolerance, report as absolute and relative residual that of the returned vector, never return a vector that is worse than the one they started from or not finite, and set the flag consistently with the result, also when the method breaks down, diverges or stagnates and when the right-hand side is zero. With an exact preconditioner on either side, or split between both, they converge at once; conjugate gradients converge within the dimension of a positive definite system. One solver object gives all this for one right-hand side after another.",
  ["inputs", "histories"], "all matrices up to 3x3 with entries -1..1 (2x2: -2..2), all combinations of solver, preconditioner, start, limit and tolerance, sequences of right-hand sides on one object",
  "the tests solve two fixed positive definite systems",
  ["src/LinAlg/hiopKrylovSolver.cpp", "src/LinAlg/hiopKrylovSolver.hpp"],
  [dict(name="hiopBiCGStabSolver::solve", where="src/LinAlg/hiopKrylovSolver.cpp"), dict(name="hiopPCGSolver::solve", where="src/LinAlg/hiopKrylovSolver.cpp")],
  technique="bounded-exhaustive enumeration of systems x solver configurations x sequences of right-hand sides on the real classes",
  note="exhaustive over the listed systems and configurations; residuals are recomputed from the matrix, with a slack of rounding size relative to matrix, start and solution; operators given to the solver write their result as they go, as the library's own do",
  harness=[("base", "krylov")], rule="all 1x1 (-4..4), 2x2 (-2..2; thorough -3..3) and 3x3 (-1..1) matrices, all symmetric 3x3 (-1..1; -2..2) and all positive shifts of them, x PCG (symmetric only) and BiCGStab x 6 preconditioners x 3 starts x up to 6 iteration limits x 3 tolerances x 5 right-hand sides in a row")

P("C01", "The C and Fortran interfaces are the C++ interface in other words",
  "A problem given through the C or the Fortran interface (dense, mixed dense-sparse and sparse) is solved exactly as the same problem given to the C++ classes with the options the interface documents as its own: the user's functions are asked at the same points in the same order, with the same new_x flags, multipliers and sizes, and solution, objective, status and number of iterations are the same. This holds for every solve of a problem, whatever other problems are created, solved and deleted in between, with and without an options file, and what the user passed at creation may be reused by the user afterwards. Creating and deleting problems keeps no memory.",
  ["inputs", "histories"], "the family of small problems, all their dense and mixed dense-sparse forms, all interleavings of the lives of two problems (create, solve, solve, delete with create, solve, delete), all pairs of interfaces",
  "the tests run one C, one Fortran problem once and look only at the objective",
  ["src/Interface/chiopInterface.cpp", "src/Interface/chiopInterface.hpp", "src/Interface/hiopFortranInterface.c"],
  [dict(name="cppUserProblemDense", where="src/Interface/chiopInterface.hpp"), dict(name="hiop_dense_solve_problem", where="src/Interface/chiopInterface.cpp"), dict(name="hiopdenseprob", where="src/Interface/hiopFortranInterface.c")],
  technique="exhaustive enumeration of interleavings of two problems' lives through the C and Fortran interfaces on the real code, against the recorded callback sequence of the C++ interface",
  note="exhaustive over the listed problems, forms and interleavings; bit-exact comparison with the C++ classes; values returned by the user's C functions are ignored by design (not claimed)",
  harness=[("base", "cinterface"), ("sparse", "cinterface")], rule="family x forms x {C, Fortran} x the next (thorough: 3 next) problem through {C dense, Fortran, C mixed} x all 35 interleavings x 3 option files; the same for the sparse C and Fortran interfaces")

P("A01", "The algorithm follows its documented rules",
  "Every decision of the interior-point algorithm is the one its rules prescribe, on every iteration of every run. Errors are the residuals scaled as documented with smax. The run stops exactly when all four tolerances hold, at max_iter, when the relative tolerance holds, or after acceptable_iterations consecutive acceptable iterates, and reports which. The barrier parameter goes down exactly when the barrier error is at most kappa_eps*mu, to max(min(kappa_mu*mu, mu^theta_mu), floor), with tau, theta_max, theta_min and the filter (reset to its upper limit) following. Step lengths are the fraction to the boundary, limited by moving_lim_abs and moving_lim_rel; trial points lie at halved steps along the direction; a trial point is accepted exactly when the filter does not hold it and it gives sufficient decrease (Armijo's where the switching condition holds); the filter grows exactly where prescribed. Second-order corrections are tried only for the first trial point, at most max_soc_iter times while the infeasibility drops by kappa_soc, and solve the corrected equations. The accepted point is the trial point; multipliers move by their own step and stay within kappa_Sigma of mu/slack. Restoration runs exactly when the step gets too small or is forced, and hands back a point the filter accepts. Elastic mode tightens the bounds as its options say.",
  ["inputs", "histories"], "family of small problems (convex, nonconvex, infeasible, degenerate), all their dense and mixed dense-sparse forms, all listed option settings and (thorough) pairs of them, several starting points, every iteration of each run; all sequences of error levels up to length 3-4 for termination; a grid of barrier parameters",
  "the tests compare the final objective of a few examples; a wrong filter, threshold or step rule still converges on them",
  ["src/Optimization/hiopAlgFilterIPM.cpp", "src/Optimization/hiopFilter.cpp", "src/Optimization/hiopLogBarProblem.hpp", "src/Optimization/hiopResidual.cpp", "src/Optimization/hiopDualsUpdater.cpp"],
  [dict(name="hiopAlgFilterIPMBase::update_log_barrier_params", where="src/Optimization/hiopAlgFilterIPM.cpp"), dict(name="hiopAlgFilterIPMBase::accept_line_search_conditions", where="src/Optimization/hiopAlgFilterIPM.cpp"), dict(name="hiopAlgFilterIPMBase::checkTermination", where="src/Optimization/hiopAlgFilterIPM.cpp"), dict(name="hiopAlgFilterIPMBase::apply_second_order_correction", where="src/Optimization/hiopAlgFilterIPM.cpp"), dict(name="hiopFilter::contains", where="src/Optimization/hiopFilter.cpp")],
  technique="exhaustive exploration of runs of the real solver, every transition compared with a reference model of the algorithm's rules (online conformance); exhaustive enumeration of error-level sequences for termination",
  note="exhaustive over the listed problems, forms, options and starts, with every iteration of each checked; the reference recomputes each decision from the data it was taken on, with rounding bands around ties; steps inside the restoration problem are checked through its result only; the restoration's own linear algebra is Q01's and K01's",
  harness=[("base", "rules"), ("sparse", "rules")], rule="(family + 5 hard problems) x forms x 45 option settings (thorough: all pairs) x 2-4 starts, refused filters, user stops; 14 x 3 x 2 termination tables over all error-level sequences; the same with the sparse formulation")

def generate():
    import json, os
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(f"{V}/properties.jsonl", "w") as f:
        for p in PROPS.values():
            a = dict(files=p["files"], mechanism=p["mech"])
            if p["state"]: a["state"] = p["state"]
            if p["observe"]: a["observe_at"] = p["observe"]
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                    quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"], anchors=a)) + "\n")
    m = dict(version=1, setup_cmd="python3 /verif/setup.py", checks=[], not_applicable=[])
    for p in PROPS.values():
        if p["na"]: m["not_applicable"].append(dict(property=p["id"], reason=p["na"])); continue
        m["checks"].append(dict(property=p["id"], quick_cmd=f"python3 /verif/run.py {p['id']} --tier quick",
              thorough_cmd=f"python3 /verif/run.py {p['id']} --tier thorough", technique=p["technique"], level=p["level"], level_note=p["note"]))
    with open(f"{V}/MANIFEST.json", "w") as f: json.dump(m, f, indent=1); f.write("\n")

COST = dict(P01="30 s / 5 min", R02="100 s / 12 min", D02="15 s / 1 min", A01="20 s / 2 min", C01="30 s / 2 min", L01="10 s / 90 s", L02="15 s / 2 min", N01="10 s / 2 min", M02="10 s / 60 s", O01="25 s / 6 min", F01="10 s / 60 s", D01="60 s / 10 min", S01="60 s / 10 min", S02="40 s / 8 min", V01="60 s / 6 min", M01="60 s / 8 min", K01="60 s / 9 min", R01="13 s / 133 s",
            I01="50 s / 183 s", S06="5 s / 15 s", T01="30 s / 8 min", W01="50 s / 6 min",
            S05="90 s / 13 min", H01="16 s / 2 min", D03="40 s / 5 min", Q01="25 s / 2 min")

def design():
    import json, os
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    t = []
    for p in PROPS.values():
        t.append(f"### {p['id']} {p['title']}\n*Decided by* {p['technique']}.\n*Enumerated:* {p['rule'] or p['quant']}.\n*Why it reaches what tests cannot:* {p['why']}.\n"
                 + (f"*Assumptions:* {'; '.join(p['assumptions'])}.\n" if p["assumptions"] else "") + f"*Reading of the result:* {p['note']}.\n"
                 + f"*Harness:* {', '.join('harness/'+h+'.cpp ('+v+')' for v, h in p['harness'])}. *Cost:* {COST.get(p['id'], 'about a minute / some minutes')}.\n" if not p["na"] else f"### {p['id']} {p['title']}\nNot applicable: {p['na']}\n")
    s = ["| bug | property that catches it | needs | breaks |", "|---|---|---|---|"]
    for d in sorted(os.listdir(f"{V}/seeded")):
        m = json.load(open(f"{V}/seeded/{d}/meta.json")); s.append(f"| {d} | {m['property']}{m.get('note','')} | {m['needs']} | {m['what_it_breaks']} |")
    x = open(f"{V}/lib/DESIGN.in.md").read().replace("@@TABLE@@", "\n".join(t)).replace("@@SEEDS@@", "\n".join(s))
    open(f"{V}/DESIGN.md", "w").write(x)

if __name__ == "__main__":
    import os
    if os.path.isdir("/verif/seeded"): design()
    generate()
