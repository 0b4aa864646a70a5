#!/usr/bin/env python3
"""Writes properties.jsonl (one source of truth for ids, titles, statements)."""
import json, os
ALG = "fbstab/fbstab_algorithm-impl.h"
ALGH = "fbstab/fbstab_algorithm.h"
C = "fbstab/components/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None,
         observe=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w}
                      for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


prop("C01", "Success means an optimal point within the advertised tolerance",
     "Whenever a solve of a dense QP or an optimal control problem reports success, the returned primal and dual vectors satisfy the KKT conditions of the problem that was passed in: the norm of the (penalized) natural residual - stationarity, equality constraints, and the complementarity of margins and nonnegative multipliers - is at most absolute tolerance + relative tolerance * (1 + norm of the linear terms and right-hand sides), using the tolerances in force. The only other admissible success is the documented stall, where the last two outer iterates differ by no more than the stall tolerance.",
     ["inputs", "configurations"],
     "every convex QP and every linear-quadratic optimal control problem (solvable, infeasible, unbounded or arbitrary), every initial guess, every valid option set",
     "The unit tests solve about ten fixed problems from a zero guess with default options and compare with stored answers; they say nothing about other data, guesses, tolerances or sizes.",
     [ALG, C + "full_residual.cc", C + "full_variable.cc", C + "dense_data.cc", C + "mpc_data.cc"],
     [("stopping test of the proximal loop", ALG + ": Solve"),
      ("penalized natural residual", C + "full_residual.cc: PenalizedNaturalResidual"),
      ("margin bookkeeping", C + "full_variable.cc: axpy, InitializeConstraintMargin")],
     [("combo_tol_", "combined tolerance", ALGH)],
     ["return value and output vectors of FBstabDense::Solve / FBstabMpc::Solve"])

prop("C02", "Every solvable convex problem is solved, from any initial guess",
     "A convex QP or optimal control problem that has a primal-dual solution is solved to success from any initial guess, with no regularity assumption on the constraints (redundant, zero and degenerate rows are fine): with the default options when the objective is strongly convex, with the reliable options for any convex objective including linear programs. It is never declared infeasible and never makes the solver throw, it always succeeds when the iteration limits are generous, and the stock limits suffice for all but rare instances.",
     ["inputs"],
     "every problem of moderate scaling built from a primal-dual solution, every initial guess",
     "The tests contain one degenerate QP and a few MPC problems from the zero guess; convergence for every problem and guess is the main theorem of the method and quantifies over all inputs.",
     [ALG, C + "dense_cholesky_solver.cc", C + "riccati_linear_solver.cc", C + "full_residual.cc"],
     [("globalised semismooth Newton inner loop", ALG + ": SolveProximalSubproblem"),
      ("proximal outer loop", ALG + ": Solve"),
      ("Newton systems", C + "dense_cholesky_solver.cc, " + C + "riccati_linear_solver.cc")],
     observe=["exit flag"])

prop("C03", "An infeasibility verdict always comes with a valid certificate",
     "When a solve reports primal infeasibility, dual infeasibility or both, the returned vectors are a certificate of that verdict for the problem passed in, to the relative infeasibility tolerance in force: for primal infeasibility nonnegative inequality multipliers and equality multipliers whose combination of constraint rows vanishes while their combination of right-hand sides is negative; for dual infeasibility a direction of negative cost that is in the null space of the Hessian and of the equality constraints and does not increase any inequality. A problem that has a solution is therefore never reported infeasible (except by vectors that meet these conditions within the tolerance, which a zero guess on normally scaled data never produces), and no such verdict is given when feasibility checking is switched off.",
     ["inputs", "configurations"],
     "every convex QP/OCP, guess and valid option set; the never-on-solvable part over problems built from a solution",
     "The tests check one infeasible and one unbounded QP, both by flag only, from a zero guess; they never look at the certificate and never try a feasible problem with nonzero multiplier guesses.",
     [C + "full_feasibility.cc", ALG],
     [("certificate test", C + "full_feasibility.cc: CheckFeasibility"),
      ("use of the step as certificate", ALG + ": Solve, CheckForInfeasibility")],
     observe=["exit flag and output vectors"])

prop("C04", "Infeasible and unbounded problems are detected and classified",
     "A problem whose constraints are contradictory is reported as primal infeasible when its objective is strongly convex (with another infeasibility verdict possible only if the problem also has an unbounded direction), and a feasible problem whose objective is unbounded below is reported as dual infeasible; it never ends in success with a point that does not satisfy the constraints. This holds for dense problems and optimal control problems, from any initial guess, for all but rare instances that run into the iteration limit.",
     ["inputs"],
     "every problem built with a Farkas certificate (default options) or with a feasible descent ray (reliable options), every guess",
     "One infeasible and one unbounded dense QP are tested, no infeasible or unbounded optimal control problem at all.",
     [C + "full_feasibility.cc", ALG, C + "full_variable.cc"],
     [("certificate test", C + "full_feasibility.cc: CheckFeasibility"),
      ("step between outer iterates", ALG + ": Solve")],
     observe=["exit flag"])

prop("C05", "Every call terminates within the iteration limits, cleanly",
     "Whatever finite data describing a convex problem, initial guess and option values are supplied - including extreme scaling and option values outside their admissible range - a solve terminates: it either returns one of the defined exit flags or throws a runtime error. The reported numbers of proximal and Newton iterations never exceed their limits, no subproblem uses more Newton iterations than its own limit, and the iteration-limit flag is returned exactly when a limit was reached.",
     ["inputs", "configurations"],
     "every well-sized problem with finite data (scales from 1e-8 to 1e8), guesses and arbitrary option values",
     "The tests run with default limits on problems that converge; they never reach a limit and never pass a hostile option.",
     [ALG],
     [("loop bounds", ALG + ": Solve, SolveProximalSubproblem"),
      ("option validation", ALG + ": ValidateOptions")],
     [("newton_iters_, prox_iters_", "iteration counters", ALGH)],
     ["exit flag, iteration counts, exceptions"])

prop("C06", "The solve summary describes exactly the point that is returned",
     "The reported residual is the penalized natural residual of the returned point (on success and on every iteration-limit exit), the reported initial residual is that of the supplied guess, and the returned margins equal right-hand side minus constraint matrix times the returned primal vector on every exit. Inequality multipliers are nonnegative whenever at least one outer iteration was completed and the verdict is not an infeasibility, a solve whose limits stop it after k outer iterations returns exactly the k-th outer iterate of the unlimited solve, and the supplied margins never influence anything.",
     ["inputs", "configurations", "histories"],
     "every problem, guess, valid option set and every exit path (success at the start, later success, stall, both iteration limits, infeasibility)",
     "The tests read the solution vectors of converged solves only; residual, margins and iteration counts are never compared with the returned point, and early exits are never taken.",
     [ALG, C + "full_variable.cc", C + "full_residual.cc"],
     [("output assembly", ALG + ": PrepareOutput, WriteVariable"),
      ("iteration-limit exits", ALG + ": Solve"),
      ("margin bookkeeping", C + "full_variable.cc: axpy")],
     observe=["SolverOut fields and output vectors"])

prop("C07", "The optimal control solver agrees with the dense solver",
     "An optimal control problem solved by the structure-exploiting solver and the equivalent dense QP solved by the dense solver, with the same options and guess, produce the same verdict and, up to rounding, the same iterates: primal variables ordered stage by stage as (state, control), equality multipliers per stage with the initial condition first, inequality multipliers and margins stage by stage. This holds for every horizon, state, control and constraint count, for time-varying data and non-zero cross terms.",
     ["inputs", "configurations"],
     "every small optimal control problem (well conditioned for iterate comparison), guess, option set, and any Newton-iteration budget",
     "The MPC tests use five fixed, mostly time-invariant problems and compare a few entries with stored values; the dense and MPC paths are never compared.",
     [C + "mpc_data.cc", C + "riccati_linear_solver.cc", C + "dense_cholesky_solver.cc", "fbstab/fbstab_mpc.h"],
     [("implicit problem operators", C + "mpc_data.cc"),
      ("Riccati recursion", C + "riccati_linear_solver.cc: Initialize, Solve")],
     observe=["outputs of both public solvers"])

prop("C08", "A solve depends only on its own problem, guess and options",
     "The result of a solve - every output vector, every reported number except the time, and everything printed except the time - is a function of the problem, the guess and the options set last. Earlier solves with the same object (of other problems, failed, interrupted by an exception or stopped at a limit), other solver objects running interleaved or in other threads, and the previous content of memory make no difference, bit for bit.",
     ["histories", "schedules", "inputs"],
     "every sequence of option updates, solves and failing calls on one object; interleaved and multi-threaded use of several objects",
     "Every test constructs a fresh solver and solves once.",
     [ALG, C + "full_residual.cc", C + "full_variable.cc", C + "dense_cholesky_solver.cc", C + "riccati_linear_solver.cc"],
     [("re-initialisation at the start of a solve", ALG + ": Solve"),
      ("merit buffer reset", ALG + ": SolveProximalSubproblem")],
     [("merit_buffer_, counters, workspaces", "state that survives a solve", ALGH)],
     ["outputs of FBstabDense / FBstabMpc"])

prop("C09", "Owning and reference interfaces are equivalent and memory safe",
     "Passing the problem or the variables by value-owning structures or by structures that reference caller memory (alone or mixed, at any alignment) gives the same results, bit for bit when the memory is equally aligned. The problem data and all memory next to the referenced buffers are never written, results land in exactly the referenced buffers, and no access is made outside the supplied arrays.",
     ["inputs", "configurations"],
     "every problem, size, guess, option set and combination of owning/reference structures, at arbitrary memory offsets",
     "The tests use owning structures almost exclusively and have no canaries or sanitizers.",
     ["fbstab/fbstab_dense.h", "fbstab/fbstab_dense.cc", "fbstab/fbstab_mpc.h", "fbstab/fbstab_mpc.cc", "tools/matrix_sequence.h", C + "mpc_data.h", C + "dense_data.h"],
     [("templated Solve and reference structures", "fbstab/fbstab_dense.h, fbstab/fbstab_mpc.h"),
      ("maps onto caller memory", "tools/matrix_sequence.h: MapMatrixSequence")],
     observe=["outputs, input buffers, canaries, sanitizer reports"])

prop("C10", "Ill-sized problems and guesses are rejected without side effects",
     "Constructing a solver with inadmissible sizes, or solving with problem data or a guess whose dimensions are inconsistent with each other or with the solver, throws a runtime error; consistent sizes never do. A rejected call leaves the guess and the data untouched, prints nothing, and the solver afterwards behaves exactly as if the call had not been made.",
     ["inputs", "histories"],
     "every single- or multi-field deviation of the dimensions from a consistent problem, at any point of a history of solves",
     "No enabled test passes a wrongly sized argument.",
     ["fbstab/fbstab_dense.h", "fbstab/fbstab_mpc.h", C + "dense_data.h", C + "mpc_data.cc", "fbstab/fbstab_dense.cc", "fbstab/fbstab_mpc.cc"],
     [("size validation", "fbstab/fbstab_dense.h: ValidateInputs, fbstab/fbstab_mpc.h: ValidateInputSizes"),
      ("data validation", C + "mpc_data.cc: ValidateInputs, " + C + "dense_data.h: DenseData")],
     observe=["exceptions, arguments after the call, later solves"])

prop("C11", "Options are sanitised to their admissible range and then honoured",
     "Setting options stores every field: an admissible value is kept unchanged and an inadmissible one is replaced by the nearest admissible value, with ordering constraints between bounds restored, so that any option set is accepted and applying the result again changes nothing. The latest set replaces the previous one entirely, a solve with any option set equals a solve with its sanitised version, and the stock default and reliable sets are themselves admissible and independent of what was set before.",
     ["inputs", "configurations", "histories"],
     "every combination of option values (in range, at the bounds, out of range, extreme) and every sequence of updates",
     "The tests set at most two or three options, always valid, and never read them back.",
     [ALG, ALGH, "fbstab/fbstab_dense.cc", "fbstab/fbstab_mpc.cc"],
     [("validation", ALG + ": ValidateOptions"), ("copying", ALG + ": UpdateParameters"),
      ("stock sets", ALG + ": DefaultParameters, ReliableParameters")],
     observe=["CurrentParameters, solves"])

prop("C12", "Problem-data operators equal the explicit matrices they stand for",
     "For dense and optimal control data, multiplying by the Hessian, the equality matrix, the inequality matrix or their transposes with any scalings, adding a multiple of the linear term or of a right-hand side, and the norm of the problem's linear terms, all give what explicit dense matrix arithmetic on the documented problem gives. When the accumulation factor is zero the previous content of the output is not read, and the data and the input vector are not modified.",
     ["inputs"],
     "every consistent problem data, vectors and scalings (0, 1, -1 and others)",
     "The component tests are not part of the build (they no longer compile) and used scalings 1 and -1 on one instance.",
     [C + "dense_data.cc", C + "dense_data.h", C + "mpc_data.cc", C + "mpc_data.h"],
     [("dense operators", C + "dense_data.cc"), ("implicit operators", C + "mpc_data.cc")],
     observe=["DenseData / MpcData methods"])

prop("C13", "Newton-step solvers solve the documented linearised system",
     "For dense and optimal control data, factoring at any iterate, proximal centre and positive regularisation and then solving with any right-hand side yields the solution of the documented linear system, whose complementarity rows use the gradient of the penalized Fischer-Burmeister function for the parameter set, and returns the margins of that solution. The system is the derivative of the proximal subproblem residual wherever that residual is smooth, one factorisation serves any number of right-hand sides, and neither the iterate nor the right-hand side is modified.",
     ["inputs", "histories"],
     "every problem data, iterate (interior, boundary and kink points), centre, regularisation, parameter, right-hand side, and sequences of factorisations and solves on one object",
     "Component tests are not built; the solver tests would hide a slightly wrong direction because the line search still converges.",
     [C + "dense_cholesky_solver.cc", C + "riccati_linear_solver.cc", C + "full_residual.cc"],
     [("Schur complement / LDL'", C + "dense_cholesky_solver.cc"),
      ("Riccati recursion", C + "riccati_linear_solver.cc"),
      ("generalised gradient", "PFBGradient in both files")],
     observe=["LinearSolver::Initialize / Solve"])

prop("C14", "Residual evaluations match their definitions",
     "The natural residual, the penalized natural residual and the proximal subproblem residual equal their published formulas for the linked problem, parameter, point, centre and regularisation, and the reported norm, component norms and merit are those of the stored residual after every evaluation, fill and negation. The natural residuals vanish exactly at primal-dual solutions, and the subproblem residual vanishes at a point that is its own centre exactly when that point is a solution.",
     ["inputs", "histories"],
     "every data, point, centre, parameter and sequence of evaluate / fill / negate / relink operations on one object",
     "Component tests are not built; solver tests see residuals only through convergence.",
     [C + "full_residual.cc", C + "full_residual.h"],
     [("definitions", C + "full_residual.cc: InnerResidual, NaturalResidual, PenalizedNaturalResidual, pfb"),
      ("cached norms", C + "full_residual.cc")],
     [("znorm_, lnorm_, vnorm_", "cached norms", C + "full_residual.h")],
     ["FullResidual accessors"])

prop("C15", "Primal-dual variables keep margins consistent under every operation",
     "Under any sequence of fill, margin initialisation, scaled addition, copy, projection of multipliers and relinking, a primal-dual variable behaves like the mathematical vector it represents: margins that were consistent with the linked problem stay equal to right-hand side minus constraint matrix times the primal part, copies are deep and independent, projection replaces exactly the negative inequality multipliers by zero, and the norm is the Euclidean norm of the primal and both dual parts. Operations that need problem data throw a runtime error if none is linked.",
     ["histories", "inputs"],
     "every operation sequence over several variables and problems",
     "Component tests are not built and were straight-line examples.",
     [C + "full_variable.cc", C + "full_variable.h"],
     [("margin update", C + "full_variable.cc: axpy, InitializeConstraintMargin"),
      ("deep copy", C + "full_variable.cc: Copy")],
     observe=["FullVariable accessors"])

prop("C16", "The certificate test accepts exactly the documented certificates",
     "Given a candidate and a tolerance, the feasibility test reports primal infeasible, dual infeasible, both or feasible exactly according to the documented conditions evaluated on the linked problem (null-space and sign conditions relative to the size of the candidate, strict sign of the linear form). The verdict depends on nothing else: not on the candidate's margins, not on earlier calls, and not on positive scaling of the candidate within floating-point range.",
     ["inputs", "histories"],
     "every data, candidate (valid, perturbed around the tolerance on each condition, scaled, zero) and tolerance; sequences of checks on one object",
     "No enabled test calls the feasibility checker; solver tests reach it with two certificates.",
     [C + "full_feasibility.cc", C + "full_feasibility.h"],
     [("conditions", C + "full_feasibility.cc: CheckFeasibility")],
     observe=["FullFeasibility::CheckFeasibility"])

prop("C17", "Matrix sequences store, copy, move and view data faithfully",
     "A matrix sequence holds length x rows x columns numbers in column-major order, one matrix after another; writes through any element view are read back through every other view and change nothing else; copying and assigning is deep, moving transfers the content, and views of a sequence or of caller memory alias that memory without copying. Invalid lengths, sizes, null memory and out-of-range indices throw exceptions.",
     ["histories", "inputs"],
     "every sequence of construct / write / copy / assign / move / view operations with arbitrary shapes",
     "Only used implicitly by the MPC tests, which fill a sequence once and never copy, move or index out of range.",
     ["tools/matrix_sequence.h"],
     [("owning container", "tools/matrix_sequence.h: MatrixSequence"),
      ("non-owning view", "tools/matrix_sequence.h: MapMatrixSequence")],
     observe=["class interface"])

prop("C18", "Printing follows the display level and never changes results",
     "Nothing is printed when display is off, only the final summary at the final level, one row per outer iteration plus a header and the summary at the iteration level, and per-Newton-iteration detail plus the summary at the detailed level; the printed verdict, iteration counts, limits, norms and tolerance are those of the solve. All output goes to the supplied stream only, messages are complete for any values, and the display level and the stream do not influence any result.",
     ["inputs", "configurations"],
     "every problem, exit path, option set (extreme magnitudes included) and display level, custom and default streams",
     "The tests run with display off or ignore what is printed.",
     [ALG, "tools/output_stream.h"],
     [("printing helpers", ALG + ": PrintIterHeader, PrintIterLine, PrintDetailed*, PrintFinal"),
      ("stream interface", "tools/output_stream.h")],
     observe=["messages received by the stream"])

prop("C19", "A solution used as initial guess is returned at once, unchanged",
     "If the supplied guess already meets the stopping tolerance, the solve reports success with zero proximal and zero Newton iterations, returns the guess bit for bit and equal initial and final residuals. In particular, re-solving from the point returned by a successful solve does this, and so does supplying an exact solution of the problem.",
     ["inputs", "histories"],
     "every solvable problem and option set; guesses that are exact solutions, returned solutions, or perturbed to just within tolerance",
     "No test warm starts the solver.",
     [ALG],
     [("test at the top of the proximal loop", ALG + ": Solve"),
      ("guess transfer", ALG + ": CopyIntoVariable, WriteVariable")],
     observe=["SolverOut and output vectors"])

prop("C20", "Equivalent problems have equivalent answers",
     "Reordering constraints or variables, negating equality rows, duplicating or adding slack constraints, shifting the primal variable, scaling the variables by powers of two, and splitting an equality into two inequalities transform a problem into an equivalent one; the verdict and optimal point transform accordingly. The optimal value is never improved by adding a constraint or worsened by removing one.",
     ["inputs"],
     "every strongly convex solvable problem (unique optimum) and every composition of these transformations; infeasible and unbounded problems for the verdict",
     "No test solves two related problems.",
     [ALG, C + "dense_cholesky_solver.cc", C + "full_residual.cc", C + "full_feasibility.cc", C + "dense_data.cc"],
     [("whole solver", ALG + ": Solve")],
     observe=["outputs of the dense solver on both problems"])

prop("C21", "The iterates are those of the published algorithm under its options",
     "The sequence of iterates follows the documented method: each outer iteration approximately solves the proximal subproblem centred at the current point with the configured regularisation, by Newton steps on the Fischer-Burmeister residual with an Armijo backtracking line search on the merit function - against the current merit, or the maximum of the last five within the subproblem in nonmonotone mode - followed by projection of the inequality multipliers. Tolerances, reduction factors, sufficient-decrease and backtracking parameters, and inner, line-search, Newton and proximal limits all act as documented, so an independent implementation with the same options visits the same points with the same iteration counts up to rounding.",
     ["inputs", "configurations"],
     "every moderately conditioned problem, guess and valid option set, stopped after any number of Newton or outer iterations",
     "The tests check final answers only; most option or globalisation errors still converge on the ten stored problems.",
     [ALG, C + "full_residual.cc", C + "dense_cholesky_solver.cc", C + "riccati_linear_solver.cc"],
     [("outer loop", ALG + ": Solve"), ("inner loop and line search", ALG + ": SolveProximalSubproblem"),
      ("nonmonotone memory", ALG + ": InsertMerit, MaxMerit")],
     observe=["outputs under iteration budgets"])

prop("C22", "The core algorithm drives any component set by its documented contract",
     "Built from user-supplied variable, residual, linear-solver and feasibility components, the core algorithm uses only their documented operations: it gives every component the current problem and the configured parameter before use, factors before it solves, passes consistent points and the configured regularisation and tolerance, and asks for a feasibility verdict once per completed outer iteration unless checking is disabled. A linear solver that reports failure at any step makes the solve throw a runtime error without touching the guess, every verdict of the feasibility component is reported as the matching exit flag with the step as output, and missing components are rejected at construction.",
     ["fault_sequences", "histories", "inputs"],
     "every position of an injected factorisation/solve failure or feasibility verdict in the run of any generated problem, followed by further solves",
     "Fault injection and custom components are never exercised by the tests.",
     [ALG, ALGH, C + "abstract_components.h"],
     [("component wiring", ALG + ": constructor, Solve"),
      ("failure handling", ALG + ": SolveProximalSubproblem"),
      ("verdict mapping", ALG + ": CheckForInfeasibility")],
     observe=["calls received by instrumented components, exceptions, outputs"])

prop("C23", "Components reject misuse with the documented exceptions",
     "Using a component without linked data, with objects of inconsistent sizes, with a null output, with non-positive sizes or with a non-positive regularisation throws a runtime error exactly as documented, instead of reading or writing out of bounds, and leaves the component usable. Correct use never throws.",
     ["inputs", "histories"],
     "every component (data, variable, residual, linear solvers, feasibility check), every documented misuse, at any point of a history of correct calls",
     "Component tests are not built; none of the documented exceptions is exercised.",
     [C + "dense_data.h", C + "mpc_data.cc", C + "full_variable.cc", C + "full_residual.cc", C + "full_feasibility.cc", C + "dense_cholesky_solver.cc", C + "riccati_linear_solver.cc"],
     [("argument checks", "constructors and methods of all components")],
     observe=["exceptions, sanitizer reports"])

prop("C24", "The sparse factorisation wrapper solves the systems it factored",
     "For any symmetric quasi-definite matrix in upper-triangular compressed-column form, analysing its pattern, factoring it and solving in place yields the solution of the linear system for any right-hand side. One analysis serves any number of matrices with the same pattern, each solve uses the most recent factorisation, separate objects are independent, and no work memory is overrun.",
     ["inputs", "histories"],
     "every size, sparsity pattern and value set, and every sequence of factor / solve calls on several objects",
     "Its test is not part of the CMake build, and is one 10 x 10 example.",
     ["tools/qdldl/qdldl_wrapper.h"],
     [("memory sizing and calls", "tools/qdldl/qdldl_wrapper.h")],
     observe=["solution vectors, sanitizer reports"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
