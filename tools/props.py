# ---------------------------------------------------------------- autodiff
p("A01", "Derivative rules of every operation are exact",
  "For every elementary operation an expression can contain, the local derivative used numerically and the derivative expression used symbolically both equal the true partial derivative of that operation's value times the incoming adjoint, at every point where the operation is differentiable.",
  "inputs programs", "every operation, every operand, every adjoint, every real operand value where the operation is differentiable, for constant and non-constant operands",
  "A test evaluates a derivative at a few points; an error that is invisible there (a sign on one branch, a swapped factor, an unusual operand kind) survives.",
  [EXP], [("numeric rules grad_l/grad_r", EXP), ("symbolic rules grad_expr_l/grad_expr_r", EXP), ("gradient expression tree", GT)], "value of gradients, Jacobians and Hessians")
p("A02", "Building and simplifying expressions preserves their value",
  "Whatever constant folding, pruning of zeros and ones or rewriting happens while an expression is built, the resulting expression's value equals the mathematical operation applied to the operands' values.",
  "inputs programs", "every operation or math function, every combination of constant and non-constant operands, every operand value where the operation is defined",
  "Simplification branches depend on operand kinds and special constant values; tests only sample some of the combinations.",
  [EXP], [("node-building operators and functions", EXP), ("constants", EXP)], "the value of a variable after construction and after update")
p("A03", "Reported expression type never understates the degree",
  "The type reported for an expression (constant, linear, quadratic, nonlinear) is never lower than the polynomial degree of the function it computes, and sums, differences and products of such operands report exactly the degree class that follows from their operands.",
  "inputs programs", "every way of building an expression from operands of every type",
  "Solver selection and derivative caching trust the type; an understated type gives silently stale derivatives only for particular expression shapes.",
  [EXP, I + "autodiff/expression_type.hpp"], [("type() of each node class", EXP), ("simplifications while building", EXP)], "the type() of variables, constraint and cost types")
p("A04", "Variable operators and functions apply their operands in order",
  "Each arithmetic operator, compound assignment and math function on variables, for every overload and mix of variables and numbers, denotes exactly the named operation with its operands in the written order; compound assignment changes only its left operand.",
  "inputs programs", "every overload of every operator and math function, any operand kinds and values",
  "Each overload is a separate code path; swapped or dropped operands in one mixed overload are invisible to tests of the others.",
  [VAR], [("operator and function overloads", VAR)])
p("A05", "Reading a variable gives the current value of its inputs",
  "Reading the value of a variable, matrix element or constraint expression always reflects the latest values set on the independent variables it depends on, and setting a value affects only that variable.",
  "histories", "every sequence of set-value and read operations over any expression graph",
  "Staleness needs a particular order of reads and writes over a shared graph.",
  [VAR, VM, GR], [("value()", VAR), ("update of an evaluation list in dependency order", GR), ("set_value", VAR)])
p("A06", "Graph traversal is topological and leaves no residue",
  "Evaluating or differentiating an expression visits every reachable node exactly once, parents before children in the derivative pass and after children in the evaluation pass, and leaves all shared scratch state (visit counters, adjoints) as it found it so that later passes over shared subexpressions are correct.",
  "programs histories", "every expression graph (shared subexpressions, repeated operands) and every sequence of passes over it",
  "Residue is only visible when a later pass shares nodes with an earlier one.",
  [GR, GT, EXP], [("topological sort with counters", GR), ("adjoint accumulation", GT), ("row extraction", EXP)])
p("A07", "Gradient, Jacobian and Hessian entries are complete and fresh",
  "The derivative objects' value always equals the true derivative matrix at the current variable values: every row and column is in its place, entries cached because they are constant really are constant, everything else is recomputed on each call, and symmetric Hessians keep exactly the requested triangle.",
  "inputs programs histories", "every function vector and variable vector, mixed constant/linear/nonlinear rows, repeated calls after value changes",
  "Cached and recomputed rows differ only after a value change and only for particular row mixes.",
  [JAC, HES, GRD, GT], [("cached constant part", JAC), ("nonlinear rows", JAC), ("triangle selection", HES)])
p("A08", "Symbolic derivatives have the same structure as numeric ones",
  "The derivative matrix returned as expressions has the same dimensions and, entry by entry, denotes the same derivative as the numeric derivative matrix, with zero for entries that do not depend on the variable.",
  "inputs programs", "every function vector and variable vector",
  "The two code paths are separate and tests compare them on a few functions.",
  [JAC, HES, GRD, GT], [("get()", JAC), ("gradient expression tree", GT)])
p("A09", "Handle reassignment does not disturb existing expressions",
  "Assigning to or copying a variable handle rebinds only that handle: expressions built earlier keep denoting what they denoted, and copies refer to the same underlying variable so that setting a value through one is seen through the other.",
  "histories programs", "every sequence of copies, moves, assignments and set-value operations",
  "Aliasing bugs require a specific sequence of copies and assignments.",
  [VAR, U + "intrusive_shared_ptr.hpp"], [("copy/assign of handles", VAR)])
p("A10", "Constraint operators keep orientation, shape and meaning",
  "Each comparison operator produces the constraint expressions whose sign convention means what was written (equalities as a difference, inequalities as nonnegative quantity), elementwise for matrices and broadcast for scalars, bounds produce both sides, concatenation keeps every constraint, and a constraint's truth value is the written comparison at the current values.",
  "inputs programs", "every comparison operator, every pairing of scalar, matrix, block and numeric operands, any dimensions",
  "Orientation is chosen per overload; tests cover a few pairings.",
  [VAR], [("make_constraints and operators", VAR), ("bounds", VAR), ("constraint containers and bool conversion", VAR)])
# ---------------------------------------------------------------- matrices
p("M01", "Block, slice, segment, row and column views address the right cells",
  "A view of a matrix (block, slice with steps, segment, row, column, and views of views) has the documented dimensions and its element at a position is exactly the parent's element at the offset-and-step position.",
  "inputs programs", "every parent size, offset, extent, step, and nesting of views",
  "Index errors show only for nonsquare sizes, nonzero offsets or nested, strided views.",
  [VM, VB], [("views of matrices", VM), ("views of views", VB)])
p("M02", "Matrix arithmetic matches its mathematical definition",
  "Sum, difference, product, scaling, negation, transpose, elementwise map and reduce, and their in-place forms give, element by element, the result of linear algebra for every operand pairing (variable matrices, views, numeric matrices, scalars), including when an operand is the destination itself or one of its own elements.",
  "inputs programs", "every operand pairing, every dimension including nonsquare, every element position, aliased operands",
  "Index swaps are invisible on square or symmetric samples; aliasing needs a specific call.",
  [VM, VB], [("operators", VM), ("in-place operators", VB)])
p("M03", "Views alias their parent and copies do not",
  "Writing through a view changes exactly the addressed cells of its parent and nothing else; constructing a matrix from a matrix, view, span or numbers makes an independent container with the same elements in row-major order.",
  "inputs histories", "every assignment form to views and every construction form, any offsets and dimensions",
  "Requires checking cells that should not change, for all offsets.",
  [VM, VB], [("assignment to views", VB), ("constructors", VM)])
p("M04", "Slices follow Python's rules",
  "A slice with any combination of omitted, negative or out-of-range start, stop and step selects the same count and first element as Python's slicing of a sequence of that length.",
  "inputs", "every start, stop, step (or omitted) and length with nonzero step",
  "The space of sign and range combinations is large; tests sample it.",
  [SL], [("Slice::adjust and constructors", SL)])
p("M05", "Solving a linear system returns a solution",
  "For invertible systems the returned matrix X has as many columns as the right-hand side and satisfies A X = B identically in the entries of A and B, for every closed-form size.",
  "inputs", "all entries of A and B with nonzero determinant, any number of right-hand sides",
  "Tests use a few numeric systems; a wrong cofactor can cancel there.",
  [VM, "src/autodiff/variable_matrix.cpp"], [("solve", VM)])
p("M06", "Matrix builders place every element",
  "Zero, one, constant and identity matrices and block concatenation have the right dimensions and every element in its place, and the iterators of matrices and views visit every element once in row-major order in both directions.",
  "inputs", "every dimension and every list of blocks",
  "Placement bugs show only with several differently sized blocks.",
  [VM, VB], [("factories and block()", VM), ("iterators", VM)])
# ---------------------------------------------------------------- solver
p("S01", "Success is reported only for a verified solution",
  "A solver returns success only when the optimality error computed from the current iterate's own values and derivatives is within the requested tolerance; an error that is not a number never counts as success.",
  "inputs histories", "every problem, every iteration history, every tolerance",
  "Tests check problems that converge; they cannot show no other path returns success.",
  [IPM, SQP, NEW], [("outer loop condition and return", IPM), ("final status", SQP)])
p("S02", "Iteration quantities belong to the current iterate",
  "At the start of every iteration, the values, gradients, Jacobians and Hessian the step is computed from are those of the current point and multipliers, whatever way the previous step ended (accepted, corrected, restored).",
  "histories", "every sequence of step kinds",
  "A stale derivative still often converges; it needs a specific step kind to show.",
  [IPM, SQP, NEW], [("updates after acceptance", IPM), ("updates after acceptance", SQP), ("updates after acceptance", NEW)])
p("S03", "Steps keep slacks and multipliers strictly inside their bounds",
  "The step length limit is the largest value within (0, 1] that keeps every component at least a fixed fraction of its distance from zero, over all components; every update of slacks and inequality multipliers uses a length so limited, except that slacks may be set to feasible constraint values, which count only if the log barrier at them is finite (that is, they are strictly positive).",
  "inputs histories", "every vector, direction and fraction, every kind of step",
  "Requires directions where a late component binds, and rare step kinds.",
  [UT + "fraction_to_the_boundary_rule.hpp", IPM], [("fraction-to-the-boundary rule", UT + "fraction_to_the_boundary_rule.hpp"), ("its uses", IPM)])
p("S04", "Limits, callbacks and failures map to the documented status",
  "In every iteration the solver checks divergence (an entry of x or s that is not finite, or larger than 1e10 in magnitude), callback stop, iteration limit and timeout and returns the documented status for each; no further iteration starts once a limit has been reached, a stop requested by a callback during feasibility restoration included, and every callback is shown every iteration with the current iterate.",
  "histories configurations", "every iteration and every order of events",
  "Tests hit each limit once on one solver.",
  [IPM, SQP, NEW, SV + "exit_status.hpp"], [("iteration-start checks", IPM), ("end-of-iteration checks", IPM)])
p("S05", "A trial point is accepted only if finite and acceptable",
  "The iterate only moves to a trial point whose cost and constraint values are all finite and which the filter (or merit decrease) accepts, or through a declared fallback that requires a decrease of the error.",
  "histories inputs", "every step and every trial",
  "Needs a problem that evaluates to a non-finite value exactly at a trial point.",
  [IPM, SQP, NEW], [("line search", IPM)])
p("S06", "The filter accepts and records steps by its documented rule",
  "A trial entry is accepted exactly when it is finite, its violation is at most the cap, it passes the Armijo condition when the current violation is small and switching applies or sufficient decrease otherwise, and no stored entry dominates it; accepted iterates are recorded with the documented margins unless switching and Armijo both hold, removing exactly the entries the new one dominates; reset empties the filter.",
  "inputs histories", "every sequence of entries",
  "Acceptance depends on numeric orderings that tests sample sparsely.",
  [UT + "filter.hpp"], [("Filter", UT + "filter.hpp")])
p("S07", "The Newton-KKT system is assembled and unpacked as documented",
  "The matrix and right-hand side solved for a step are the documented reduction of the full KKT system, and the recovered primal, slack and multiplier steps satisfy that full linear system.",
  "inputs", "every gradient, Jacobian, Hessian, slack, multiplier and barrier value",
  "A wrong block or sign can still converge on simple problems, only slower or to a wrong multiplier.",
  [IPM, SQP, NEW, UT + "append_as_triplets.hpp"], [("assembly", IPM), ("step recovery", IPM)])
p("S08", "A factorization is accepted only with the ideal inertia",
  "The regularized factorization reports success only when the matrix it factorized, which is the given one plus the regularization it reports, has exactly as many positive, negative and zero eigenvalues as required (the solvers require one positive per decision variable, one negative per equality constraint and none zero, and interior_point regularizes the constraints only outside feasibility restoration); otherwise it retries with a regularization that stays positive, starts below the one that last worked and grows in the direction that counters the wrong eigenvalues, and reports failure once it exceeds a finite limit.",
  "inputs histories", "every matrix, every sequence of factorizations",
  "Requires matrices of particular inertia and sequences of failures.",
  [UT + "regularized_ldlt.hpp", UT + "inertia.hpp", IPM, SQP, NEW], [("RegularizedLDLT::compute", UT + "regularized_ldlt.hpp"), ("construction of the factorization", IPM)])
p("S09", "Inertia counts partition the eigenvalues by sign",
  "The inertia of a vector or of a factorization's diagonal counts every entry exactly once: positive above machine epsilon, negative below its negative, zero otherwise; inertias are equal only if all three counts are.",
  "inputs", "every vector and matrix",
  "Zero and sign edge cases.",
  [UT + "inertia.hpp"], [("Inertia", UT + "inertia.hpp")])
p("S10", "The optimality error measures every optimality condition",
  "The reported error is the documented maximum over stationarity, feasibility and complementarity residuals with the documented scaling, none omitted, and the unscaled variants undo the problem scaling.",
  "inputs", "all vectors and matrices",
  "An omitted term only matters for problems where it dominates.",
  [UT + "kkt_error.hpp"], [("kkt_error", UT + "kkt_error.hpp")])
p("S11", "Problem scaling is applied consistently",
  "Cost and constraint scaling factors follow the documented rule, and the solvers are handed values and derivatives of the scaled cost and constraints that all use the same factors.",
  "inputs", "all gradients and Jacobians",
  "Scaling is inactive on well-scaled test problems.",
  [UT + "problem_scaling.hpp" , IPM, SQP, NEW], [("scaling", IPM)])
p("S12", "Infeasibility is reported only at a stationary infeasible point",
  "Local infeasibility is reported exactly when the constraint violation is nonnegligible while its gradient vanishes to the documented tolerance, considering every constraint of the respective kind; a matrix or vector counts as finite only if every entry is.",
  "inputs", "all constraint values and Jacobians",
  "The boundary of the rule is not sampled.",
  [UT + "is_locally_infeasible.hpp"], [("tests", UT + "is_locally_infeasible.hpp")])
p("S13", "Feasibility restoration solves the documented subproblem",
  "When restoration is invoked, its subproblem has the documented variables, cost, constraints and exact derivatives of them, starts from the current point, and hands back the original variables' part of its result with the status documented for it.",
  "inputs histories", "all current points and problem data",
  "Restoration is rarely reached in tests and wrong derivatives merely slow it.",
  [UT + "feasibility_restoration.hpp"], [("feasibility_restoration", UT + "feasibility_restoration.hpp")])
p("S14", "Bound detection and projection are sound",
  "A constraint is treated as a bound only if it is linear in exactly one variable; the detected bound equals the constraint's solution set, conflicting bounds are exactly those with lower above upper, and projection leaves a variable alone when it lies between its bounds by more than the documented margin, and otherwise moves it to a point between them.",
  "inputs", "all linear single-variable constraints and all points",
  "Sign of the coefficient, equality of bounds and infinite bounds are combinations tests sample.",
  [BND, PR], [("get_bounds", BND), ("project_onto_bounds", BND)])
p("S15", "Multiplier estimates and triplet helpers keep their contract",
  "The initial multiplier estimate solves the documented least-squares problem over the current derivatives, and helpers that copy matrices into triplet lists reproduce every entry once at its offset, in column-major order.",
  "inputs", "all Jacobians, gradients, slacks, offsets",
  "Estimates only change speed on easy problems.",
  [UT + "lagrange_multiplier_estimate.hpp", UT + "append_as_triplets.hpp"], [("estimate", UT + "lagrange_multiplier_estimate.hpp")])
p("S16", "The barrier parameter and the filter's resets follow their documented rule",
  "After each step, while the tolerance is not met, interior_point reduces the barrier parameter μ exactly while it is above μ_min (a tenth of the tolerance times the cost's scale) and the scaled KKT error of the new iterate for the current μ is at most 10 μ; μ becomes max(μ_min, min(μ/5, μ^1.5)), and every reduction empties the filter and sets the fraction to the boundary to max(0.99, 1 − μ). In interior_point and sqp the filter is otherwise emptied only in the line search, when at least four full steps in a row were rejected, the filter's cap exceeds a tenth of the current constraint violation and the filter caused the last rejection, the cap then being lowered to a tenth; only rejected full steps are counted, one each, and only accepting a full step restarts the count. The filter's limits on the violation come from the 1-norm violation of the starting point.",
  "inputs histories", "all iterates, tolerances, scales and rejection histories",
  "A wrong rule still converges on easy problems; it shows as stalls or lost accuracy on hard ones.",
  [IPM, SQP], [("update_barrier_parameter_and_reset_filter and the loop that calls it", IPM), ("full_step_rejected_counter", IPM), ("full_step_rejected_counter", SQP)])
# ---------------------------------------------------------------- problem
p("P01", "The cost solved is the one the user stated",
  "The objective is the last expression given to minimize or maximize, maximized objectives are negated exactly once, and a problem without an objective minimizes zero subject to its constraints.",
  "histories programs", "every sequence of calls",
  "Sequence dependent.",
  [PR], [("minimize/maximize", PR), ("solve", PR)])
p("P02", "Solving writes the solution back to the decision variables",
  "After a solve that ran a solver, each decision variable holds its component of the final iterate in order of creation, whatever the exit status, and all declared decision variables and constraints took part.",
  "histories programs", "every problem and exit path",
  "Tests look at success exits.",
  [PR], [("solve", PR)])
p("P03", "The solver is chosen by what the problem contains",
  "Problems with inequality constraints go to the interior-point method, with only equalities to SQP, with none to Newton; a solve is skipped only when cost and constraints are all absent or constant; bounds of the inequality constraints that conflict are reported as global infeasibility instead of solving; the options and the numbers of variables and constraints reach the solver unchanged.",
  "programs configurations", "every combination of constraint kinds, types and bounds",
  "Combinatorial.",
  [PR], [("solve", PR)])
p("P04", "Callbacks are kept, run in order and may stop the solve",
  "Persistent callbacks survive clearing, ordinary callbacks are removed by it, every solver is handed all of them, ordinary ones first, and a callback asks for a stop exactly when it returns true; callbacks without a result never do, nor does recording sparsity patterns.",
  "histories", "every sequence of adding and clearing callbacks",
  "Sequence dependent.",
  [PR], [("add_callback, clear_callbacks, add_persistent_callback", PR)])
p("P05", "Optimal control transcription states the documented equations",
  "For every transcription method, dynamics kind and timestep mode, the generated constraints are the documented integration or collocation equations between consecutive steps for every step, with each step's time, state, input and duration in its place.",
  "configurations inputs", "every number of steps, states, inputs, all transcription methods, dynamics types and timestep methods",
  "Tests use a few systems where wrong stage coefficients or an off-by-one step merely change accuracy.",
  [OCP], [("constraint generation", OCP)])
p("P06", "Multistart returns the best outcome",
  "Multistart runs the solver once per initial guess and returns a successful result whenever some guess succeeds, and among equally successful ones (all of them failures included) the lowest cost.",
  "inputs schedules", "every list of guesses and every combination of outcomes",
  "Needs specific mixes of failed and successful outcomes.",
  [MS], [("multistart", MS)])
# ---------------------------------------------------------------- utilities
p("U01", "Shared ownership counts are balanced",
  "Every copy, move, conversion and destruction of an owning pointer keeps the reference count equal to the number of owners, so an object is destroyed exactly when its last owner goes away and never while one remains, including self-assignment and assignment from inside the owned object.",
  "histories programs", "every sequence of pointer operations, aliased operands included",
  "Needs aliasing sequences and leak-free accounting.",
  [U + "intrusive_shared_ptr.hpp", EXP], [("IntrusiveSharedPtr", U + "intrusive_shared_ptr.hpp"), ("inc/dec_ref_count", EXP)])
p("U02", "The pool never hands out live memory",
  "An allocation never returns a block that is still in use, blocks are large enough for the request, and a freed block becomes available again.",
  "histories", "every sequence of allocations and deallocations",
  "Sequence dependent.",
  [U + "pool.hpp"], [("PoolResource", U + "pool.hpp")])
p("U03", "Callable wrappers and scope guards act exactly once",
  "A function reference calls exactly the callable it was last bound to with the given arguments in order; a scope guard runs its action exactly once unless released or moved from.",
  "histories programs", "every sequence of binding, moving, releasing",
  "Move and release sequences.",
  [U + "function_ref.hpp", U + "scope_exit.hpp"], [("function_ref", U + "function_ref.hpp"), ("scope_exit", U + "scope_exit.hpp")])
p("U04", "Sparsity recordings round-trip between writer and reader",
  "The binary layout written for sparsity patterns is the layout the shipped reader parses: same field order, widths and byte order, and each recorded entry keeps its position and sign. Every solver's recordings hold the matrix, shape and labels they announce.",
  "inputs", "every matrix and title",
  "Writer and reader are in different languages; no test reads what is written.",
  [U + "spy.hpp", "tools/spy.py", PR], [("Spy", U + "spy.hpp"), ("reader", "tools/spy.py"), ("recordings", PR)])
p("U05", "Profiler numbers mean what they say",
  "Each profiled section counts one solve per start/stop pair, durations are stop minus start, totals are sums of them and averages are total over count.",
  "histories", "every sequence of start and stop",
  "Timing values are not asserted.",
  [U + "profiler.hpp"], [("profilers", U + "profiler.hpp")])
p("U06", "Status names and enumerations agree everywhere",
  "Every exit status and expression type has its own message, and the C++ definition, its formatter, the Python bindings and the documentation list the same members with the same numbers.",
  "configurations", "every enumerator",
  "Cross-language tables are not compared by tests.",
  [SV + "exit_status.hpp", I + "autodiff/expression_type.hpp", "python/cpp"], [("enumeration and formatter", SV + "exit_status.hpp"), ("bindings", "python/cpp"), ("documentation", "docs")])
p("U07", "Python bindings expose the operations they name",
  "Each Python method or operator forwards to the C++ operation of that name with its operands in order, and in-place operators modify their left operand. Indexing and slicing follow Python's rules on both axes. A view returned to Python keeps the object it views alive, and keyword arguments reach the parameter they name.",
  "programs inputs", "every binding",
  "Python tests need a built extension, which is not part of the C++ tests.",
  ["python/cpp"], [("bindings", "python/cpp")])
# ---------------------------------------------------------- not applicable
p("N01", "Solvers converge to a local optimum of well-posed problems",
  "For smooth, feasible, well-scaled problems the solvers terminate with success at a local optimum within the default limits.",
  "inputs", "all well-posed problems", "Convergence quantifies over all problems and trajectories.",
  [IPM, SQP, NEW], [("solver loops", IPM)])
p("N02", "Results are accurate to rounding",
  "Values and derivatives agree with exact arithmetic up to a small multiple of rounding error.",
  "inputs", "all operand values", "Rounding depends on every operand value.",
  [EXP], [("floating-point evaluation", EXP)])
p("N03", "Independent problems may be solved on different threads",
  "Solving unrelated problems concurrently gives the same results as solving them one after another: the library keeps no mutable state that two threads, or two solves, share.",
  "schedules", "all interleavings of solves on separate problems", "Interleavings cannot be enumerated by tests.",
  [PR, U + "pool.hpp", MS], [("shared pools", U + "pool.hpp")])

NA = {
 "N01": "Convergence is a statement about numeric trajectories over all problems; no structural part of the code is a necessary condition that is not already claimed (S01-S15). Static analysis cannot bound it.",
 "N02": "Rounding error of compositions of libm and Eigen calls depends on operand values and evaluation order; the analysis reasons over real arithmetic, so it cannot bound rounding.",
}
