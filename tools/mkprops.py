"""Writes /verif/properties.jsonl (kept as a script so that the lines stay valid JSON)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

NODES, LAG = "qmat/nodes.py", "qmat/lagrange.py"
QC, BUT, COL = "qmat/qcoeff/__init__.py", "qmat/qcoeff/butcher.py", "qmat/qcoeff/collocation.py"
QD, ALG, TS, DIAG, MIN = ("qmat/qdelta/__init__.py", "qmat/qdelta/algebraic.py", "qmat/qdelta/timestepping.py",
                          "qmat/qdelta/diag.py", "qmat/qdelta/mincoeffs.py")
UT, NUM, SDC = "qmat/utils/__init__.py", "qmat/utils/num.py", "qmat/utils/sdc.py"

p("C01", "Returned coefficient arrays belong to the caller alone",
  "Every array handed out by the coefficient-generating entry points (the generic Q and Q-Delta generation functions, a generator's own coefficient-generation methods called with their defaults, and the Lagrange/node matrix builders) is exclusively the caller's: it shares no memory with a Butcher table kept by the package, with a generator's internal state or cache, with another returned array, or with an array passed in. Overwriting such a result, or the tables of one generator object (which are its own, not those of its class), therefore never changes what any later call on another object returns, and overwriting a result never changes what the same object returns later.",
  ["inputs", "histories"], "every registered scheme and approximation, every form / iteration / flag combination, every later call after the caller overwrote an earlier result",
  "tests compare values of fresh results; none overwrites a returned array and asks again, and an alias is invisible until somebody writes through it",
  [QC, BUT, COL, QD, ALG, TS, DIAG, LAG, NODES],
  [("coefficient generation copies its tables", QC), ("default copy on the cached Q-Delta matrix", QD), ("per-instance Butcher tables", BUT)])

p("C02", "Arguments passed in are never modified",
  "No public function, constructor, method or property of the package modifies an array, list or dictionary that the caller passed in, whatever the options; in particular node vectors, Q matrices, interpolation points, lists of approximation names, iteration lists, weights and numerical solutions are unchanged after the call, on normal and on exceptional return.",
  ["inputs", "configurations"], "every public callable, every path through it, every mutable argument",
  "tests pass throw-away arguments and never look at them after the call",
  [LAG, NODES, QC, QD, ALG, TS, DIAG, NUM, SDC],
  [("conversion of arguments with copying where they are then scaled in place", LAG), ("list completion in the generic Q-Delta function", QD)])

p("C03", "Results depend only on the arguments, not on earlier calls",
  "The result of a coefficient-generating call (generic function, or a method of a generator) is a function of its arguments and of the generator's construction parameters alone: earlier calls in the same process, with the same or other parameters, on the same or another generator, never influence it, and never modify an array handed out before. After import no call changes module-level or class-level state, registries, or process-global numeric settings (floating-point error state, warnings filters, random state).",
  ["histories", "inputs"], "every sequence of calls, over every generator and every parameter difference between two calls",
  "a test calls each entry point in one fixed order; a stale or incompletely keyed cache needs a particular pair of calls that differ in one parameter",
  [QC, QD, DIAG, LAG, BUT, COL, UT],
  [("per-instance cache of Q-Delta keyed by the iteration", QD), ("memo of the MIN-SR-S matrix", DIAG), ("class tables read-only after registration", BUT)])

p("C04", "Q-Delta matrices have their promised triangular structure",
  "For every number of nodes, every Q matrix or node vector, and every iteration, each Q-Delta approximation except the exact one is lower triangular; the diagonal (parallel) families are exactly diagonal; and the explicit ones (Forward Euler, the second-order leap-frog type, Picard) are strictly lower triangular. Hence sweeps can be solved node after node, diagonal ones in parallel, and explicit ones without any solve.",
  ["inputs"], "every number of nodes M, every Q / nodes / interval, every iteration index",
  "tests look at a few node counts on [0,1] with the default interval and only at some of the families",
  [ALG, TS, DIAG, NUM], [("matrix assembly of each approximation", TS), ("LU / LDU / triangular part", ALG), ("diagonal assembly", DIAG)])

p("C05", "Coefficients follow a shift and rescaling of the time interval",
  "For any interval [tLeft, tRight], collocation nodes move with the interval (shift and scale), the Q and S matrices and weights are invariant under a shift and scale linearly with its length, and the right-boundary interpolation coefficients, the answer whether the right boundary is a node, and the declared order are invariant under both. The same shift invariance and linear scaling hold for the Q-Delta matrices and delta-tau coefficients built from nodes and a left bound (time-stepping and node-based diagonal families, including when they are extracted from a collocation object) and for those built from Q.",
  ["inputs"], "every real tLeft < tRight, every node distribution and count, every approximation of those families",
  "the existing tests use the unit interval for almost all cases, where a forgotten bound or a hard-coded 0 or 1 is invisible",
  [COL, QC, TS, ALG, DIAG, LAG], [("scaling of the reference nodes", COL), ("integration from the left bound", COL), ("left bound of time-stepping approximations", TS)])

p("C06", "Lagrange matrices are consistent for any scale, order and duplicates",
  "For any finite set of points (in any order, at any scale, with or without duplicates) the interpolation, integration and derivative matrices pair each column with the point at that position and each row with the requested time or interval, whatever weight-computation and quadrature option is chosen; they do not depend on the common scaling of the barycentric weights and behave under a change of the time unit as their physical dimension says (dimensionless, time, inverse time, inverse time squared). With duplicated points, columns of the points not selected by the chosen strategy are zero and, when duplicate handling is switched off, the columns are exactly those of the distinct points.",
  ["inputs", "configurations"], "every point set, every unit of time, every option combination of the approximation object",
  "tests use increasing, O(1)-sized point sets; wrong pairing shows only for unsorted points and absolute tolerances only for tiny or huge grids",
  [LAG], [("barycentric weights and formula", LAG), ("duplicate handling", LAG), ("line re-use in the sparse interpolation", LAG)])

p("C07", "Butcher tables satisfy the order conditions of their declared order",
  "Every registered Runge-Kutta scheme has consistent table dimensions, stage times equal to the row sums of its matrix, and satisfies all rooted-tree order conditions (not only those visible on linear problems) up to its declared order; its embedded weights satisfy them up to the declared embedded order.",
  ["programs", "inputs"], "every registered scheme and every rooted tree up to the declared order, i.e. every smooth right-hand side",
  "the convergence tests only use the linear scalar test problem, on which stage times and most order conditions play no role",
  [BUT], [("class tables A, b, c, b2 and declared order", BUT)])

p("C08", "Padding a Butcher table keeps the method it describes",
  "With left, right or both paddings, every Runge-Kutta table keeps the original coefficients in place, gets the extra stages at time 0 and/or 1 with zero weights (embedded weights included) and the last padded row equal to the step update, so that nodes, weights, embedded weights, Q and S have consistent sizes and the padded method produces the same step as the original one. Any other padding value is rejected.",
  ["configurations"], "every registered scheme times every padding option times every output form and flag",
  "tests build padded tables for some options and compare Q/weights only; embedded weights and N2N forms of padded tables are not examined",
  [BUT, QC], [("padding in the Runge-Kutta constructor", BUT)])

p("C09", "Implicit-explicit partner schemes form consistent additive methods",
  "The two members of each documented IMEX pair share the same stage times, the explicit member is strictly lower triangular and the implicit member lower triangular, and the pair satisfies all coupling order conditions of the additive method up to the order documented for the pair.",
  ["programs", "inputs"], "every documented pair and every two-coloured rooted tree up to the pair's order",
  "tests check each member separately on a linear scalar problem; the coupling conditions are never evaluated",
  [BUT], [("ARK scheme class tables", BUT)])

p("C10", "Every published name resolves to exactly its own scheme",
  "Each documented name and alias of a Q scheme, Runge-Kutta scheme or Q-Delta approximation resolves, through the package's registries and generic functions, to the one implementation it names, in each registry it is documented for; no two implementations compete for a name, a second registration of a taken name is rejected, an unknown name is rejected with a ValueError, and listing the classes returns each implementation once.",
  ["configurations", "programs"], "every published name and alias of the package and every registration order of the submodules",
  "tests iterate over whatever the registries contain, so a missing, swapped or shadowed name leaves them green",
  [QC, QD, BUT, UT, "pyproject.toml"], [("registration decorators", UT), ("registries", QC), ("registries", QD)])

p("C11", "Sweep index and form reach each approximation unchanged",
  "Asking for coefficients of iteration k (scalar or list, zero-to-node or node-to-node, through any entry point) yields the matrix of exactly that k and form, in the order asked; generic calls over several sweeps use k=1,2,...,nSweeps, list entry number k for sweep k, and repeat the last listed approximation. An approximation is marked iteration-dependent exactly when its matrices differ with k, in which case omitting k means the first iteration.",
  ["inputs", "configurations"], "every k, every list of ks, every nSweeps and list of approximation names, every registered approximation, both forms, with and without delta-tau",
  "tests check shapes and a few k for a few approximations; a wrong k in one form or one position is only visible for the few iteration-dependent approximations",
  [QD, DIAG], [("coefficient generation with k", QD), ("generic multi-sweep function", QD), ("iteration-dependent diagonals", DIAG)])

p("C12", "Every option is either implemented or rejected, on every path",
  "Every documented option value is accepted and produces a result, and every other value (unknown names, forms, node / quadrature types, duplicate strategies, weight algorithms, scaling references, quadrature rules, derivative orders, monitors, impossible node counts, iteration numbers below one, empty or too short sweep lists, non-positive sweep counts, wrongly shaped inputs, a generator object of the wrong kind, contradictory or surplus constructor arguments) raises an error instead of being silently ignored or replaced.",
  ["inputs", "configurations"], "every option of every public callable, valid and invalid, in every combination with the other options",
  "tests try a single bad value for some options and not in combination with the others",
  [NODES, LAG, QC, BUT, QD, DIAG, SDC, UT], [("option checks", NODES), ("option dispatch", LAG), ("argument binding of Q-Delta constructors", UT)])

p("C13", "Building from a Q generator equals building from explicit parameters",
  "Constructing a Q-Delta approximation from a Q-generator object (under its current or its deprecated keyword) gives exactly what constructing it from the same parameters spelled out gives, for positional and keyword use; any parameter given explicitly next to the generator object overrides the extracted one and only that one; parameters an approximation does not need are ignored.",
  ["inputs", "configurations"], "every registered approximation, every kind of Q generator it accepts, every subset of overridden parameters",
  "tests compare with and without generator object for one configuration per approximation, without overrides and only on the unit interval",
  [UT, QD, TS, DIAG, ALG], [("constructor wrapper extracting parameters", UT), ("parameter extraction of each family", QD)])

p("C14", "Dahlquist solvers are linear, unit-consistent and honour their options",
  "The Runge-Kutta and SDC solvers for the linear test problem and their error functions return nSteps+1 values starting with the initial value, are linear in the initial value, depend on the rate and the final time only in a way consistent with a change of time unit, and honour every option: embedded weights, given solution, quadrature weights versus last node, a different Q-Delta matrix for each sweep (sweep k uses matrix k), and monitors with one entry per sweep including the initial guess.",
  ["inputs", "configurations"], "every rate, initial value, final time, number of steps and sweeps, matrices of every size and every option combination",
  "tests run the solvers with u0=1 and a few fixed final times only through convergence orders and never with distinct matrices per sweep",
  [QC, SDC], [("Dahlquist solution and error of a Q generator", QC), ("SDC sweeps", SDC)])

p("C15", "The quadrature behind integration matrices is exact for every size",
  "For every number of points and every quadrature-rule option, the rule chosen to build an integration matrix has enough points to integrate the interpolating polynomial exactly.",
  ["inputs"], "every number n of points (even and odd) and every quadrature-rule option",
  "tests sample some n up to a few tens; the rule's size has a parity-dependent formula that must hold for all n",
  [LAG], [("number of quadrature points", LAG)])

p("C16", "Results have the documented shape for every size and option",
  "For every number of nodes, stages, points, times, intervals, iterations and sweeps, each public function returns arrays of exactly the documented shape (and number of outputs) for each combination of form, list of iterations, delta-tau, interpolation-coefficient, embedded and duplicate options.",
  ["inputs", "configurations"], "every size (symbolic) and every output option combination",
  "tests check concrete sizes for some option combinations",
  [NODES, LAG, QC, COL, QD, TS, ALG, DIAG, NUM, SDC], [("output assembly", QC), ("output assembly", QD)])

p("C17", "Integer and list inputs give the same results as float arrays",
  "Passing nodes, points, times, intervals or coefficients as integer arrays, or as lists wherever the documentation allows them, gives the same results as passing the equal floating-point arrays: no fractional value is ever truncated because an input happened to be integer, and no input type makes an in-place operation fail.",
  ["inputs"], "every numeric argument of every public callable, as a list, an integer array or a float array",
  "tests pass float arrays; truncation needs an integer input together with a fractional intermediate value",
  [LAG, TS, ALG, DIAG, QD, NUM, SDC], [("conversion of inputs to floating point", QD), ("conversion of inputs", LAG), ("conversion of nodes", TS)])

p("C18", "Stored diagonal coefficient tables are complete and effective",
  "Each stored diagonal table has an entry for exactly the documented distributions and sizes, with as many coefficients as nodes, zero for a node at the left bound and positive otherwise, and the coefficients make the stiff-limit iteration matrix contract for the collocation method they are stored under; asking for a combination that is not stored raises a NotImplementedError.",
  ["configurations"], "every stored combination of table, distribution, quadrature type and size",
  "tests only build the matrices for the stored combinations; a swapped digit or swapped size leaves them green",
  [MIN, DIAG], [("coefficient tables", MIN), ("table lookup", DIAG)])

p("C19", "The node set contains exactly the boundaries its type promises",
  "For every distribution, number of nodes and interval, the collocation nodes contain the left (right) interval boundary, bit for bit, exactly when the quadrature type includes it; for the other quadrature types the generated inner nodes are never moved onto a boundary.",
  ["inputs"], "every node distribution, quadrature type, node count and interval",
  "tests compare with a tolerance, for small node counts, on the unit interval",
  [NODES, COL], [("boundary overwrite", NODES), ("boundary safety after scaling", COL)])

p("C20", "Collocation coefficients are the exact integrals on their nodes",
  "For every node family, quadrature type and node count, on every time interval, the nodes are the strictly increasing points of that family with the ends the type fixes, Q, S and the weights are the exact integrals of the Lagrange polynomials on these nodes (from the left bound, from the previous node, over the whole interval) and hCoeffs their values at the right bound. The quadrature integrates every polynomial of degree below the declared order exactly, and no higher order could have been declared.",
  ["inputs"], "all node families, quadrature types, node counts and intervals", "unit tests sample a few sizes on [0, 1] and compare orders of convergence only roughly; sizes, families and general intervals multiply",
  [LAG, COL, NODES], [("recurrence coefficients and integration", NODES), ("integration intervals", COL)])

p("C21", "MIN-SR coefficients make the limit iteration matrices nilpotent",
  "For every collocation method on every interval Q minus the MIN-SR-NS coefficients is nilpotent, and the stiff-limit iteration matrices of the first M MIN-SR-FLEX sweeps multiply to zero. The equations that define the MIN-SR-S coefficients (also used by later MIN-SR-FLEX sweeps) hold exactly where the stiff-limit iteration matrix is nilpotent and determine the coefficients; nodes on the left bound get a zero coefficient and stay outside.",
  ["inputs"], "all node families, quadrature types, node counts, sweeps and intervals", "tests sample a few sizes on [0, 1] with loose tolerances; the property must hold for each distribution, size, sweep and interval",
  [DIAG, COL], [("nonlinear system for MIN-SR-S", DIAG), ("node scaling of MIN-SR-NS and FLEX", DIAG)])

p("C22", "The predicted SDC order matches the observed one",
  "For every node count, distribution, sweep number, approximation and step-update the predicted SDC order equals the asymptotic order of the error on the linear test problem.",
  ["inputs"], "all configurations", "asymptotic behaviour; tests sample it", [SDC], [("order formula and special cases", SDC)])

p("C23", "Results stay finite and accurate for every valid input",
  "For every valid input (any node count, any scale, any Q matrix) results are finite and accurate to rounding, including large node counts and factorizations with small pivots.",
  ["inputs"], "all sizes and scales", "rounding-error behaviour; tests sample it", [LAG, NUM, NODES], [("barycentric weights", LAG), ("LDU factorization", NUM)])

p("C24", "Each Q-Delta approximation is the matrix its documentation names",
  "For every number of nodes, node position, left bound, Q matrix and iteration number each approximation is the matrix documented for it: Euler, trapezoidal and leap-frog steps between the nodes or from the left bound, LU / LDU / triangular / diagonal parts of Q, nodes divided by the documented divider of the approximation and iteration. Its delta-tau coefficients are those of the same step from the left bound to the first node, its node-to-node form is the row differences, and every way to ask for it (generator methods, lists, generic function, several sweeps) gives these same values.",
  ["inputs"], "all sizes, nodes, bounds, matrices, iterations and call forms", "tests compare few sizes on [0, 1] and mostly only structure; a wrong entry for one size, bound or iteration goes unseen",
  [ALG, TS, DIAG, QD, NUM], [("step recurrences", TS), ("dividers", DIAG), ("factorisations", ALG)])

p("C25", "All forms of one Q generator describe the same method",
  "For every Q generator the node-to-node matrix S is the row differences of Q, T and Tinv are the transfer matrices between the two forms, hCoeffs interpolate the node values at the right bound of its interval, and nNodes and rightIsNode agree with the nodes. Every combination of form, hCoeffs and embedded in genCoeffs and in the generic function returns exactly nodes, weights (above the embedded weights), the matrix of the form and hCoeffs, in this order.",
  ["inputs"], "all Runge-Kutta tables, collocation methods, intervals and option combinations", "tests check shapes or single combinations",
  [QC, COL, BUT], [("transfer matrices and output assembly", QC), ("overrides", COL)])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        assert d["statement"].count(". ") <= 2, (d["id"], d["statement"].count(". "))
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
