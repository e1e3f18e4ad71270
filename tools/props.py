"""Single source of properties.jsonl and of the list of checks of MANIFEST.json.

    python3 tools/props.py      rewrites both files
"""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, text, why, files, mechanism, technique, note):
    PROPS.append(
        dict(
            id=id, title=title, statement=" ".join(statement.split()), over=over.split(),
            text=" ".join(text.split()), why=" ".join(why.split()), files=files.split(),
            mechanism=mechanism, technique=technique, note=" ".join(note.split()),
        )
    )


C, N, A = "dolo/compiler/", "dolo/numeric/", "dolo/algos/"

P("C01", "Compiled model functions compute the equations written in the model file",
  """For every equation block of a model file (arbitrage, transition, value, felicity, expectation,
  direct_response, half_transition, reverse_state, egm blocks), the compiled function returns exactly what
  the written equations give when each variable is read at its written date, each definition is expanded at
  the date it is used, and each parameter takes the value passed. A condition `lhs = rhs` evaluates to
  rhs-lhs, an assignment to its right-hand side, in declaration order. Evaluating many points at once gives
  the same numbers as evaluating them one by one.""",
  "programs inputs", "all models (symbols, timings, definitions, equations) and all points, stacked or not",
  "tests import a dozen fixed models and never compare compiled values with the equations",
  C + "factories.py " + C + "model.py " + C + "recipes.yaml",
  [dict(name="equations -> flat functions with preamble", where="get_factory, Model.__compile_functions__")],
  "generated models (expression grammar) against an independent evaluator of the expression trees",
  "up to 3 symbols per group, 3 chained definitions, dates -1..1, expressions of depth 3")

P("C02", "Derivatives returned with function values are the derivatives",
  """When a compiled model function is asked for its derivatives, it returns the same values as without, and
  one Jacobian per argument, in argument order, which agrees with the derivative of the written equations
  up to the accuracy of finite differences, for one point and for stacks of points.""",
  "programs inputs", "all models and evaluation points",
  "no test looks at any derivative",
  C + "factories.py " + C + "model.py",
  [dict(name="diff=True", where="Model.functions")],
  "generated models against complex-step derivatives of the expression trees",
  "same model generator as C01")

P("C03", "Calibration is the solution of the written system, after any history of changes",
  """The calibration of a model gives every symbol the value its written expression takes once all the
  symbols it refers to are replaced by theirs, whatever the order in which they are written; symbols defined
  by a definition take its steady-state value and unspecified shocks are 0. After any sequence of calibration
  changes, everything read from the model (calibration, domain, grids, exogenous process, residuals) is what
  one gets by importing a file written with the final values.""",
  "programs histories", "all triangular calibrations and all sequences of set_calibration calls",
  "tests never change a calibration",
  C + "model.py " + C + "misc.py",
  [dict(name="triangular resolution", where="SymbolicModel.get_calibration"),
   dict(name="invalidation", where="Model.set_changed / set_calibration")],
  "generated model files; random histories of calibration changes against a freshly imported model",
  "histories of up to 8 operations interleaving reads and writes")

P("C04", "Complementarity bounds are those written next to each equation",
  """The lower and upper bounds attached to arbitrage equation i are the values of the expressions written in
  its complementarity condition, -inf/inf when it has none, in the order of controls, and never change the
  residual itself. A condition written on another variable than the i-th control is rejected.""",
  "programs inputs", "all models with full, partial or no complementarity conditions",
  "tests use one model with constant bounds and never read bounds",
  C + "model.py " + C + "factories.py",
  [dict(name="double_complementarity", where="SymbolicModel.equations, Model.x_bounds")],
  "generated models against an evaluator of the written bounds",
  "bounds constant, infinite or functions of exogenous, states and parameters")

P("C05", "Domain, grids and exogenous process are the ones described in the model file",
  """The domain of the states is the interval obtained by evaluating the written expressions with the
  calibration, in state order whatever the order in the file, or the bounds written in the grid when there is no
  domain; the grid has the written type (given by a tag or by name; unknown types are refused), bounds and number
  of points; the exogenous process has the written type and parameters evaluated with the calibration,
  several processes (a list, or a dictionary by shock) combining in declaration order.""",
  "programs configurations", "all model files over the supported grids and processes",
  "tests import fixed models without comparing domain, grid or process with the file",
  C + "model.py " + C + "objects.py",
  [dict(name="evaluation of the sections", where="get_domain, endo_grid, get_exogenous, discretize")],
  "generated model files against directly constructed objects",
  "cartesian, non-uniform and Smolyak grids; UNormal, Normal, AR1, VAR1, MarkovChain, Bernouilli, Uniform and products")

P("C06", "Equivalent model files give the same model; malformed ones are refused",
  """Writing the same model differently (old list style or block style, old or new timing notation, symbols
  renamed consistently, definitions or calibration entries reordered, comments and spaces added) yields the same
  functions and calibration values, wherever the file is and whether it is read from a file or a string; the
  model reports the name and file it comes from. A file with an undeclared symbol, a definition shadowing a variable or at
  another date, a missing state in the domain, a misordered list of shocks, or circular definitions raises an
  exception instead of producing a model.""",
  "programs", "all pairs of equivalent files and all files with one such error",
  "tests import valid files only",
  C + "model.py " + C + "factories.py " + C + "model_import.py",
  [dict(name="parsing and validation", where="SymbolicModel.equations/definitions/get_domain/get_exogenous")],
  "metamorphic: generated model files rewritten or corrupted",
  "rewritings and corruptions listed in the statement")

P("C07", "Grids enumerate the points they describe",
  """The nodes of a grid are the points its description lists (cartesian products in row-major order, uniform or
  not), node(i) is the i-th of them and the number of nodes matches; sums, products and discretizations of grids
  keep bounds and points of every dimension, and the nodes of a product grid pair the nodes of its factors.""",
  "inputs histories", "all grids of dimension 1 to 4, all compositions",
  "tests build two grids",
  N + "grids.py " + C + "objects.py",
  [dict(name="grid classes", where=N + "grids.py")],
  "generated grids and compositions against explicit enumeration", "up to 4 dimensions")

P("C08", "Decision rules interpolate the values they hold",
  """A decision rule returns the values it was given at the nodes of its grids, the multilinear interpolation
  between them (with linear interpolation) or a cubic spline through them (with cubic interpolation), for every
  kind of exogenous grid, one or many points, in one or several dimensions, with one or many outputs. Evaluating
  by state index and by exogenous value agree on nodes, and replacing the values replaces the rule entirely.""",
  "inputs configurations histories", "all grids, values, evaluation points, shapes and value updates",
  "no test evaluates a rule between nodes",
  N + "decision_rule.py",
  [dict(name="multimethods over grid kinds", where="DecisionRule.eval_*, set_values")],
  "generated grids, values and points against reference interpolation", "up to 3+2 dimensions")

P("C09", "Custom decision rules compute the formulas they were given",
  """A decision rule defined by formulas returns, for every control, the value of its formula at the given
  shocks and states with the parameters of the model's calibration, in control order, one point or many at a
  time, and can be used as an initial guess and in simulations along continuous shocks like a computed rule.""",
  "programs inputs", "all sets of formulas and evaluation points",
  "one formula is evaluated at one point by tests",
  N + "decision_rule.py",
  [dict(name="CustomDR", where=N + "decision_rule.py")],
  "generated formulas against an expression evaluator", "up to 3 controls, depth-3 formulas")

P("C10", "Discretized i.i.d. shocks are quadratures of their distributions",
  """The discretization of an i.i.d. distribution has non-negative weights summing to one for each state, nodes
  inside the support, and reproduces the mean, and for gaussian quadrature the covariance and every
  polynomial moment up to degree 2n-1; equiprobable discretizations use the conditional quantiles
  they are named after. Products keep independence and mixtures keep the mixing probabilities.""",
  "inputs configurations", "all parameters of the distributions and all numbers of points, dimension 1 to 3",
  "tests discretize two distributions with one set of parameters",
  N + "distribution.py " + N + "discretization/quadrature.py",
  [dict(name="discretize(to='iid'|'gdp'|'mc')", where=N + "distribution.py"),
   dict(name="gauss_hermite_nodes", where=N + "discretization/quadrature.py")],
  "generated distributions against closed-form moments and quantiles", "n up to 15, d up to 3")

P("C11", "Distributions draw, integrate and invert consistently with their parameters",
  """Quantiles and integrals of a univariate distribution are those of the law its parameters describe, draws have
  the announced shape and follow that law (every draw in the support, empirical moments and frequencies within
  sampling error), and draws are reproducible by seeding numpy's generator. Parameters which are left out take their declared
  default values.""",
  "inputs", "all parameters, sample shapes and seeds",
  "tests check one parameter value per distribution and never draw",
  N + "distribution.py",
  [dict(name="draw/ppf/cdf/integrate", where=N + "distribution.py")],
  "generated parameters against scipy laws, moment bounds at 6 standard errors", "univariate, normal, products, mixtures")

P("C12", "Markov chains approximating autoregressive processes have the right moments",
  """The chain obtained from an autoregressive process has a stochastic transition matrix; with Rouwenhorst's
  method its conditional mean is exactly that of the process at each node and its stationary variance matches;
  with Tauchen's method transition probabilities are the gaussian probabilities of the cells around nodes; for
  several correlated dimensions the stationary covariance matches the one of the process. The quadrature
  discretization has nodes equal to the conditional mean plus a quadrature of the innovations.""",
  "inputs configurations", "all autocorrelations, means, covariances and numbers of states",
  "tests never look at a discretized autoregressive process",
  N + "processes.py " + N + "discretization/discretization.py",
  [dict(name="rouwenhorst, tauchen, multidimensional_discretization", where=N + "discretization/discretization.py"),
   dict(name="VAR1/AR1.discretize", where=N + "processes.py")],
  "generated processes against closed-form conditional and stationary moments", "d up to 3, n up to 11")

P("C13", "Products of processes combine their factors independently",
  """The product of processes has the concatenated variables; the discretized product has for nodes all the
  combinations of the nodes of its factors and for transition probabilities the products of theirs, so that every
  factor keeps its own transitions; simulations of the product are simulations of each factor side by side.""",
  "configurations inputs", "all pairs and triples of processes",
  "tests never combine two processes",
  N + "processes.py " + N + "discretization/discretization.py",
  [dict(name="tensor_markov, ProductProcess, ProductDistribution", where=N + "processes.py")],
  "generated products against explicit tensor products", "2 or 3 factors")

P("C14", "Simulated paths and responses of processes follow their law of motion",
  """A simulated path has the requested length and number of replications, starts where asked, and each step
  is possible under the process: a chain only takes transitions of positive probability with the right frequencies,
  an autoregressive path has the right one-step mean and innovation covariance. Deterministic paths and impulse
  responses follow the conditional mean exactly, i.i.d. processes included.""",
  "inputs histories", "all processes, horizons, replications, initial values, impulses and seeds",
  "tests run one impulse response and check its shape",
  N + "processes.py",
  [dict(name="simulate/response", where=N + "processes.py")],
  "generated processes; invariants over the histories, exact recursion for deterministic paths",
  "statistical invariants at 6 standard errors")

P("C15", "Stacked linear algebra agrees with point-by-point linear algebra",
  """Operations on stacks of matrices (products of stacks, in-place solves and inversions of stacks, norms) give at each
  index the result of the corresponding dense operation on that element, including for in-place variants and for the
  operators and inverses used by improved time iteration. Numerical derivatives of functions of arrays approach their derivatives.""",
  "inputs", "all sizes and well-conditioned contents",
  "tests exercise one solve",
  N + "serial_operations.py " + A + "invert.py " + A + "bruteforce_lib.py",
  [dict(name="serial operations", where=N + "serial_operations.py"), dict(name="invert", where=A + "invert.py")],
  "generated stacks against numpy, element by element", "up to 20 matrices of size 6")

P("C16", "Nonlinear solvers return solutions of the problem they were given",
  """When newton and complementarity solvers report success, the returned point solves the problem: the residual is
  zero for equations, and for bounded problems it lies within the bounds, with residual zero inside, of the right
  sign at the bounds; infinite bounds give the unconstrained solution, and stacked problems are solved
  independently of each other. Linear and smooth strongly monotone problems are solved, and a solver that
  stops without a solution says so.""",
  "inputs", "all well-posed linear and smooth monotone problems, bounds and stacks",
  "tests solve two problems",
  N + "optimize/newton.py " + N + "optimize/ncpsolve.py " + N + "extern/lmmcp.py",
  [dict(name="newton, SerialDifferentiableFunction", where=N + "optimize/newton.py"),
   dict(name="ncpsolve, lmmcp", where=N + "optimize/ncpsolve.py, " + N + "extern/lmmcp.py")],
  "generated monotone problems; validity predicate over the solution and brute-force active sets", "dimension up to 5, stacks up to 30")

P("C17", "Complementarity reformulations vanish exactly on complementarity solutions",
  """The smooth reformulations of bounds vanish if and only if the point solves the complementarity problem, coincide
  with the residual when bounds are infinite, and their returned Jacobians are their derivatives.""",
  "inputs", "all points, residuals, bounds (finite or not) and Jacobians",
  "tests never evaluate them separately",
  N + "optimize/ncpsolve.py " + A + "fb.py",
  [dict(name="smooth, smooth_nodiff", where=N + "optimize/ncpsolve.py"), dict(name="fischer-burmeister", where=A + "fb.py")],
  "generated points against the definition and central differences", "dimension up to 5")

P("C18", "Matrix decompositions and equations are solved as specified",
  """The ordered generalized Schur decomposition reconstructs its matrices with unitary factors and the eigenvalues whose
  modulus is above the cutoff come first; solutions of Sylvester equations satisfy them; folded tensor products contract the announced
  dimensions.""",
  "inputs", "all well-posed matrices of moderate size",
  "one 2x2 matrix pair is decomposed by tests",
  N + "extern/qz.py " + N + "matrix_equations.py " + N + "tensor.py",
  [dict(name="qzordered", where=N + "extern/qz.py"), dict(name="solve_sylvester, second_order_solver", where=N + "matrix_equations.py"),
   dict(name="sdot, mdot", where=N + "tensor.py")],
  "generated matrices: residual of the equation, reconstruction, einsum", "size up to 8")

P("C19", "Perturbation returns the stable linear solution of the model",
  """The linear rule solves the linearised equations of the model at the steady state, matches the certainty rule
  found by independent iteration, keeps the states stable, and passes through the steady state. It is refused (or flagged)
  when there is no stable solution or when there are several, and the flags of the result say which.""",
  "programs inputs", "all linear-in-neighbourhood models with i.i.d. or autoregressive shocks",
  "tests perturb one model and check no coefficient",
  A + "perturbation.py",
  [dict(name="get_derivatives, approximate_1st_order, perturb", where=A + "perturbation.py")],
  "generated linear models with known solution; residual of linearised equations from independent derivatives",
  "up to 3 states, 2 controls, 2 shocks")

P("C20", "Taylor expansions evaluate the polynomial of their coefficients",
  """Taylor rules return X0 plus the contraction of each coefficient with powers of the deviation from the expansion
  point, for one or many points, and rules on shocks and states add both parts.""",
  "inputs", "all coefficients up to order 3 and points",
  "no stable test evaluates them",
  N + "taylor_expansion.py",
  [dict(name="Taylor, BivariateTaylor", where=N + "taylor_expansion.py, " + A + "perturbation.py")],
  "generated coefficients against einsum", "dimension up to 4, order 3")

P("C21", "Steady states and residuals are those of the written equations",
  """Residuals at a calibration are the written equations evaluated with every date at the calibration; a point returned as
  steady state makes all the transition and arbitrage residuals vanish, at the given values of the shocks (or
  their calibrated ones); a system without such a point is refused rather than answered.""",
  "programs inputs", "all models, calibrations and fixed shocks",
  "tests never evaluate residuals or steady states",
  A + "steady_state.py " + C + "model.py",
  [dict(name="residuals, find_steady_state", where=A + "steady_state.py")],
  "generated models; evaluator of the expression trees at a constant point", "generated linear-quadratic models and examples")

P("C22", "Perfect-foresight paths satisfy the model at every date",
  """A deterministic solution starts at the given initial states (or, when only shocks are given, at the steady state
  consistent with their first value), takes the given path of shocks, satisfies transitions
  and arbitrage conditions at each date before the horizon (within bounds when there are complementarity conditions),
  and depends on the shocks but not on the way they are specified (dictionary, array or dataframe). Bounds which vary
  with states are refused.""",
  "programs inputs", "all models, initial states, shock paths, horizons",
  "no stable test solves a deterministic path",
  A + "perfect_foresight.py",
  [dict(name="deterministic_solve, det_residual", where=A + "perfect_foresight.py")],
  "generated shocks and initial states; residuals recomputed date by date with the model's functions",
  "horizons up to 60")

P("C23", "Time iteration stops at rules that solve the optimality conditions",
  """When time iteration reports convergence, the rule satisfies at every node of the grids the arbitrage equations in expectation over
  the discretized shocks, within bounds for constrained controls, up to the announced tolerance, whatever
  the initial guess; one iteration is the exact solution of the conditions given tomorrow's rule.""",
  "programs configurations", "all models and exogenous processes (i.i.d., chains, autoregressive), grids and options",
  "two models are solved by tests and only execution is checked",
  A + "time_iteration.py " + A + "results.py",
  [dict(name="residuals_simple, time_iteration", where=A + "time_iteration.py")],
  "generated calibrations, grids and processes; expectations recomputed node by node", "three example families")

P("C24", "Improved time iteration finds the same rule as time iteration",
  """Improved time iteration converges to a rule with zero residuals in expectation, equal up to tolerance to the
  one found by time iteration on the same grids.""",
  "programs configurations", "all models and calibrations for which time iteration converges",
  "no stable test runs it",
  A + "improved_time_iteration.py " + A + "invert.py",
  [dict(name="improved_time_iteration", where=A + "improved_time_iteration.py")],
  "generated calibrations; differential against time iteration and node-by-node residuals", "rbc family")

P("C25", "The endogenous grid method solves consumption-savings problems",
  """The rule found by the endogenous grid method satisfies the optimality conditions with the borrowing constraint at
  every state: the Euler equation holds in expectation where the constraint is slack and with the right inequality where it binds.""",
  "programs configurations", "all calibrations and grids of consumption-savings models",
  "the test checks that it runs",
  A + "egm.py",
  [dict(name="egm", where=A + "egm.py")],
  "generated calibrations and grids; Euler residuals recomputed by quadrature", "consumption_savings_iid family")

P("C26", "Value functions satisfy Bellman's equation",
  """The value computed for a given rule (or a constant, or an array of controls at the nodes) is the fixed point of the recursive value equation at every node and equals the
  discounted sum of felicities; value iteration returns a rule whose value no feasible control can improve
  at any node, beyond tolerance.""",
  "programs configurations", "all calibrations of models with values and felicities",
  "no stable test computes a value",
  A + "value_iteration.py",
  [dict(name="evaluate_policy, value_iteration", where=A + "value_iteration.py")],
  "generated calibrations; Bellman residual recomputed node by node, brute-force maximisation", "rbc families")

P("C27", "Simulations along a rule follow the rule and the transitions",
  """Along any simulated path, controls are the rule at the current shocks and states, next states are the transition from
  current shocks, states and controls and next shocks, auxiliary variables are their definitions, and the
  exogenous path is the one given or a draw of the process from the given seed; responses start at the calibrated
  states and are the path of the process after the given impulse (one standard deviation by default).""",
  "programs inputs histories", "all models, rules, processes, horizons, replications, initial points and seeds",
  "one impulse response is computed by tests",
  A + "simulations.py",
  [dict(name="simulate, response", where=A + "simulations.py")],
  "generated rules and models; recursion recomputed date by date", "horizons up to 40")

P("C28", "Tabulations report the rule along the requested line",
  """Tabulating a rule along a state varies this state only, between the requested bounds with the requested number of
  points, other states staying at their calibrated or given values, and reports the controls given by the rule
  and the auxiliaries given by the definitions there.""",
  "programs configurations", "all rules, states, bounds, initial points and numbers of points",
  "no stable test tabulates",
  A + "simulations.py",
  [dict(name="tabulate, tabulate_2d", where=A + "simulations.py")],
  "generated rules and options against direct evaluation", "example models, generated rules")

P("C29", "Ergodic distributions are invariant distributions of the simulated economy",
  """Over uniform grids of states, the transition operator has non-negative entries summing to one and preserves the mean of next states
  inside the domain; the ergodic distribution has non-negative mass one and is left unchanged by the operator.""",
  "programs configurations", "all rules, processes and grids",
  "two models are run by tests without checking the result",
  A + "ergodic.py",
  [dict(name="ergodic_distribution, trembling_hand", where=A + "ergodic.py")],
  "generated rules and grids against a dense reference operator", "up to 2 states, 3 shocks")

P("C30", "Formulas evaluated on data use the dates they mention",
  """Evaluating a formula with a calibration or a table gives the value of the expression: undated symbols are read in the
  calibration, dated variables in the table at their date relative to the row (leads from later rows, lags from
  earlier rows), and values are missing only where a date is out of the table.""",
  "programs inputs", "all expressions, tables and calibrations",
  "two formulas are evaluated by tests without lead or lag check",
  C + "eval_formula.py " + C + "model.py",
  [dict(name="eval_formula", where=C + "eval_formula.py")],
  "generated expressions and tables against an evaluator", "dates -2..2, depth 3")

P("C31", "Filters decompose series as they define",
  """The Hodrick-Prescott trend solves its optimality system for the given smoothing parameter, for one or several
  series; linear trends are left unchanged; the band-pass filter is the symmetric weighted average it
  defines and ignores linear trends within its window.""",
  "inputs", "all series and parameters",
  "no stable test filters anything",
  N + "filters.py",
  [dict(name="hp_filter, bandpass_filter", where=N + "filters.py")],
  "generated series against dense normal equations and explicit sums", "length up to 60, 4 series")

P("C32", "Cached functions return what the function would return",
  """A memoized or disk-cached function returns, for all sequences of calls, the same results as the uncached
  function and computes each distinct argument once; different arguments never share an entry, and values stored
  on disk survive to a new process.""",
  "histories inputs", "all sequences of calls with scalar, tuple, dictionary and array arguments",
  "tests call each cache twice",
  "dolo/misc/caching.py",
  [dict(name="memoized, cachedondisk, DiskDictionary", where="dolo/misc/caching.py")],
  "model-based histories of calls against a dictionary", "histories up to 20 calls")

P("C33", "Solving or simulating a model neither changes it nor depends on the past",
  """Any sequence of solutions, simulations and tabulations leaves calibration, domain, process and functions of the
  model as they were, leaves its arguments unmodified, and repeating a call with the same arguments (and seed)
  gives the same result whatever was called before.""",
  "histories", "all sequences of calls on a model",
  "tests call each routine once",
  A + "time_iteration.py " + A + "perturbation.py " + A + "simulations.py " + A + "perfect_foresight.py " + A + "steady_state.py",
  [dict(name="no shared mutable state", where="dolo/algos")],
  "random histories of calls on one model against fresh models", "histories up to 6 calls")

P("C34", "Printed models show their equations, residuals and calibration",
  """The text of a model contains its name, its file and each transition, optimality condition and definition, once, in
  order, as expressions which evaluate, at any point, like the equations which were written (its html rendering has a row for
  each equation); the residual printed beside it is that of the
  equation at the current calibration, and those which are not zero are highlighted. Files are recorded as the origin
  of the models they contain. Printing a model does not change it.""",
  "inputs", "all model files and calibrations",
  "no test reads what is printed",
  "dolo/compiler/model.py dolo/compiler/model_import.py",
  [dict(name="Model.__str__", where="dolo/compiler/model.py"), dict(name="yaml_import", where="dolo/compiler/model_import.py")],
  "parsing the printed text back and evaluating it against expression trees", "models up to 3 variables per group")

P("C35", "Algorithms report what they did; printing, traces and details change nothing",
  """Solution algorithms and nonlinear solvers return the same results whether iterations are printed or not, traced or
  not, with or without details, and print nothing when they are silent. The table of iterations has one row per iteration,
  with the errors that the trace and the results report; limits on the number of iterations are respected, iterations
  stop earlier only once the tolerance is reached, and convergence is reported accordingly. Iterations start from the given
  rule, from the calibrated values by default. Time iterations (improved
  or not) which are interrupted and started again from their result go on as if they had not been interrupted.""",
  "inputs histories", "all models, options and limits on iterations",
  "stable tests print or not, never compare, and never interrupt an algorithm",
  A + "time_iteration.py " + A + "improved_time_iteration.py " + A + "value_iteration.py " + A + "egm.py " + A + "perfect_foresight.py dolo/misc/itprinter.py dolo/numeric/optimize/newton.py dolo/numeric/optimize/ncpsolve.py",
  [dict(name="IterationsPrinter", where="dolo/misc/itprinter.py"), dict(name="verbose, details, trace, maxit, dr0", where="dolo/algos")],
  "differential runs of each algorithm under all reporting options, metamorphic interruption", "up to 10 iterations (3000 for evaluations of policies)")

P("C36", "Plots draw the values of the simulations and rules they are given",
  """Plots of responses have one panel per variable and one line per simulation, with dates and values of the requested
  horizon, in the requested layout, with titles and options of lines when they are given; plots of decision rules draw
  the rule between the requested bounds, the other states and the shocks being fixed at their given values. What is
  plotted is not modified.""",
  "inputs", "all tables of simulations, rules and options",
  "no test looks at a plot",
  "dolo/misc/graphs.py " + A + "simulations.py",
  [dict(name="plot_irfs", where="dolo/misc/graphs.py"), dict(name="plot_decision_rule", where=A + "simulations.py")],
  "reading the drawn lines back from the axes", "up to 4 simulations, 12 variables")

P("C37", "Rules found by any algorithm can be given to any tool, and mean the same",
  """Rules found by time iterations (improved or not, along chains or over sets of nodes of autoregressive processes), value iterations,
  endogenous grid points or perturbation can be simulated, tabulated, plotted, used for responses, and be the initial
  guess of other algorithms, bare or within the result of the algorithm; those over grids can also be tabulated over two states and
  evaluated, and give ergodic distributions. The outcome is that of a rule built by hand over the same grids with the same values (or of the linear function with
  the same coefficients).""",
  "inputs histories", "all supported pairs of algorithms and tools, models and options",
  "tests chain few pairs and compare nothing",
  A + "value_iteration.py " + A + "time_iteration.py " + A + "improved_time_iteration.py " + A + "egm.py " + A + "perturbation.py " + A + "simulations.py " + A + "ergodic.py " + N + "decision_rule.py",
  [dict(name="DecisionRule(exo_grid, endo_grid, dprocess)", where="every algorithm"), dict(name="isinstance(dr, AlgoResult)", where="every tool")],
  "differential runs of each tool over generated models, with the rule found and with a rule built by hand", "grids up to 6 nodes per state")

P("C38", "Helpers find the root of a project, equivalent names and calibration vectors",
  """Going to the root moves to the nearest enclosing directory with a readme (then to the given path), or fails without moving, and
  leaves files alone. Reading a function under an equivalent name gives the function it stands for. Vectors of a calibration
  list the values of each group in the order of its symbols, whatever the order and form (numbers or expressions) in which values are
  given, agree with the values by name, share no memory with what they were made from and can't be modified in place. Deprecated
  functions warn at each call and do what they did.""",
  "inputs histories", "all directory trees, groups, values and histories of calls",
  "no test covers these helpers",
  "dolo/misc/groot.py dolo/misc/decorators.py dolo/compiler/misc.py",
  [dict(name="groot", where="dolo/misc/groot.py"), dict(name="LoosyDict, CalibrationDict, calibration_to_vector", where="dolo/compiler/misc.py"), dict(name="deprecated", where="dolo/misc/decorators.py")],
  "generated trees, groups and histories against reference models", "trees up to 5 levels, 15 symbols")

PENDING = "no check has been built for this property yet"


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            rec = dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=p["mechanism"]),
            )
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(rec, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in PROPS:
        if os.path.exists(os.path.join(HERE, "checks", p["id"] + ".py")):
            checks.append(dict(
                property=p["id"], quick_cmd=f"./check.sh {p['id']}",
                thorough_cmd=f"VERIF_TIER=thorough ./check.sh {p['id']}",
                technique="property-based testing: " + p["technique"],
                level="exploration", level_note=p["note"],
            ))
        else:
            na.append(dict(property=p["id"], reason=PENDING))
    man = dict(version=1, setup_cmd="./check.sh --selftest", checks=checks, not_applicable=na)
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


if __name__ == "__main__":
    main()
