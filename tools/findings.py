"""Rewrites known_findings.json: repairs made in /repo, by property.  (No unrepaired finding is left.)"""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """
C07 e15ce40 the sum of two uniform cartesian grids took the bounds of the first one for all dimensions
C07 5e16aa9 a uniform cartesian grid without number of points could not be created
C07 de575fb the product of two cartesian grids raised TypeError
C08 b756db4 linear rules on unstructured exogenous x cartesian grids returned the first control only
C08 08fdbd0 rules on a cartesian exogenous grid could not be evaluated at one shock and many states
C10 e18da73 the mean of a multivariate normal was counted twice by its discretization
C11 fab0ea2 UNormal.integrate used np.Inf and missed narrow or distant distributions
C11 151a1ac Bernouilli draws ignored the probability
C11 efc7698 Bernouilli distributions had no dimension: mixtures and products of them failed
C11 2e05a3c draws from a mixture were all equal to zero
C10 77a5ee7 options were ignored when discretizing a distribution to a markov chain
C13 211591b the product of distributions could not be discretized to a markov chain
C12 8410a01 discretized correlated autoregressive processes had the wrong covariance
C10 35832d6 negatively correlated shocks were mistaken for degenerate ones
C10 a36da32 degenerate dimensions of quadrature nodes lost their mean
C10 ad7b7f7 one-dimensional quadrature nodes ignored the mean
C12 d8a1858 shape of the nodes obtained with the tauchen method
C14 56e1052 simulating the values of a markov chain raised NameError
C14 f4abfbe a simulated markov chain could leave the set of states (sum of probabilities just below one)
C14 bac6749 deterministic simulation of autoregressive processes drew shocks
C14 f093e2c simulation and response of AR1 processes failed
C12 df7fa1e autoregressive processes could not be discretized as gdp
C12 2173059 the mean of autoregressive processes was ignored when they are discretized as gdp
C12 0bfc108 non-scalar autocorrelations were silently replaced by their first element
C14 411692a simulations of markov chains could not be replicated by seeding numpy's generator
C14 d9dbeb4 the initial value of autoregressive simulations was shifted by the mean
C14 17c693f responses of autoregressive processes applied the impulse at another date than iid ones
C14 b78cb7f default impulse for univariate normal shocks was the variance
C14 7b4f96a response printed debug information
C27 8116e5d simulations ignored their seed
C27 86460b5 simulated states were computed with the shocks of the preceding date
C27 66fe15d simulation along a path of indices required an initial index
C27 3221e7c simulations of markov chains with repeated values recovered the wrong states
C28 d1775f2 rules defined on a cartesian exogenous grid could not be tabulated
C28 fec6e9f tabulate_2d evaluated rules at a flat state
C18 0f48cdd generalized eigenvalues were not ordered according to their modulus
C19 5e5dff7 perturbation of models driven by a VAR1 failed
C19 858d914 derivatives of the states with respect to the innovations were wrong
C19 b938bd9 violations of the Blanchard-Kahn conditions were not detected by the perturbation
C19 7d24035 perturbation results were always reported as stable, determined and unique
C28 693135a a perturbation solution could not be tabulated when shocks are autocorrelated
C23 be51097 rules were defined on the default exogenous grid when another process is supplied
C05 5cb6f70 the domain of the states depended on the order in which it is written
C13 b2a169e the product of a single process could not be discretized as a markov chain
C09 794abdb custom decision rules failed when no group had as many symbols as controls
C10 3e19898 discretized mixtures ignored the values taken by their index
C11 ae8b08e shape of a single draw from a multivariate normal
C15 e11a902 in-place solution of linear systems with rectangular right-hand sides
C16 3226995 bounds were ignored by ncpsolve with full jacobians
C24 1766cec derivatives of complementarity conditions were undefined at bounds with zero residuals
C18 3bb61aa second_order_solver could not be called with recent versions of numpy
C21 bc140e1 find_steady_state returned points that are no steady states
C30 1fad8b5 leads and lags were exchanged by eval_formula
C22 3c07474 first value of the shocks was dropped by deterministic_solve when given as an array
C22 2a77fab initial states given to deterministic_solve were not those of the simulation
C22 a186763 options of the solver were ignored by deterministic_solve without constraints
C22 11d74c5 initial guesses and keep_steady_state option of deterministic_solve failed
C22 22f3426 deterministic_solve ignored bounds when other controls are unbounded
C22 204d4f3 arguments of lmmcp were exchanged by deterministic_solve
C24 addee63 gmres option of improved_time_iteration used an argument removed from scipy
C24 581efdf improved_time_iteration could not solve models without complementarity conditions
C24 ee964b9 improved_time_iteration did not accept the same initial guesses as time_iteration
C25 10d4439 egm printed every integration step, even when not verbose
C25 4ad718b details option was ignored by egm
C25 350b892 egm could not be called with a grid or a discretized process only
C25 ae1443c egm did not accept results of other algorithms as initial guess
C26 df2bf64 value_iteration looked for bounds of controls under a name which is never defined
C26 815a1c8 value_iteration did not report convergence with respect to the requested tolerance
C33 82c5d7c initial guess was overwritten by evaluate_policy
C26 24d9caa evaluate_policy did not accept results of other algorithms
C27 c5c3583 exogenous variables were missing from simulations of models without definitions
C31 fe0d1c2 hp_filter ignored the smoothing parameter when filtering several series
C32 85005cd memoized functions confused arguments with the same hash, shape-less content or type
C32 7d85168 caches on disk relied on hashes, which collide and change with the process
C32 0676e25 DiskDictionary opened pickles as text files
C03 d9206d6 set_calibration ignored the symbols which are not calibrated in the file
C34 a5f278a the file name of an imported model was recorded as its name
C34 6ed72d1 file name without its closing quote in the description of a model
C36 3c897ad plot_irfs rejected impulse responses, and single panels
C36 d2d728f plot_decision_rule used undefined names
C11 114f913 default parameters of LogNormal were swapped
C37 16d81bc rules found by value iteration did not carry the exogenous process
C28 92bf8db tabulate failed for rules which do not carry an exogenous process
C05 bec2c2b the type of the grid could not be given by options:grid:type, and options without a grid raised an unrelated error
C06 255dcc7 local files with http in their path were taken for urls
C05 9e987ea domains given by the bounds of the grid (options:grid:a, b) were refused
C05 29295bb exogenous processes could not be given as a list
C06 3b5cb0a misordered shocks were reported by an unrelated error
C15 fb917b2 derivatives with respect to a common argument (numdiff2) failed
C01 ecb9673 symbols named out0, out1... were confused with the outputs of functions
C26 f29ca2e constant rules could not be evaluated
C26 e3ecd23 policies given as arrays of values could not be evaluated
C14 87568e7 responses and deterministic paths of i.i.d. processes ignored their mean (deterministic paths were random)
C14 0207b08 constant processes (and mixtures of them) could not be drawn
"""
if __name__ == "__main__":
    fixed = []
    for l in FIXED.strip().split("\n"):
        p, h, what = l.split(" ", 2)
        fixed.append(f"fixed: property={p} {h} {what}")
    json.dump(dict(findings=[], fixed=fixed), open(HERE + "/known_findings.json", "w"), indent=1, ensure_ascii=False)
