"""C23 time iteration"""
import importlib
import warnings
import numpy as np
from pbt import *
from pbt.gen import *
from pbt.econ import economy, Economy, Discrete, euler, mcp

from dolo.algos.results import AlgoResult
from dolo.numeric.decision_rule import DecisionRule

time_iteration = importlib.import_module("dolo.algos.time_iteration").time_iteration
perturb = importlib.import_module("dolo.algos.perturbation").perturb

suite = Suite(
    "C23",
    "Generated model files (1-2 states, 1-2 controls, 1-2 shocks; i.i.d. shocks, chains or autoregressive processes; backward or forward"
    " looking; no bounds, constant bounds or bounds varying with states) on generated grids, initial guesses (none, other rules, results,"
    " linear approximations), interpolation methods, discretizations and tolerances. Linear economies have a known exact solution at every"
    " node; in the others expected residuals are recomputed node by node from the expression trees. Each iteration of the trace is judged too."
    " Non-trivial = the solution varies with states and, when there are bounds, they bind at some but not all nodes.",
)


def run(model, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return time_iteration(model, verbose=False, **kw)


@st.composite
def case(draw, **kw):
    kw = dict(dict(procs=("iid", "var1", "mc"), shock=0.05, G=None, fwd=None, rare=True, scalar=True), **kw)
    return dict(
        e=draw(economy(**kw)), seed=draw(seeds), guess=draw(st.sampled_from(["none", "none", "linear", "rule", "result", "far"])),
        orders=[draw(st.integers(3, 7)), draw(st.integers(3, 6))], method=draw(st.sampled_from(["cubic", "cubic", "linear"])),
        N=draw(st.sampled_from([0, 0, 2, 4])), tol=draw(st.sampled_from([1e-5, 1e-6, 1e-7])), details=draw(st.sampled_from([True, True, True, False])),
        gdp=draw(st.booleans()), ign=draw(st.sampled_from([False, False, False, True])),
    )


def options(c, e, model):
    r = rs(c["seed"])
    kw = dict(tol=c["tol"], interp_method=c["method"], maxit=400, inner_maxit=30)
    grid, dp = model.discretize()
    if c["N"] and c["e"]["proc"] in ("iid", "var1"):
        dp = model.exogenous.discretize(N=c["N"], to="gdp") if (c["gdp"] and c["e"]["proc"] == "var1" and len(e.E) == 1) else model.exogenous.discretize(N=c["N"])
        kw["dprocess"] = dp
    s = grid["endo"].nodes
    g = c["guess"]
    if g == "linear":
        if c["e"]["proc"] == "mc" or (e.scalar and c["e"]["proc"] == "var1"):
            # (not implemented by perturb)
            g = "rule"
        else:
            kw["dr0"] = perturb(model, verbose=False, details=bool(c["seed"] % 2))
    if g in ("rule", "result", "far"):
        n = max(dp.n_nodes, 1)
        dr = DecisionRule(dp.grid, grid["endo"], dprocess=dp, interp_method="cubic")
        vals = e.xb + (0.02 if g != "far" else 0.3) * r.randn(n, len(s), len(e.X))
        dr.set_values(vals)
        kw["dr0"] = dr
        if g == "result":
            kw["dr0"] = run(model, **{**kw, "maxit": 1})
    if c["ign"]:
        kw["ignore_constraints"] = True
    return kw, s, dp


def values(dr, dp, s):
    if type(dr.exo_grid).__name__ == "EmptyGrid":
        return dr.eval_s(s)[None]
    if type(dr.exo_grid).__name__ == "UnstructuredGrid":
        return np.array([dr.eval_is(i, s) for i in range(dp.n_nodes)])
    return np.array([dr.eval_ms(np.tile(dp.node(i), (len(s), 1)), s) for i in range(dp.n_nodes)])


def report(c, res, tol):
    """fields of the result -> rule, converged"""
    if not c["details"]:
        expect(not isinstance(res, AlgoResult), "a rule is returned when details are not requested")
        return res, None
    expect(bool(res.x_converged) == (res.err < tol), f"converged={res.x_converged}, error {res.err}, tolerance {tol}")
    expect(res.x_tol == tol, "tolerance of the result")
    expect(1 <= res.iterations <= 400, "iterations")
    if res.iterations < 400:
        expect(res.err <= tol, f"stopped at iteration {res.iterations} with error {res.err}")
    return res.dr, bool(res.x_converged)


@suite.sub(case(), quick=54, shards=3)
def linear(c):
    """economies with a known solution at each node"""
    e = Economy(c["e"])
    if e.fwd:
        a, v = e.roots()
        if a.max() > 0.95 or v.min() < 1.2:
            reject("roots")
    model = e.load(orders=c["orders"][: len(e.S)])
    kw, s, dp = options(c, e, model)
    res = run(model, **{**kw, "details": c["details"]})
    dr, ok = report(c, res, c["tol"])
    if ok is False:
        # far guesses on small grids may leave the domain
        label("not converged")
        expect(e.fwd, f"no convergence in {res.iterations} iterations, error {res.err}")
        return False
    if not c["details"] and e.fwd:
        return False
    sol = Discrete(e, dp)
    x = values(dr, dp, s)
    for i in range(dp.n_nodes):
        close(x[i], sol(i, s), 0, 1000 * c["tol"] + 2e-4, f"solution at node {i} of the shocks")
    r = euler(e, dp, dr, s, x)
    expect(np.abs(r).max() <= 20 * c["tol"] + 1e-5, f"expected residuals {np.abs(r).max()} at the solution")
    label(c["e"]["proc"] + (" fwd" if e.fwd else ""))
    return bool(np.abs(e.K).max() > 0.05)


BND = dict(bounds=("mixed", "mixed", "state", "loose"), quad=(0.0, 0.0, 0.05))


@suite.sub(case(**BND), quick=54, shards=3)
def bounded(c):
    """complementarity conditions at every node"""
    e = Economy(c["e"])
    model = e.load(orders=c["orders"][: len(e.S)])
    if e.fwd:
        a, v = e.roots()
        if a.max() > 0.95 or v.min() < 1.2:
            reject("roots")
    kw, s, dp = options(c, e, model)
    try:
        res = run(model, **{**kw, "details": c["details"]})
    except Exception as ex:
        if "solving point" in str(ex) and (c["e"]["quad"] or e.fwd):
            reject("no solution at a node")
        raise
    dr, ok = report(c, res, c["tol"])
    if c["details"]:
        expect(bool(res.complementarities) == (not c["ign"] and any(b is not None for b in e.spec["bounds"])), "complementarities are used unless they are ignored")
    if ok is False:
        label("not converged")
        expect(e.fwd or c["e"]["quad"] or c["e"]["G"], f"no convergence in {res.iterations} iterations, error {res.err}")
        return False
    x = values(dr, dp, s)
    eps = 20 * c["tol"] + 1e-5
    lbub = [e.bnd(np.tile(dp.node(i), (len(s), 1)), s) for i in range(dp.n_nodes)]
    lb, ub = np.array([b[0] for b in lbub]), np.array([b[1] for b in lbub])
    if c["ign"]:
        lb, ub = -np.inf + 0 * x, np.inf + 0 * x
    r = euler(e, dp, dr, s, x)
    if not c["details"] and (not np.isfinite(r).all() or e.fwd or c["e"]["quad"] or c["e"]["G"]):
        return False
    expect((x >= lb - eps).all() and (x <= ub + eps).all(), f"controls out of bounds by {max((lb - x).max(), (x - ub).max())}")
    v = mcp(r, x, lb, ub)
    expect(np.abs(v).max() <= eps, f"complementarity is violated by {np.abs(v).max()}")
    if not c["e"]["G"] and not c["e"]["quad"] and not c["ign"] and (np.diag(np.diag(e.F)) == e.F).all():
        want = np.clip(np.array([e.rule(dp.node(i), s) for i in range(dp.n_nodes)]), lb, ub)
        close(x, want, 0, 1e-4, "rule clipped to the bounds")
    act = (np.abs(x - lb) < 1e-3) | (np.abs(x - ub) < 1e-3)
    label(c["e"]["bounds"] + (" fwd" if e.fwd else ""))
    return bool(act.any() and not act.all()) or c["e"]["bounds"] == "loose"


@suite.sub(case(bounds=("none", "mixed", "state"), quad=(0.0, 0.05)), quick=36, shards=2)
def steps(c):
    """each rule of the trace solves the conditions given the previous one"""
    e = Economy(c["e"])
    model = e.load(orders=c["orders"][: len(e.S)])
    kw, s, dp = options(c, e, model)
    n = 1 + c["seed"] % 4
    kw["maxit"] = n
    kw["tol"] = 1e-12
    try:
        res = run(model, trace=True, **kw)
    except Exception as ex:
        if "solving point" in str(ex):
            reject("no solution at a node")
        raise
    expect(len(res.trace) == res.iterations + 1, f"{len(res.trace)} rules in the trace of {res.iterations} iterations")
    drs = [t["dr"] for t in res.trace]
    xs = [values(d, dp, s) for d in drs]
    close(values(res.dr, dp, s), xs[-1], 0, 1e-12, "the last rule of the trace is the result")
    if c["guess"] == "none":
        close(xs[0], np.tile(e.xb, (len(xs[0]), len(s), 1)), 0, 1e-9, "the default guess is the calibrated value")
    elif "dr0" in kw and c["guess"] in ("rule", "far"):
        close(xs[0], values(kw["dr0"], dp, s), 0, 1e-8, "the first rule is the guess")
    elif "dr0" in kw and c["guess"] == "linear" and c["e"]["proc"] != "mc":
        d0 = getattr(kw["dr0"], "dr", kw["dr0"])
        close(xs[0], np.array([d0(dp.node(i), s) for i in range(dp.n_nodes)]), 0, 1e-8, "the first rule is the linear one")
    close(res.err, np.abs(xs[-1] - xs[-2]).max(), 1e-6, 1e-7, "error = distance of the last two rules")
    lbub = [e.bnd(np.tile(dp.node(i), (len(s), 1)), s) for i in range(dp.n_nodes)]
    lb, ub = np.array([b[0] for b in lbub]), np.array([b[1] for b in lbub])
    if c["ign"] or c["e"]["bounds"] == "none":
        lb, ub = -np.inf + 0 * xs[0], np.inf + 0 * xs[0]
    for k in range(1, len(xs)):
        if not np.isfinite(xs[k]).all() or np.abs(xs[k]).max() > 20:
            break
        r = euler(e, dp, drs[k - 1], s, xs[k])
        v = np.abs(mcp(r, xs[k], lb, ub))
        if c["e"]["quad"] and v.max() > 1e-4:
            label("inner solver stopped")
            break
        expect(v.max() <= 1e-4, f"iteration {k}: conditions given the next rule are violated by {v.max()}")
    else:
        return n > 1
    return False


@st.composite
def nodes_case(draw):
    c = draw(case(procs=("var1",), ne=(1, 1), quad=(0.0, 0.0, 0.05)))
    return {**c, "N": draw(st.integers(2, 6)), "gdp": True, "guess": draw(st.sampled_from(["none", "rule", "result"])), "body": draw(st.sampled_from(["linear", "steps"]))}


@suite.sub(nodes_case(), quick=24, shards=2)
def growing(c):
    """processes discretized over sets of nodes, each of which has its own future nodes"""
    if c["body"] == "linear":
        c["e"]["quad"] = 0.0
        return linear(c)
    return steps(c)
