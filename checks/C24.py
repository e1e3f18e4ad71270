"""C24 improved time iteration"""
import importlib
import warnings
import numpy as np
from pbt import *
from pbt.gen import *
from pbt.econ import economy, Economy, Discrete, euler, mcp
from checks.C23 import case, nodes_case, options, values, run as ti

from dolo.algos.results import AlgoResult

iti = importlib.import_module("dolo.algos.improved_time_iteration")

suite = Suite(
    "C24",
    "The generated economies of C23 (i.i.d., chains, autoregressive; backward or forward looking; no, constant or varying bounds), initial guesses,"
    " interpolations, discretizations and tolerances; both ways to invert the jacobian. Rules are judged by the exact solution of linear"
    " economies, by expected residuals recomputed from expression trees at every node, and by the rule found by time iteration."
    " Non-trivial = the rule varies with states and, when there are bounds, they bind at some but not all nodes.",
)


def run(model, **kw):
    kw.pop("inner_maxit", None)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return iti.improved_time_iteration(model, verbose=False, **kw)


@st.composite
def icase(draw, **kw):
    c = draw(case(**kw))
    c["inv"] = draw(st.sampled_from(["iti", "iti", "gmres"]))
    return c


def setting(c):
    e = Economy(c["e"])
    if e.fwd:
        a, v = e.roots()
        if a.max() > 0.95 or v.min() < 1.2:
            reject("roots")
    model = e.load(orders=c["orders"][: len(e.S)])
    kw, s, dp = options(c, e, model)
    kw["maxit"] = 60
    return e, model, kw, s, dp


def result(c, model, kw, **more):
    res = run(model, details=c["details"], invmethod=c["inv"], **{**kw, **more})
    if not c["details"]:
        expect(not isinstance(res, AlgoResult), "a rule is returned when details are not requested")
        return res, None
    expect(bool(res.x_converged) == (res.f_x < kw["tol"]), f"converged={res.x_converged}, residuals {res.f_x}, tolerance {kw['tol']}")
    return res.dr, bool(res.x_converged)


@suite.sub(icase(), quick=42, shards=3)
def linear(c):
    """economies with a known solution at each node"""
    e, model, kw, s, dp = setting(c)
    dr, ok = result(c, model, kw)
    expect(ok is not False or (e.fwd and c["guess"] == "far"), "no convergence in a linear economy")
    if ok is False or (ok is None and e.fwd and c["guess"] == "far"):
        return False
    sol = Discrete(e, dp)
    x = values(dr, dp, s)
    r = euler(e, dp, dr, s, x)
    expect(np.abs(r).max() <= 2 * c["tol"], f"expected residuals {np.abs(r).max()} at the solution, tolerance {c['tol']}")
    for i in range(dp.n_nodes):
        close(x[i], sol(i, s), 0, 200 * c["tol"], f"solution at node {i} of the shocks")
    label(c["e"]["proc"] + (" fwd" if e.fwd else ""))
    return bool(np.abs(e.K).max() > 0.05)


BND = dict(bounds=("mixed", "mixed", "state", "loose"), quad=(0.0, 0.0, 0.05))


@suite.sub(icase(**BND), quick=54, shards=3)
def bounded(c):
    """complementarity conditions at every node; same rule as time iteration"""
    e, model, kw, s, dp = setting(c)
    simple = not (e.fwd or c["e"]["quad"])
    try:
        dr, ok = result(c, model, kw)
    except Exception as ex:
        if "solving point" in str(ex) and not simple:
            reject("no solution at a node")
        raise
    if ok is False or (ok is None and not simple):
        label("not converged")
        expect(not simple or c["guess"] == "far", "no convergence in a simple economy")
        return False
    x = values(dr, dp, s)
    eps = 3 * c["tol"] + 1e-9
    lbub = [e.bnd(np.tile(dp.node(i), (len(s), 1)), s) for i in range(dp.n_nodes)]
    lb, ub = np.array([b[0] for b in lbub]), np.array([b[1] for b in lbub])
    if c["ign"]:
        lb, ub = -np.inf + 0 * x, np.inf + 0 * x
    expect((x >= lb - eps).all() and (x <= ub + eps).all(), f"controls out of bounds by {max((lb - x).max(), (x - ub).max())}")
    r = euler(e, dp, dr, s, x)
    # the two reformulations of bounds are equivalent up to a factor
    v = mcp(r, x, lb, ub)
    expect(np.abs(v).max() <= 10 * eps, f"complementarity is violated by {np.abs(v).max()}")
    if c["seed"] % 2 and not c["e"]["quad"]:
        other = ti(model, **{**kw, "maxit": 400, "inner_maxit": 30})
        if other.x_converged:
            close(x, values(other.dr, dp, s), 0, 1e-3, "rule of time iteration")
            label("compared")
    act = (np.abs(x - lb) < 1e-3) | (np.abs(x - ub) < 1e-3)
    label(c["e"]["bounds"] + (" fwd" if e.fwd else ""))
    return bool(act.any() and not act.all()) or c["e"]["bounds"] == "loose"


@suite.sub(icase(bounds=("none", "mixed"), quad=(0.0, 0.05)), quick=24, shards=2)
def radius(c):
    """reported contraction factor, and derivative of the expected residuals"""
    e, model, kw, s, dp = setting(c)
    c = {**c, "details": True}
    n = dp.n_nodes * len(s) * len(e.X)
    if n > 150 or n < 3:
        reject("size")
    res = run(model, compute_radius=True, **kw)
    if not res.x_converged or not c["e"]["G"]:
        return False
    M = np.zeros((n, n))
    for i in range(n):
        v = np.zeros(n)
        v[i] = 1
        M[:, i] = res.L.matvec(v)
    lam = np.abs(np.linalg.eigvals(M)).max()
    close(res.radius, lam, 1e-3, 1e-6, "contraction factor = spectral radius of the operator")
    # (today's derivative) * operator = - derivative with respect to tomorrow's rule
    x = values(res.dr, dp, s)
    r = rs(c["seed"])
    if c["e"]["bounds"] == "none" or c["ign"] or not any(b is not None for b in e.spec["bounds"]):
        import copy

        d = r.randn(*x.shape)
        h = 1e-5
        dr = copy.deepcopy(res.dr)

        def F(xt, xT):
            dr.set_values(xT)
            return euler(e, dp, dr, s, xt)

        tomorrow = (F(x, x + h * d) - F(x, x - h * d)) / (2 * h)
        y = (M @ d.ravel()).reshape(x.shape)
        today = (F(x + h * y, x) - F(x - h * y, x)) / (2 * h)
        close(today, -tomorrow, 1e-3, 1e-4, "operator of the iterations")
        label("operator")
    return True


@st.composite
def inodes_case(draw):
    c = draw(nodes_case())
    c["inv"] = draw(st.sampled_from(["iti", "iti", "gmres"]))
    c["e"]["quad"] = 0.0
    return c


@suite.sub(inodes_case(), quick=16, shards=2)
def growing(c):
    """processes discretized over sets of nodes, each of which has its own future nodes"""
    return linear(c)
