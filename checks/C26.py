"""C26 value functions"""
import copy
import importlib
import warnings
import numpy as np
from pbt import *
from pbt.gen import *
from pbt.econ import economy, Economy, future
from checks.C23 import values

from dolo.algos.results import AlgoResult
from dolo.numeric.decision_rule import DecisionRule, ConstantDecisionRule

vi = importlib.import_module("dolo.algos.value_iteration")

suite = Suite(
    "C26",
    "Generated economies with felicities and recursive values (one or two values, any discount), i.i.d. shocks, chains or autoregressive"
    " processes, and generated rules: values of linear rules with linear felicities have an exact solution (an affine fixed point), values of"
    " arbitrary rules are judged by the recursion recomputed node by node from the expression trees. Value iteration is judged on concave"
    " economies, by the known optimum where there is one and by search over feasible controls at every node."
    " Non-trivial = values vary with states and future values matter.",
)


@st.composite
def case(draw, **kw):
    kw = dict(dict(procs=("iid", "var1", "mc"), shock=0.1, G=False, val=("linear", "linear2", "linear2"), rare=True, scalar=True), **kw)
    return dict(
        e=draw(economy(**kw)), seed=draw(seeds), orders=[draw(st.integers(3, 7)), draw(st.integers(3, 5))], method=draw(st.sampled_from(["cubic", "cubic", "linear"])),
        guess=draw(st.sampled_from(["none", "none", "values"])), form=draw(st.sampled_from(["rule", "rule", "array", "constant"])), details=draw(st.sampled_from([True, True, False])), wrap=draw(st.booleans()), tol=draw(st.sampled_from([1e-6, 1e-8])),
    )


def evaluate(c, model, dr, grid, dp, e, method):
    r = rs(c["seed"])
    kw = dict(tol=c["tol"], maxit=3000, interp_method=method, verbose=False)
    d0 = None
    if c["guess"] == "values":
        d0 = DecisionRule(dp.grid, grid["endo"], dprocess=dp, interp_method=method)
        v0 = r.randn(max(dp.n_nodes, 1), grid["endo"].n_nodes, e.nv)
        d0.set_values(v0)
        kw["dr0"] = d0
        before = copy.deepcopy(values(d0, dp, grid["endo"].nodes))
    arg = dr
    if c["wrap"] and not isinstance(dr, np.ndarray):
        arg = AlgoResult()
        arg.dr = dr
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = vi.evaluate_policy(model, arg, details=c["details"], **kw)
    if c["details"]:
        expect(out.error <= c["tol"] and 1 <= out.iterations < 3000, f"error {out.error} after {out.iterations} iterations")
        out = out.solution
    if d0 is not None:
        close(values(d0, dp, grid["endo"].nodes), before, 0, 1e-12, "the initial guess is not modified")
    return out


def recursion(e, dp, s, x, dr, drv):
    """today's values at the nodes given tomorrow's ones"""
    out = np.zeros((dp.n_nodes, len(s), e.nv))
    for i in range(dp.n_nodes):
        m = np.tile(dp.node(i), (len(s), 1))
        for j in range(dp.n_inodes(i)):
            M = np.tile(dp.inode(i, j), (len(s), 1))
            S = e.g(m, s, x[i], M)
            out[i] += dp.iweight(i, j) * e.v(m, s, x[i], M, S, future(dr, dp, i, j, S), future(drv, dp, i, j, S))
    return out


@suite.sub(case(), quick=34, shards=2)
def exact(c):
    """values of linear rules"""
    e = Economy(c["e"])
    model = e.load(orders=c["orders"][: len(e.S)])
    grid, dp = model.discretize()
    s = grid["endo"].nodes
    n = dp.n_nodes
    dr = DecisionRule(dp.grid, grid["endo"], dprocess=dp, interp_method="cubic")
    rule = lambda i, t: e.rule(dp.node(i), t)
    dr.set_values(np.array([rule(i, s) for i in range(n)]))
    drv = evaluate(c, model, dr, grid, dp, e, c["method"])
    got = values(drv, dp, s)
    # affine fixed point: V_i(s) = a_i + b_i (s-sb)
    ns, nv = len(e.S), e.nv
    pts = np.vstack([e.sb, e.sb + np.eye(ns)])
    iid = c["e"]["proc"] == "iid"

    def T(coef):
        out = np.zeros_like(coef)
        for i in range(n):
            m = np.tile(dp.node(i), (len(pts), 1))
            x = rule(i, pts)
            tot = 0
            for j in range(dp.n_inodes(i)):
                J = 0 if iid else j
                M = np.tile(dp.inode(i, j), (len(pts), 1))
                S = e.g(m, pts, x, M)
                V = coef[J, 0] + (S - e.sb) @ coef[J, 1:]
                tot = tot + dp.iweight(i, j) * e.v(m, pts, x, M, S, rule(J, S), V)
            out[i, 0] = tot[0]
            out[i, 1:] = tot[1:] - tot[0]
        return out

    z = np.zeros((n, ns + 1, nv))
    c0 = T(z)
    A = np.zeros((z.size, z.size))
    for k in range(z.size):
        d = z.copy().ravel()
        d[k] = 1
        A[:, k] = (T(d.reshape(z.shape)) - c0).ravel()
    coef = np.linalg.solve(np.eye(z.size) - A, c0.ravel()).reshape(z.shape)
    want = np.array([coef[i, 0] + (s - e.sb) @ coef[i, 1:] for i in range(n)])
    # iterations stop when values change by less than the tolerance
    e1 = c["tol"] / (1 - e.beta)
    e2 = (c["tol"] + 0.1 * e1) / (1 - e.beta2)
    close(got[..., :1], want[..., :1], 0, 5 * e1 + 1e-9, "values at the nodes")
    close(got[..., 1:], want[..., 1:], 0, 5 * e2 + 1e-9, "second values at the nodes")
    label(c["e"]["proc"] + " " + c["e"]["val"])
    return bool(np.abs(coef[:, 1:]).max() > 0.05)


@suite.sub(case(val=("linear2", "lq", "target"), quad=(0.0, 0.05)), quick=34, shards=2)
def fixed_point(c):
    """values of arbitrary rules"""
    e = Economy(c["e"])
    model = e.load(orders=c["orders"][: len(e.S)])
    grid, dp = model.discretize()
    s = grid["endo"].nodes
    r = rs(c["seed"])
    # a rule, the array of its values at the nodes, or a constant
    form = c["form"]
    dr = DecisionRule(dp.grid, grid["endo"], dprocess=dp, interp_method=c["method"] if form == "array" else "linear")
    x = np.array([e.rule(dp.node(i), s) for i in range(dp.n_nodes)]) + 0.1 * r.randn(dp.n_nodes, len(s), len(e.X))
    if form == "constant":
        x[...] = e.xb + 0.1 * r.randn(len(e.X))
    dr.set_values(x)
    given = dict(rule=dr, array=x.copy(), constant=ConstantDecisionRule(x[0, 0].copy()))[form]
    try:
        drv = evaluate(c, model, given, grid, dp, e, c["method"])
    except Violation:
        # outside of the grid, the extrapolation of values may explode
        outside = False
        for i in range(dp.n_nodes):
            for j in range(dp.n_inodes(i)):
                S = e.g(np.tile(dp.node(i), (len(s), 1)), s, x[i], np.tile(dp.inode(i, j), (len(s), 1)))
                outside |= bool((np.abs(S - e.sb) > e.half).any())
        if outside:
            reject("extrapolation")
        raise
    v = values(drv, dp, s)
    if not np.isfinite(v).all():
        reject("extrapolation")
    w = recursion(e, dp, s, x, dr, drv)
    close(v, w, 1e-7, 10 * c["tol"], "values at the nodes satisfy the recursion")
    if form == "array":
        close(given, x, 0, 0, "the array is not modified")
    label(c["e"]["proc"] + " " + c["e"]["val"] + " " + form)
    return True


@suite.sub(case(val=("target", "lq", "lq"), bounds=("mixed", "state", "loose")), quick=32, shards=4, thorough=160)
def optimum(c):
    """value iteration"""
    c["e"]["beta"] = min(c["e"]["beta"], 0.9)
    e = Economy(c["e"])
    model = e.load(orders=[min(o, 5 if len(e.S) == 1 else 3) for o in c["orders"][: len(e.S)]])
    grid, dp = model.discretize()
    s = grid["endo"].nodes
    n = dp.n_nodes
    tol = 1e-6
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = vi.value_iteration(model, verbose=False, maxit=60, tol=tol, details=c["details"])
    if c["details"]:
        dr, drv = res.dr, res.drv
        expect(bool(res.v_converged) == bool(res.v_err < res.v_tol) and res.v_tol == tol, f"convergence of values: {res.v_converged}, error {res.v_err}, tolerance {res.v_tol}")
        expect(bool(res.x_converged) == bool(res.x_err < res.x_tol), "convergence of controls")
        if not (res.v_converged and res.x_err < 1e-3):
            # (values are first computed with constant controls, which may drive states away)
            expect(np.abs(e.A).sum(axis=1).max() > 0.8 or c["e"]["val"] == "lq", f"no convergence: errors {res.v_err}, {res.x_err}")
            label("not converged")
            return False
    else:
        dr, drv = res
    x, v = values(dr, dp, s), values(drv, dp, s)[:, :, 0]
    lbub = [e.bnd(np.tile(dp.node(i), (len(s), 1)), s) for i in range(n)]
    lb, ub = np.array([b[0] for b in lbub]), np.array([b[1] for b in lbub])
    expect((x >= lb - 1e-9).all() and (x <= ub + 1e-9).all(), f"controls out of bounds by {max((lb - x).max(), (x - ub).max())}")
    if not np.isfinite(v).all() or np.abs(v).max() > 1e3:
        reject("extrapolation")

    def Q(i, xx):
        m = np.tile(dp.node(i), (len(s), 1))
        ev = 0
        for j in range(dp.n_inodes(i)):
            S = e.g(m, s, xx, np.tile(dp.inode(i, j), (len(s), 1)))
            ev = ev + dp.iweight(i, j) * future(drv, dp, i, j, S)[:, 0]
        return e.u(m, s, xx) + e.beta * ev

    r = rs(c["seed"])
    for i in range(n):
        q = Q(i, x[i])
        scale = 1 + np.abs(q)
        d = np.abs(q - v[i]) / scale
        expect(d.max() < 1e-4, f"Bellman's equation is violated at node {i} by {d.max()}")
        for _ in range(60):
            a = np.where(np.isfinite(lb[i]), lb[i], x[i] - 1)
            b = np.where(np.isfinite(ub[i]), ub[i], x[i] + 1)
            t = r.choice([1.0, 0.1, 0.01])
            y = np.clip(x[i] + t * (a + (b - a) * r.rand(*a.shape) - x[i]), lb[i], ub[i])
            gain = (Q(i, y) - q) / scale
            expect(gain.max() < 2e-5, f"a feasible control improves the value at node {i} by {gain.max()}")
    if c["e"]["val"] == "target" and c["e"]["bounds"] == "loose":
        close(v, 0 * v, 0, 1e-5, "the target is always reached")
        close(x, np.array([e.rule(dp.node(i), s) for i in range(n)]), 0, 5e-3, "the target is always reached")
    label(c["e"]["proc"] + " " + c["e"]["val"] + " " + c["e"]["bounds"])
    act = (np.abs(x - lb) < 1e-5) | (np.abs(x - ub) < 1e-5)
    return bool(act.any() and not act.all()) or c["e"]["bounds"] == "loose"
