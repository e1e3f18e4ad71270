"""C08 decision rules on grids"""
import itertools
import numpy as np
from pbt import *
from pbt.gen import *
from pbt.interp import multilinear, natural_cubic, linaxes
from dolo.numeric.grids import UniformCartesianGrid, NonUniformCartesianGrid, UnstructuredGrid, EmptyGrid
from dolo.numeric.decision_rule import DecisionRule, ConstantDecisionRule, CallableDecisionRule
from dolo.numeric.processes import GDP

suite = Suite(
    "C08",
    "Rules are built from generated values on every supported pair (none / unordered / product exogenous grid) x"
    " (even / uneven product endogenous grid) x (linear / cubic) and queried at nodes and at generated interior points"
    " through every calling convention; oracle: explicit multilinear corner sum or tensor natural cubic spline."
    " Non-trivial = more than one control or more than one state, and at least one query which is not a node.",
)


@st.composite
def case(draw, exo, endo, method, dmax=3, mmax=1):
    nmin = 2 if method == "linear" else 3
    c = dict(seed=draw(seeds), nx=draw(st.integers(1, 3)), method=method, exo=exo, endo=endo)
    if endo == "uniform":
        c["s"] = draw(uniform_grid(dmax=dmax, nmin=nmin, nmax=6))
    else:
        c["s"] = draw(axes(dmax=dmax, nmin=nmin, nmax=5))
    if exo == "unstructured":
        d = draw(st.integers(1, 2))
        c["m"] = draw(st.lists(vec(d, -3, 3), min_size=1, max_size=4))
    elif exo == "uniform":
        c["m"] = draw(uniform_grid(dmax=mmax, nmin=nmin, nmax=4))
    elif exo == "nonuniform":
        c["m"] = draw(axes(dmax=mmax, nmin=nmin, nmax=4))
    dm = 1
    if exo == "uniform":
        dm = len(c["m"]["n"])
    elif exo == "nonuniform":
        dm = len(c["m"])
    d = len(c["s"]["n"]) if endo == "uniform" else len(c["s"])
    c["N"] = draw(st.integers(1, 4))
    c["q"] = draw(st.lists(st.lists(st.one_of(fl(0, 1), st.sampled_from([0.0, 1.0, 0.5])), min_size=d + dm, max_size=d + dm),
                           min_size=c["N"], max_size=c["N"]))
    c["i"] = draw(st.integers(0, 5))
    c["j"] = draw(st.integers(0, 5))
    c["affine"] = draw(st.booleans())
    return c


def endo_axes(c):
    return linaxes(c["s"]) if c["endo"] == "uniform" else c["s"]


def make_endo(c):
    if c["endo"] == "uniform":
        return UniformCartesianGrid(c["s"]["min"], c["s"]["max"], c["s"]["n"])
    return NonUniformCartesianGrid(c["s"])


def lerp(axs, u):
    return [a[0] + (a[-1] - a[0]) * t for a, t in zip(axs, u)]


def ref(c, axs, V, x):
    f = multilinear if c["method"] == "linear" else natural_cubic
    return f(axs, V, x)


INTS = [int, np.int64, np.int32, np.intp]  # types of the indices
TOL = dict(rtol=1e-7, atol=1e-7)


def dims(c):
    return len(c["s"]["n"]) if c["endo"] == "uniform" else len(c["s"])


def decide(c):
    c = dict(c)
    r = rs(c["seed"])
    axs = endo_axes(c)
    shape = tuple(len(a) for a in axs)
    n_s, nx = int(np.prod(shape)), c["nx"]
    endo = make_endo(c)
    label(f"{dims(c)} states", f"{nx} controls")
    kw = dict(interp_method=c["method"])
    n_m = 1
    if c["exo"] == "empty":
        exo = EmptyGrid()
    elif c["exo"] == "unstructured":
        exo = UnstructuredGrid(c["m"]); n_m = len(c["m"])
    elif c["exo"] == "uniform":
        exo = UniformCartesianGrid(c["m"]["min"], c["m"]["max"], c["m"]["n"]); n_m = int(np.prod(c["m"]["n"]))
    else:
        exo = NonUniformCartesianGrid(c["m"]); n_m = int(np.prod([len(a) for a in c["m"]]))
    integer = INTS[c["seed"] % len(INTS)]
    i = integer(c["i"] % n_m)
    label(integer.__name__)
    if c["affine"]:
        # an affine function of (shock index, states) is reproduced exactly everywhere
        a, B = r.randn(n_m, nx), r.randn(dims(c), nx)
        X = a[:, None, :] + (np.stack(np.meshgrid(*axs, indexing="ij"), -1).reshape(-1, len(axs)) @ B)[None]
    else:
        X = r.randn(n_m, n_s, nx)
    c["affine_ms"] = False
    if c["exo"] in ("uniform", "nonuniform") and c["affine"]:
        # affine in shocks and states
        c["affine_ms"] = True
        M_ = np.array(list(itertools.product(*(linaxes(c["m"]) if c["exo"] == "uniform" else c["m"]))))
        a2, B2 = r.randn(M_.shape[1], nx), r.randn(dims(c), nx)
        X = (M_ @ a2)[:, None, :] + (np.stack(np.meshgrid(*axs, indexing="ij"), -1).reshape(-1, len(axs)) @ B2)[None]
    X0 = X.copy()
    if c["seed"] % 2:
        dr = DecisionRule(exo, endo, values=X, **kw)
    else:
        dr = DecisionRule(exo, endo, **kw)
        if c["seed"] % 3 == 0:
            dr.set_values(r.randn(*X.shape))
        dr.set_values(X)
    close(X, X0, 0, 0, "the values given to the rule are left alone")
    if c["seed"] % 5 == 0:
        X[...] = -77.0  # the rule keeps its own copy
    s_pts = np.array([lerp(axs, u[: len(axs)]) for u in c["q"]])
    V = X0.reshape((n_m,) + shape + (nx,))
    nodes = endo.nodes
    if c["exo"] == "empty":
        close(dr.eval_s(nodes), X0[0], msg="values at the nodes", **TOL)
        exp = np.array([ref(c, axs, V[0], s) for s in s_pts])
        close(dr.eval_s(s_pts), exp, msg="eval_s", **TOL)
        close(dr(s_pts), exp, msg="dr(s)", **TOL)
        close(dr(s_pts[0]), exp[0], msg="dr(s), one point", **TOL)
        close(dr.eval_is(0, s_pts), exp, msg="eval_is without shocks", **TOL)
        close(dr.eval_ms(np.zeros((len(s_pts), 1)), s_pts), exp, msg="eval_ms without shocks", **TOL)
        close(dr.eval_ijs(0, 0, s_pts), exp, msg="eval_ijs without shocks", **TOL)
        close(dr(np.array([0.3]), s_pts[0]), exp[0], msg="dr(m,s) without shocks", **TOL)
    elif c["exo"] == "unstructured":
        for k in range(n_m):
            close(dr.eval_is(k, nodes), X0[k], msg=f"values at the nodes, shock {k}", **TOL)
        exp = np.array([ref(c, axs, V[i], s) for s in s_pts])
        close(dr.eval_is(i, s_pts), exp, msg="eval_is", **TOL)
        close(dr(i, s_pts), exp, msg="dr(i,s)", **TOL)
        close(dr(i, s_pts[0]), exp[0], msg="dr(i,s), one point", **TOL)
        close(dr.eval_ijs(integer(c["j"] % n_m), i, s_pts), exp, msg="eval_ijs", **TOL)
    else:
        maxs = linaxes(c["m"]) if c["exo"] == "uniform" else c["m"]
        label(f"{len(maxs)} shocks")
        for k in range(n_m):
            close(dr.eval_is(integer(k), nodes), X0[k], msg=f"values at the nodes, shock {k}", **TOL)
        full = list(maxs) + axs
        V = X0.reshape(tuple(len(a) for a in maxs) + shape + (nx,))
        m_pts = np.array([lerp(maxs, u[len(axs) :]) for u in c["q"]])
        at = lambda ms, ss: np.array([ref(c, full, V, np.concatenate([m, s])) for m, s in zip(ms, ss)])
        N = len(s_pts)
        exp = at(m_pts, s_pts)
        close(dr.eval_ms(m_pts, s_pts), exp, msg="eval_ms", **TOL)
        close(dr(m_pts, s_pts), exp, msg="dr(m,s)", **TOL)
        close(dr(m_pts[0], s_pts[0]), exp[0], msg="dr(m,s), one point", **TOL)
        close(dr(m_pts[0], s_pts), at([m_pts[0]] * N, s_pts), msg="dr(m,s), one shock", **TOL)
        close(dr(m_pts, s_pts[0]), at(m_pts, [s_pts[0]] * N), msg="dr(m,s), one state", **TOL)
        mi = np.array(list(itertools.product(*maxs)))[i]
        expi = at([mi] * N, s_pts)
        close(dr.eval_is(i, s_pts), expi, msg="eval_is", **TOL)
        close(dr(i, s_pts), expi, msg="dr(i,s)", **TOL)
        # along the nodes of a process: the j-th shock after the i-th
        W = r.rand(n_m, 3)
        inodes = np.array([[lerp(maxs, r.rand(len(maxs))) for _ in range(3)] for _ in range(n_m)])
        dr.dprocess = GDP(np.array(list(itertools.product(*maxs))), inodes, W / W.sum(axis=1, keepdims=True), grid=exo)
        j = integer(c["j"] % 3)
        close(dr.eval_ijs(i, j, s_pts), at([inodes[i, j]] * N, s_pts), msg="eval_ijs", **TOL)
        # integration nodes may be out of the grid of shocks
        far = np.array([[lerp(maxs, 3 * r.rand(len(maxs)) - 1) for _ in range(3)] for _ in range(n_m)])
        dr.dprocess = GDP(np.array(list(itertools.product(*maxs))), far, W / W.sum(axis=1, keepdims=True), grid=exo)
        for k in range(3):
            got, m_ = dr.eval_ijs(i, integer(k), s_pts), np.tile(far[i, k], (N, 1))
            close(got, dr.eval_ms(m_, s_pts), msg="eval_ijs out of the grid of shocks", **TOL)
            if c["affine_ms"] and c["method"] == "linear":
                close(got, m_ @ a2 + s_pts @ B2, rtol=1e-6, atol=1e-6, msg="affine functions are extrapolated")
    if c["affine"]:
        label("affine values")
        if c["exo"] == "empty" or c["exo"] == "unstructured":
            f = dr.eval_s(s_pts) if c["exo"] == "empty" else dr.eval_is(i, s_pts)
            close(f, a[i] + s_pts @ B, msg="affine functions are reproduced", **TOL)
    return nx > 1 or dims(c) > 1


def add(name, exo, endo, method, dmax, quick, shards=1, mmax=1):
    def f(c):
        return decide(c)
    f.__name__ = name
    suite.sub(case(exo, endo, method, dmax, mmax), quick=quick, shards=shards)(f)


add("linear_empty_uniform", "empty", "uniform", "linear", 3, 120)
add("linear_empty_uneven", "empty", "nonuniform", "linear", 2, 100)
add("cubic_empty_uniform", "empty", "uniform", "cubic", 3, 100)
add("linear_unordered_uniform", "unstructured", "uniform", "linear", 3, 150)
add("linear_unordered_uneven", "unstructured", "nonuniform", "linear", 2, 100)
add("cubic_unordered_uniform", "unstructured", "uniform", "cubic", 3, 120)
add("linear_product_uniform", "uniform", "uniform", "linear", 2, 100)
add("linear_product_uneven", "nonuniform", "nonuniform", "linear", 2, 100)
add("cubic_product_uniform", "uniform", "uniform", "cubic", 2, 100)


add("linear_two_shocks", "uniform", "uniform", "linear", 1, 60, mmax=2)
add("linear_two_shocks_uneven", "nonuniform", "nonuniform", "linear", 1, 60, mmax=2)
add("cubic_two_shocks", "uniform", "uniform", "cubic", 1, 60, mmax=2)


@suite.sub(st.tuples(st.integers(1, 4), st.integers(1, 4), vec(4, -5, 5), seeds), quick=100)
def constant(c):
    n, d, x, seed = c
    x = np.array(x)
    dr = ConstantDecisionRule(x)
    s = rs(seed).randn(n, d)
    m = rs(seed).randn(n, 2)
    ref_ = np.tile(x, (n, 1))
    close(dr(s), ref_, 0, 0, "dr(s)")
    close(dr(s[0]), x, 0, 0, "dr(s)")
    close(dr(m, s), ref_, 0, 0, "dr(m,s)")
    close(dr(0, s), ref_, 0, 0, "dr(i,s)")
    close(dr(0, s[0]), x, 0, 0, "dr(i,s)")
    close(dr.eval_ijs(0, 1, s), ref_, 0, 0, "rule at an integration node")
    return n > 1


@suite.sub(st.sampled_from(["spline", "quadratic", "", "Linear"]), quick=4)
def unknown_method_rejected(c):
    try:
        DecisionRule(EmptyGrid(), UniformCartesianGrid([0.0], [1.0], [4]), interp_method=c)
    except Exception:
        return True
    expect(False, "an unknown interpolation method is accepted")
