"""C16 nonlinear solvers"""
import itertools
import warnings
import numpy as np
from pbt import *
from pbt.gen import *
from dolo.numeric.optimize.newton import newton, SerialDifferentiableFunction
from dolo.numeric.optimize.ncpsolve import ncpsolve
from dolo.numeric.extern.lmmcp import lmmcp

suite = Suite(
    "C16",
    "Generated systems f(x) = A x + monotone terms - c with A positive definite (so that the equations, and the problems with"
    " any bounds, have exactly one solution), stacked or not, with dense, sparse or stacked derivatives; the returned points"
    " are judged by the definition of a solution and, for affine problems, by enumeration of the sets of active bounds;"
    " equations without solution must not be reported as solved. Non-trivial = at least two unknowns, for bounded problems"
    " with at least one active and one inactive bound.",
)


def build(c, N=None):
    """f, df and data of a stack of N problems"""
    r = rs(c["seed"])
    N = N or c["N"]
    n = c["n"]
    B = r.randn(N, n, n)
    A = np.einsum("aij,akj->aik", B, B) / n + c["mu"] * np.eye(n)
    K = r.randn(N, n, n) * c["skew"]
    A = A + K - K.transpose(0, 2, 1)
    A *= np.exp(c["scale"] * r.randn(N, 1, 1))
    w = r.rand(N, n) * c["nl"]
    z = r.randn(N, n)  # a root of the unconstrained problem
    g = {"atan": (np.arctan, lambda u: 1 / (1 + u**2)), "cube": (lambda u: u**3, lambda u: 3 * u**2), "sinh": (np.sinh, np.cosh)}[c["g"]]
    cst = np.einsum("aij,aj->ai", A, z) + w * g[0](z)

    def f(x):
        return np.einsum("aij,aj->ai", A, x) + w * g[0](x) - cst

    def df(x):
        J = A.copy()
        for i in range(n):
            J[:, i, i] += w[:, i] * g[1](x[:, i])
        return J

    return f, df, A, cst, z, r


@st.composite
def prob(draw, Nmax=6, nmax=4):
    return dict(
        N=draw(st.integers(1, Nmax)), n=draw(st.integers(1, nmax)), seed=draw(seeds), mu=draw(fl(0.1, 2, 2)), skew=draw(st.sampled_from([0.0, 0.3, 1.0])),
        scale=draw(st.sampled_from([0.0, 1.0])), nl=draw(st.sampled_from([0.0, 0.5, 2.0])), g=draw(st.sampled_from(["atan", "cube", "sinh"])),
        x0=draw(st.sampled_from([0.0, 0.3, 1.5])), tol=draw(st.sampled_from([1e-6, 1e-8, 1e-10])), bounds=draw(st.sampled_from(["none", "mixed", "mixed", "lower", "upper", "tight", "all"])),
        big=draw(st.sampled_from(["inf", "1e20"])), num=draw(st.booleans()), exact=draw(st.booleans()),
    )


def quiet(fun, *a, **k):
    """result, True if a failure was reported"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            out = fun(*a, **k)
        except Exception as e:
            if "onverge" in str(e) or isinstance(e, np.linalg.LinAlgError):
                return None, True
            raise
    return out, any("onverge" in str(i.message) for i in w)


def forms(f, df, N, n):
    """the first problem of the stack, as a dense and as a sparse one (blocks on the diagonal)"""
    import scipy.sparse as sp

    def stacked(x):
        return [f(x), df(x)]

    def flat(x):
        X = x.reshape((N, n))
        return f(X).ravel(), df(X)

    def full(x):
        v, J = flat(x)
        return [v, sp.block_diag(list(J)).toarray()]

    def sparse(x):
        v, J = flat(x)
        return [v, sp.csc_matrix(sp.block_diag(list(J)))]

    return dict(serial=stacked, full=full, sparse=sparse)


@suite.sub(prob(), quick=400, thorough=4000, shards=2)
def equations(c):
    f, df, A, cst, z, r = build(c)
    N, n = c["N"], c["n"]
    x0 = z + c["x0"] * r.randn(N, n)
    if c["exact"]:
        x0[0] = z[0]
    for jt, fun in forms(f, df, N, n).items():
        if jt == "serial" and c["num"]:
            fun = SerialDifferentiableFunction(f)
        start = x0.copy() if jt == "serial" else x0.ravel().copy()
        keep = start.copy()
        out, failed = quiet(newton, fun, start, tol=c["tol"], maxit=200, jactype=jt)
        expect(not failed, f"{jt}: the problem is monotone and has a solution: {c['g']} {c['nl']}")
        x, it = out
        close(start, keep, 0, 0, "initial point left alone")
        expect(x.shape == start.shape, "shape of the solution")
        X = x.reshape((N, n))
        expect(np.abs(f(X)).max() <= c["tol"], f"{jt}: residual {np.abs(f(X)).max()} above tolerance")
        close(X, z, 1e-6, 20 * c["tol"] / min(1, c["mu"]) * np.exp(3 * c["scale"]), f"{jt}: unique root")
        if c["nl"] == 0 and not c["num"]:
            expect(it <= 2, f"{jt}: linear problems are solved in one step, not {it}")
        # one step is not enough for success unless the residual is small
        out1, failed1 = quiet(newton, fun, start, tol=c["tol"], maxit=1, jactype=jt)
        if out1 is not None and np.abs(f(out1[0].reshape((N, n)))).max() >= c["tol"]:
            expect(failed1, f"{jt}: failure to converge is not reported")
    label(c["g"])
    return n > 1


@st.composite
def steep_case(draw):
    return dict(N=draw(st.integers(1, 4)), n=draw(st.integers(1, 2)), seed=draw(seeds), k=draw(st.sampled_from([10.0, 60.0, 300.0])), mu=draw(st.sampled_from([0.001, 0.01, 0.1])), x0=draw(st.sampled_from([0.5, 1.5])), num=draw(st.booleans()))


@suite.sub(steep_case(), quick=120, thorough=1200)
def steep(c):
    """monotone equations with full steps far beyond the root, which have to be shortened many times"""
    N, n, k, mu = c["N"], c["n"], c["k"], c["mu"]
    r = rs(c["seed"])
    z = r.randn(N, n)
    S = mu * (np.eye(n) + 0.3 * r.randn(N, n, n))
    S = 0.5 * (S + S.transpose(0, 2, 1)) + mu * n * np.eye(n)
    f = lambda x: np.arctan(k * (x - z)) + np.einsum("aij,aj->ai", S, x - z)

    def df(x):
        J = S.copy()
        for i in range(n):
            J[:, i, i] += k / (1 + k**2 * (x[:, i] - z[:, i]) ** 2)
        return J

    x0 = z + c["x0"] * r.uniform(0.3, 1, (N, n)) * r.choice([-1, 1], (N, n))
    most = 0
    for jt, fun in forms(f, df, N, n).items():
        if jt == "serial" and c["num"]:
            fun = SerialDifferentiableFunction(f)
        start = x0.copy() if jt == "serial" else x0.ravel().copy()
        out, failed = quiet(newton, fun, start, tol=1e-8, maxit=500, jactype=jt)
        expect(not failed, f"{jt}: the problem is monotone and has a solution")
        close(f(out[0].reshape((N, n))), 0 * z, 0, 1e-8, f"{jt}: residual")
        most = max(most, out[1])
    label(f"{k}")
    step = np.linalg.solve(df(x0), f(x0)[:, :, None])
    return np.abs(step).max() > 16 * np.abs(x0 - z).max()


@suite.sub(prob(), quick=150, thorough=1500)
def no_solution(c):
    N, n = c["N"], c["n"]
    r = rs(c["seed"])
    eps = 0.05 + r.rand(N, n)
    k = r.randint(N)
    mask = np.zeros((N, n))
    mask[k] = 1  # one of the problems has no root, others are fine
    f = lambda x: (x**2 + eps) * mask + (1 - mask) * (x - eps)

    def df(x):
        J = np.zeros((N, n, n))
        for i in range(n):
            J[:, i, i] = (2 * x[:, i] + 1e-12) * mask[:, i] + (1 - mask[:, i])
        return J

    x0 = 0.5 + r.rand(N, n)
    for jt, fun in forms(f, df, N, n).items():
        start = x0.copy() if jt == "serial" else x0.ravel().copy()
        out, failed = quiet(newton, fun, start, tol=1e-6, maxit=6, jactype=jt)
        expect(failed, f"{jt}: reports a root of an equation without root: {out}")
    return N > 1


def bounds(c, z, r, shape):
    a = z - 0.3 - 0.7 * r.rand(*shape)
    b = z + 0.3 + 0.7 * r.rand(*shape)
    kind = r.randint(4, size=shape)
    if c["bounds"] in ("mixed", "all", "tight"):
        # 1: the root of the unconstrained problem is below a; 2: above b
        a = np.where(kind == 1, z + 0.2 + 0.5 * r.rand(*shape), a)
        b = np.where(kind == 1, a + 0.2 + r.rand(*shape), b)
        b = np.where(kind == 2, z - 0.2 - 0.5 * r.rand(*shape), b)
        a = np.where(kind == 2, b - 0.2 - r.rand(*shape), a)
    if c["bounds"] == "tight":
        b = np.where(kind == 3, a + 1e-3, b)
    big = np.inf if c["big"] == "inf" else 1e20
    if c["bounds"] == "mixed":
        a = np.where(r.rand(*shape) < 0.3, -big, a)
        b = np.where(r.rand(*shape) < 0.3, big, b)
    elif c["bounds"] == "lower":
        a, b = z + 0.7 * r.randn(*shape), np.full(shape, big)
    elif c["bounds"] == "upper":
        a, b = np.full(shape, -big), z + 0.7 * r.randn(*shape)
    elif c["bounds"] == "none":
        a, b = np.full(shape, -big), np.full(shape, big)
    return a, b


def solves(f, X, a, b, eps, msg):
    v = f(X)
    expect(np.isfinite(X).all(), msg + ": not finite")
    expect((X >= a - eps).all() and (X <= b + eps).all(), f"{msg}: out of bounds by {max((a-X).max(), (X-b).max())}")
    # max(min(f, x-a), x-b) = 0 is another characterisation of solutions
    m = np.maximum(np.minimum(v, X - a), X - b)
    expect(np.abs(m).max() <= eps, f"{msg}: complementarity violated by {np.abs(m).max()}")


def active_sets(A, c, a, b):
    """solution of the affine problem by enumeration"""
    n = len(c)
    for sets in itertools.product((0, -1, 1), repeat=n):
        s = np.array(sets)
        x = np.where(s == -1, a, np.where(s == 1, b, 0.0))
        if not np.isfinite(x).all() or (np.abs(x) > 1e15).any():
            continue
        I = s == 0
        if I.any():
            x[I] = np.linalg.solve(A[np.ix_(I, I)], c[I] - A[np.ix_(I, ~I)] @ x[~I])
        v = A @ x - c
        if (x >= a - 1e-9).all() and (x <= b + 1e-9).all() and (v[s == -1] >= -1e-9).all() and (v[s == 1] <= 1e-9).all():
            return x
    raise HarnessError("no active set")


@suite.sub(prob(), quick=400, thorough=4000, shards=2)
def bounded(c):
    f, df, A, cst, z, r = build(c)
    N, n = c["N"], c["n"]
    a, b = bounds(c, z, r, (N, n))
    x0 = np.clip(z + c["x0"] * r.randn(N, n), np.maximum(a, -5), np.minimum(b, 5))
    if c["exact"]:
        x0 = np.where(np.abs(a) < 5, a, x0)
    sol = None
    if c["nl"] == 0:
        sol = np.array([active_sets(A[i], cst[i], a[i], b[i]) for i in range(N)])
    eps = 30 * c["tol"]
    n_ok = 0
    for jt, fun in forms(f, df, N, n).items():
        F = (lambda u: u) if jt == "serial" else np.ravel
        start = F(x0).copy()
        aa, bb = F(a).copy(), F(b).copy()
        if jt == "serial" and c["num"]:
            fun = SerialDifferentiableFunction(f)
        out, failed = quiet(ncpsolve, fun, aa, bb, start, tol=c["tol"], maxit=200, jactype=jt)
        label(f"{jt} {'failed' if failed else 'solved'}")
        expect(not failed, f"{jt}: monotone problem not solved")
        close(aa, F(a), 0, 0, "bounds left alone")
        close(bb, F(b), 0, 0, "bounds left alone")
        n_ok += 1
        X = out[0].reshape((N, n))
        solves(f, X, a, b, eps, jt)
        if sol is not None:
            close(X, sol, 1e-6, 100 * c["tol"] / min(1, c["mu"]) * np.exp(3 * c["scale"]), f"{jt}: enumerated solution")
        if c["bounds"] == "none":
            expect(np.abs(f(X)).max() < eps, "unconstrained solution")
            close(X, z, 1e-6, 20 * c["tol"] / min(1, c["mu"]) * np.exp(3 * c["scale"]), "unconstrained solution")
    act = ((a > z) | (b < z)).any()
    return bool(n > 1 and n_ok and act)


@suite.sub(prob(), quick=150, thorough=1500)
def independent(c):
    """solutions do not depend on the other problems of the stack"""
    f, df, A, cst, z, r = build(c)
    N, n = c["N"], c["n"]
    a, b = bounds(c, z, r, (N, n))
    x0 = np.clip(z, np.maximum(a, -5), np.minimum(b, 5)) * 0.7
    if c["exact"]:
        # a problem starting from its solution, at a bound where the residual is zero too
        a[0], b[0], x0[0] = z[0], z[0] + 1.0, z[0]
    fun = lambda x: [f(x), df(x)]
    full, failed = quiet(ncpsolve, fun, a, b, x0.copy(), tol=c["tol"], maxit=200)
    expect(not failed, "stack of monotone problems not solved")
    X = full[0]
    for i in range(N):
        fi = lambda x: [f(np.repeat(x, N, 0))[[i]], df(np.repeat(x, N, 0))[[i]]]
        one, fl_ = quiet(ncpsolve, fi, a[[i]], b[[i]], x0[[i]], tol=c["tol"], maxit=200)
        if not fl_:
            close(one[0][0], X[i], 1e-6, 200 * c["tol"] / min(1, c["mu"]) * np.exp(3 * c["scale"]), "problem solved alone or in a stack")
    # other problems modified
    if N > 1:
        def f2(x):
            v = f(x)
            v[1:] = x[1:] - 0.5 * (np.maximum(a, -3) + np.minimum(b, 3))[1:]
            return v

        def df2(x):
            J = df(x)
            J[1:] = np.eye(n)
            return J

        out, fl_ = quiet(ncpsolve, lambda x: [f2(x), df2(x)], a, b, x0.copy(), tol=c["tol"], maxit=200)
        if not fl_:
            close(out[0][0], X[0], 1e-6, 200 * c["tol"] / min(1, c["mu"]) * np.exp(3 * c["scale"]), "other problems of the stack changed")
    return N > 1 and n > 1


@suite.sub(prob(), quick=250, thorough=2500)
def lmmcp_(c):
    c = dict(c, N=1)
    f, df, A, cst, z, r = build(c, 1)
    n = c["n"]
    a, b = bounds(dict(c), z, r, (1, n))
    x0 = (z + c["x0"] * r.randn(1, n))[0]
    ff, dff = (lambda x: f(x[None])[0]), (lambda x: df(x[None])[0])
    keep = x0.copy()
    with np.errstate(all="ignore"):
        out, failed = quiet(lmmcp, ff, dff, x0, a[0].copy(), b[0].copy(), verbose=False, options=dict(preprocess=bool(c["seed"] % 2)))
    close(x0, keep, 0, 0, "initial point left alone")
    label(("failed " if failed else "solved ") + c["bounds"])
    if failed:
        expect(not c["nl"] == 0, "affine problem not solved")
        return False
    solves(lambda X: f(X), out[None], a, b, 1e-5, "lmmcp")
    if c["nl"] == 0:
        close(out, active_sets(A[0], cst[0], a[0], b[0]), 1e-5, 1e-5 / min(1, c["mu"]) * np.exp(3 * c["scale"]), "lmmcp: enumerated solution")
    return n > 1


@suite.sub(prob(), quick=200, thorough=2000)
def numerical_derivatives(c):
    f, df, A, cst, z, r = build(c)
    x = z + c["x0"] * r.randn(c["N"], c["n"])
    keep = x.copy()
    v, J = SerialDifferentiableFunction(f)(x)
    close(v, f(x), 0, 0, "value")
    close(x, keep, 0, 0, "argument left alone")
    sc = np.abs(df(x)).max() + np.abs(f(x)).max() + 1
    close(J / sc, df(x) / sc, 1e-5, 1e-5, "derivative")
    # non-square functions: rows of f are outputs
    q = c["seed"] % 3 + 1
    M = r.randn(c["N"], q, c["n"])
    v, J = SerialDifferentiableFunction(lambda u: np.einsum("aij,aj->ai", M, u))(x)
    close(J, M, 1e-5, 1e-5 * (1 + np.abs(v).max()), "derivative of a rectangular function")
    return c["n"] > 1
