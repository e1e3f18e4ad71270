"""C15 stacks of matrices"""
import numpy as np
from pbt import *
from pbt.gen import *
from pbt.interp import multilinear, linaxes
from dolo.numeric import serial_operations as so
from dolo.numeric.optimize import newton as nw
from dolo.algos import invert as inv_
from dolo.numeric.grids import UniformCartesianGrid, UnstructuredGrid, EmptyGrid
from dolo.numeric.decision_rule import DecisionRule
from dolo.numeric.processes import MarkovChain
from dolo.numeric.tensor import mdot, sdot, multidot_old
import importlib

# (the package exports functions with the names of these modules)
iti = importlib.import_module("dolo.algos.improved_time_iteration")

suite = Suite(
    "C15",
    "Stacks of generated sizes of well-conditioned (including permuted, pivoting-demanding) matrices; every stacked"
    " operation, in place or not, is compared with the dense operation element by element; the linear operator of improved"
    " time iteration is compared with an explicit sum over integration nodes using an independent interpolation and its"
    " inverse with a dense solve. Non-trivial = at least two elements of size two or more.",
)


@st.composite
def stack(draw, nmax=5):
    return dict(N=draw(st.integers(1, 5)), n=draw(st.integers(1, nmax)), p=draw(st.integers(1, 4)), q=draw(st.integers(1, 3)), M=draw(st.integers(1, 3)), seed=draw(seeds), kind=draw(st.sampled_from(["dense", "permuted", "triangular", "scaled", "pivots"])))


def mats(r, shape, n, kind):
    A = r.randn(*shape, n, n)
    A = A + 1.5 * n * np.eye(n) * np.sign(r.randn(*shape, 1, n) + 1e-3)
    if kind == "permuted":
        A = A[..., r.permutation(n), :]
        if n > 1 and r.rand() < 0.5:
            A = A * 0 + (np.eye(n)[r.permutation(n)] + 0.0) * (1 + r.rand(*shape, n, 1))
    elif kind == "triangular":
        A = np.triu(A)[..., ::-1, :]
    elif kind == "pivots":
        # well conditioned, with tiny elements where elimination starts
        P = np.eye(n)[r.permutation(n)]
        A = P * (1 + r.rand(*shape, n, n)) + np.tril(r.randn(*shape, n, n), -1) @ P * 0.5 + r.randn(*shape, n, n) * 10.0 ** -r.randint(4, 15)
    elif kind == "scaled":
        A = A * 10.0 ** r.randint(-4, 5, size=shape + (1, 1))
    return np.ascontiguousarray(A)


TOL = dict(rtol=1e-8, atol=1e-9)


def rel(a, b, msg):
    sc = np.abs(b).max() + 1e-300
    close(np.asarray(a) / sc, b / sc, msg=msg, **TOL)


@suite.sub(stack(), quick=300, thorough=3000)
def solves(c):
    r = rs(c["seed"])
    N, n = c["N"], c["n"]
    A, B = mats(r, (N,), n, c["kind"]), r.randn(N, n)
    ref = np.array([np.linalg.solve(A[i], B[i]) for i in range(N)])
    A0, B0 = A.copy(), B.copy()
    for mod, name in ((so, "serial_operations"), (nw, "newton")):
        for dg in (True, False):
            rel(mod.serial_solve(A, B, diagnose=dg), ref, f"{name}.serial_solve, diagnose={dg}")
            close(A, A0, 0, 0, "matrices are left alone")
            close(B, B0, 0, 0, "right hand sides are left alone")
    if hasattr(inv_, "serial_solve"):
        rel(inv_.serial_solve(A, B), ref, "invert.serial_solve")
    # elements by elements: changing one problem does not change the others
    if N > 1:
        k = c["seed"] % N
        A2, B2 = A.copy(), B.copy()
        A2[k], B2[k] = mats(r, (), n, "dense"), r.randn(n)
        for dg in (True, False):
            x = so.serial_solve(A2, B2, diagnose=dg)
            keep = [i for i in range(N) if i != k]
            rel(x[keep], ref[keep], "other problems of the stack")
            rel(x[k], np.linalg.solve(A2[k], B2[k]), "changed problem")
    label(c["kind"])
    return N > 1 and n > 1


@suite.sub(stack(), quick=80)
def singular_matrices_are_reported(c):
    r = rs(c["seed"])
    N, n = c["N"], c["n"]
    A, B = mats(r, (N,), n, "dense"), r.randn(N, n)
    k = c["seed"] % N
    A[k] = 0.0
    for mod in (so, nw):
        try:
            mod.serial_solve(A, B)
        except Exception as e:
            if hasattr(e, "i"):
                expect(e.i == k, "the point which can not be solved")
            continue
        expect(False, "a singular matrix is solved silently")
    return N > 1


@suite.sub(stack(), quick=200, thorough=2000)
def products(c):
    r = rs(c["seed"])
    A, B = r.randn(c["N"], c["n"], c["p"]), r.randn(c["N"], c["p"], c["q"])
    rel(so.serial_multiplication(A, B), np.array([a @ b for a, b in zip(A, B)]), "serial_multiplication")
    rel(so.serial_multiplication(A[0], B[0]), A[0] @ B[0], "serial_multiplication of matrices")
    x = r.randn(c["N"], c["p"])
    ref = np.array([a @ b for a, b in zip(A, x)])
    rel(iti.ssmul(A, x), ref, "ssmul")
    if hasattr(iti, "ssmul_inplace"):
        O = r.randn(c["N"], c["n"])
        O0 = O.copy()
        out = iti.ssmul_inplace(A, x, O)
        rel(out, O0 + ref, "ssmul_inplace accumulates")
        rel(O, O0 + ref, "ssmul_inplace works in place")
    # scaling of the derivatives with respect to future controls
    Phi, J = r.randn(c["M"], c["N"], c["n"]), r.randn(c["M"], c["q"], c["N"], c["n"], c["p"])
    ref = Phi[:, None, :, :, None] * J
    iti.inplace(Phi, J)
    rel(J, ref, "inplace")
    return c["N"] > 1 and c["n"] > 1


@suite.sub(stack(), quick=300, thorough=3000)
def inverses(c):
    r = rs(c["seed"])
    N, n, p, q, M = c["N"], c["n"], c["p"], c["q"], c["M"]
    for shape in ((N,), (M, N)):
        A = mats(r, shape, n, c["kind"])
        W = A.copy()
        X = inv_.invert_gu(W)
        rel(X, np.linalg.inv(A), "invert_gu")
        V = r.randn(*shape, n)
        ref = np.linalg.solve(A, V[..., None])[..., 0]
        out = inv_.solve_gu(A.copy(), V.copy())
        rel(out, ref, "solve_gu")
        V = r.randn(*shape, n, p)
        ref = np.linalg.solve(A, V)
        inv_.solve_tensor(A.copy(), V)
        rel(V, ref, "solve_tensor solves in place")
        if not hasattr(inv_, "solve_tensor_old"):
            continue
        V = r.randn(*shape, n, p, q)
        ref = np.linalg.solve(A, V.reshape(shape + (n, p * q))).reshape(V.shape)
        inv_.solve_tensor_old(A.copy(), V)
        rel(V, ref, "solve_tensor_old solves in place")
    A, V = mats(r, (), n, c["kind"]), r.randn(n, p)
    ref = np.linalg.solve(A, V)
    inv_.invert(A, V)
    rel(V, ref, "invert")
    label(c["kind"])
    return N > 1 and n > 1


@suite.sub(stack(nmax=4), quick=150, thorough=2000)
def tensors(c):
    r = rs(c["seed"])
    n, p, q, N = c["n"], c["p"], c["q"], c["N"]
    T = r.randn(N, n, p)
    A, B = r.randn(n, q), r.randn(p, q + 1)
    rel(mdot(T, A, B), np.einsum("anp,nb,pc->abc", T, A, B), "mdot, two matrices")
    rel(mdot(T, B), np.einsum("anp,pc->anc", T, B), "mdot, one matrix")
    v = r.randn(p)
    rel(mdot(T, v), T @ v, "mdot, one vector")
    rel(mdot(T, r_ := r.randn(n), v), np.einsum("anp,n,p->a", T, r_, v), "mdot, two vectors")
    rel(sdot(T, B), np.einsum("anp,pc->anc", T, B), "sdot")
    rel(multidot_old(T, [A, B]), np.einsum("anp,nb,pc->abc", T, A, B), "multidot_old")
    return n > 1 and p > 1


# -- the operator of improved time iteration ------------------------------------
@st.composite
def op_case(draw):
    g = draw(uniform_grid(dmax=2, nmin=2, nmax=4))
    return dict(s=g, exo=draw(st.sampled_from(["empty", "unstructured"])), nm=draw(st.integers(1, 3)), nim=draw(st.integers(1, 3)), nx=draw(st.integers(1, 3)), seed=draw(seeds))


def operator(c):
    r = rs(c["seed"])
    ax = linaxes(c["s"])
    endo = UniformCartesianGrid(c["s"]["min"], c["s"]["max"], c["s"]["n"])
    N = int(np.prod(c["s"]["n"]))
    nx = c["nx"]
    if c["exo"] == "empty":
        nm, nim, exo, dp = 1, c["nim"], EmptyGrid(), None
    else:
        nm = nim = c["nm"]
        pts = r.randn(nm, 1)
        exo, dp = UnstructuredGrid(pts), MarkovChain(stochastic_matrix(c["seed"], nm), pts)
    M = r.randn(nm, nim, N, nx, nx) * 0.5 / (nim * nx)
    S = np.stack([a[0] + (a[-1] - a[0]) * r.rand(nm, nim, N) for a in ax], axis=-1)
    dr = DecisionRule(exo, endo, interp_method="linear", dprocess=dp)

    def L(x):
        out = np.zeros_like(x)
        for i in range(nm):
            for j in range(nim):
                V = x[j if c["exo"] != "empty" else 0].reshape(tuple(c["s"]["n"]) + (nx,))
                for n in range(N):
                    out[i, n] += M[i, j, n] @ multilinear(ax, V, S[i, j, n])
        return out

    return M, S, dr, L, (nm, N, nx)


@suite.sub(op_case(), quick=80, thorough=800)
def operators(c):
    M, S, dr, L, sh = operator(c)
    M0, S0 = M.copy(), S.copy()
    r = rs(c["seed"] + 1)
    op = iti.Operator(M, S, dr)
    x = r.randn(*sh)
    x0 = x.copy()
    n = int(np.prod(sh))
    expect(op.shape == (n, n), f"shape of the operator {op.shape}")
    close(op.apply(x), L(x), 1e-9, 1e-9, "apply")
    close(x, x0, 0, 0, "apply leaves its argument alone")
    close(op.matvec(x.ravel()), L(x).ravel(), 1e-9, 1e-9, "matrix-vector product")
    y = x.copy()
    op.apply(y, inplace=True)
    close(y, L(x), 1e-9, 1e-9, "apply in place")
    A = op.as_matrix()
    close(A @ x.ravel(), L(x).ravel(), 1e-9, 1e-9, "as_matrix")
    op.addid = True
    close(op.matvec(x.ravel()), (x - L(x)).ravel(), 1e-9, 1e-9, "preconditioned system")
    # inverse: (I - L) tot = D^-1 res
    D, res = mats(r, sh[:2], sh[2], "permuted"), r.randn(*sh)
    D0, res0 = D.copy(), res.copy()
    tot, nn, lam = iti.invert_jac(res, D, M, S, dr, tol=1e-13, maxit=2000)
    ddx = np.linalg.solve(D, res[..., None])[..., 0]
    ref = np.linalg.solve(np.eye(n) - A, ddx.ravel()).reshape(sh)
    if np.abs(np.linalg.eigvals(A)).max() < 0.95:
        close(tot, ref, 1e-7, 1e-8, "inversion of the jacobian")
        label("inverted")
    for a, b, t in ((M, M0, "M"), (S, S0, "S"), (D, D0, "dres"), (res, res0, "res")):
        close(a, b, 0, 0, f"argument {t} is left alone")
    return sh[1] > 1 and sh[2] > 1


@suite.sub(st.fixed_dictionaries(dict(s=st.lists(st.integers(1, 3), min_size=1, max_size=2), r=st.lists(st.integers(1, 3), min_size=1, max_size=2), n=st.integers(1, 5), seed=seeds)), quick=150, thorough=1500)
def derivatives(c):
    """numerical derivatives of functions of arrays, with one or many observations"""
    r = rs(c["seed"])
    s, d, n = tuple(c["s"]), tuple(c["r"]), c["n"]
    A, B = r.randn(*s, *d), r.randn(*s, *d)
    k = len(d)
    # many observations: the last dimension of the argument
    x = r.randn(*d, n)
    x0 = x.copy()
    f = lambda x: np.tensordot(A, x, k) + np.tensordot(B, x**2, k)
    ref = A[..., None] + 2 * B[..., None] * x[(None,) * len(s)]
    got = so.numdiff1(f, x)
    expect(got.shape == s + d + (n,), f"derivatives of shape {got.shape}")
    close(got, ref, 1e-6, 1e-5, "derivatives with respect to each observation")
    close(x, x0, 0, 0, "point left alone")
    # one argument, many observations of the value
    y, w = r.randn(*d), r.randn(n)
    y0 = y.copy()
    g = lambda y: (np.tensordot(A, y, k) + np.tensordot(B, y**2, k))[..., None] * w
    got = so.numdiff2(g, y)
    expect(got.shape == s + d + (n,), f"derivatives of shape {got.shape}")
    close(got, (A + 2 * B * y)[..., None] * w, 1e-6, 1e-5, "derivatives with respect to a common argument")
    close(y, y0, 0, 0, "point left alone")
    label(f"{len(s)} dimensions of the value, {k} of the argument")
    return n > 1
