"""C18 matrix decompositions and equations"""
import numpy as np
import scipy.linalg as sl
from pbt import *
from pbt.gen import *
from dolo.numeric.extern.qz import qzordered
from dolo.numeric.matrix_equations import second_order_solver, solve_sylvester, solve_sylvester_vectorized
from dolo.numeric import tensor as tn

suite = Suite(
    "C18",
    "Generated matrices (with real, complex, zero and infinite generalized eigenvalues), cutoffs, equations built from known"
    " well-separated spectra, tensors of orders 2 to 5; results are judged by reconstruction, by the residual of the equation"
    " written with einsum, and by the eigenvalues of the pencil. Non-trivial = size at least two (for decompositions,"
    " eigenvalues on both sides of the cutoff).",
)


@st.composite
def pencil(draw):
    return dict(n=draw(st.integers(1, 8)), seed=draw(seeds), kind=draw(st.sampled_from(["dense", "singular B", "singular A", "rotation", "spread"])), crit=draw(st.sampled_from([1.0, 1.0, 0.5, 2.0, 1 - 1e-8, 10.0])))


def pair(c):
    r = rs(c["seed"])
    n = c["n"]
    A, B = r.randn(n, n), r.randn(n, n)
    if c["kind"] == "singular B" and n > 1:
        B[:, 0] = B[:, 1:] @ r.randn(n - 1)
    if c["kind"] == "singular A" and n > 1:
        A[0] = r.randn(n - 1) @ A[1:]
    if c["kind"] == "rotation":
        B = np.eye(n)
        A = A - A.T + 0.3 * np.eye(n)
    if c["kind"] == "spread":
        Q, Z = np.linalg.qr(r.randn(n, n))[0], np.linalg.qr(r.randn(n, n))[0]
        d = 10.0 ** r.uniform(-2, 2, n)
        A, B = Q @ (np.diag(d) + np.triu(r.randn(n, n), 1)) @ Z, Q @ (np.eye(n) + np.triu(r.randn(n, n), 1) * 0.3) @ Z
    return A, B


@suite.sub(pencil(), quick=500, thorough=5000)
def ordered_qz(c):
    A, B = pair(c)
    n = c["n"]
    A0, B0 = A.copy(), B.copy()
    ev = sl.eigvals(A, B, homogeneous_eigvals=True)
    mod = np.sort(np.abs(ev[0]) / np.maximum(np.abs(ev[1]), 1e-300))
    if (np.abs(mod / c["crit"] - 1) < 1e-5).any():
        reject()
    with np.errstate(all="ignore"):
        S, T, U, V, eig = qzordered(A, B, c["crit"])
    close(A, A0, 0, 0, "arguments left alone")
    close(B, B0, 0, 0, "arguments left alone")
    I = np.eye(n)
    close(U @ U.T, I, 0, 1e-9, "U is orthogonal")
    close(V @ V.T, I, 0, 1e-9, "V is orthogonal")
    sA, sB = np.abs(A).max(), np.abs(B).max()
    close(U @ S @ V.T / sA, A / sA, 0, 1e-9, "A is reconstructed")
    close(U @ T @ V.T / sB, B / sB, 0, 1e-9, "B is reconstructed")
    close(np.tril(S, -2), 0 * I, 0, 1e-9, "S is quasi-triangular")
    close(np.tril(T, -1), 0 * I, 0, 1e-9, "T is triangular")
    eig = np.asarray(eig)
    expect(eig.shape == (n,), "one eigenvalue per dimension")
    k = int((mod > c["crit"]).sum())
    if (np.isfinite(eig)).all() and mod.max() < 1e6:
        close(np.sort(eig), mod, 1e-5, 1e-6 * mod.max(), "moduli of the generalized eigenvalues")
    expect((eig[:k] > c["crit"]).all() and not (eig[k:] > c["crit"]).any(), f"eigenvalues above {c['crit']} come first: {eig}")
    if 0 < k < n:
        # first columns of V span the corresponding deflating subspace: eigenvalues of the leading blocks are the big ones
        # (no 2x2 block is cut: eigenvalues of a block have the same modulus)
        e2 = sl.eigvals(S[:k, :k], T[:k, :k], homogeneous_eigvals=True)
        m2 = np.abs(e2[0]) / np.maximum(np.abs(e2[1]), 1e-300)
        expect((m2 > c["crit"] * (1 - 1e-6)).all(), "leading blocks hold the eigenvalues above the cutoff")
    label(c["kind"])
    return n > 1 and 0 < k < n


@st.composite
def syl(draw):
    d = draw(st.integers(1, 4))
    return dict(d=d, n=draw(st.integers(1, 4)), v=draw(st.integers(1, {1: 4, 2: 4, 3: 3, 4: 2}[d])), seed=draw(seeds))


@suite.sub(syl(), quick=300, thorough=3000)
def sylvester(c):
    r = rs(c["seed"])
    n, v, d = c["n"], c["v"], c["d"]
    A = r.randn(n, n) + 2 * n * np.eye(n)
    B, C = r.randn(n, n), r.randn(v, v)
    C *= 0.8 / max(np.abs(np.linalg.eigvals(C)).max(), 1e-3)
    D = r.randn(*((n,) + (v,) * d))
    args = [u.copy() for u in (A, B, C, D)]
    # well-posed: no product of eigenvalues is -1
    e = np.linalg.eigvals(np.linalg.solve(A, B))
    ec = np.linalg.eigvals(C)
    prod = ec
    for _ in range(d - 1):
        prod = np.multiply.outer(prod, ec)
    if np.abs(1 + np.multiply.outer(e, prod)).min() < 1e-2:
        reject()
    X = solve_sylvester(A, B, C, D)
    for u, w in zip((A, B, C, D), args):
        close(u, w, 0, 0, "arguments left alone")
    expect(X.shape == D.shape, f"shape {X.shape} instead of {D.shape}")
    sig = {1: "ab,bi,ix->ax", 2: "ab,bij,ix,jy->axy", 3: "ab,bijk,ix,jy,kz->axyz", 4: "ab,bijkl,ix,jy,kz,lw->axyzw"}[d]
    res = np.tensordot(A, X, (1, 0)) + np.einsum(sig, B, X, *([C] * d)) + D
    close(res, 0 * D, 0, 1e-8 * (1 + np.abs(X).max()), "residual of the equation")
    # general form: sum of A_i X B_i + K = 0
    q = v
    terms = [(r.randn(n, n) + 2 * n * np.eye(n), r.randn(q, q) + 2 * q * np.eye(q))] + [(r.randn(n, n) * 0.2, r.randn(q, q) * 0.2) for _ in range(c["seed"] % 3)]
    K = r.randn(n, q)
    X = solve_sylvester_vectorized(*terms, K)
    close(sum(a @ X @ b for a, b in terms) + K, 0 * K, 0, 1e-8 * (1 + np.abs(X).max()), "sum of A X B + K")
    return n > 1 and v > 1


@st.composite
def quad(draw):
    return dict(n=draw(st.integers(1, 4)), seed=draw(seeds), rho=draw(fl(0.1, 0.95, 2)), gap=draw(fl(1.1, 3, 2)), cplx=draw(st.booleans()))


@suite.sub(quad(), quick=300, thorough=3000)
def second_order(c):
    """F P^2 + G P + H = 0 with P stable"""
    r = rs(c["seed"])
    n = c["n"]

    def mat(lo, hi):
        lam = r.uniform(lo, hi, n) * np.sign(r.randn(n))
        L = np.diag(lam)
        if c["cplx"] and n > 1:
            m, th = r.uniform(lo, hi), r.uniform(0.3, 2.5)
            L[:2, :2] = m * np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
        Q = np.linalg.qr(r.randn(n, n))[0]
        return Q @ (L + (np.triu(r.randn(n, n), 1) * 0.2 if not c["cplx"] else 0)) @ Q.T

    P = mat(0.02, c["rho"])
    Q = mat(c["gap"], c["gap"] * 3)  # other roots, unstable
    F = r.randn(n, n) + 2 * n * np.eye(n)
    # F (L - Q) (L - P): roots are those of P and of Q
    G, H = -F @ (Q + P), F @ Q @ P
    eig, X = second_order_solver(F.copy(), G.copy(), H.copy())
    close(F @ X @ X + G @ X + H, 0 * X, 0, 1e-7 * np.abs(F).max() * (1 + np.abs(Q).max()) ** 2, "residual of the equation")
    expect(np.abs(np.linalg.eigvals(X)).max() < 1, "the stable solution is selected")
    close(X, P, 1e-5, 1e-6, "known solution")
    expect(len(eig) == 2 * n, "all eigenvalues are returned")
    return n > 1


@st.composite
def tens(draw):
    k = draw(st.integers(1, 3))
    return dict(k=k, lead=draw(st.lists(st.integers(1, 3), min_size=1, max_size=2)), dims=draw(st.lists(st.integers(1, 4), min_size=k, max_size=k)), cols=draw(st.lists(st.integers(0, 3), min_size=k, max_size=k)), seed=draw(seeds))


@suite.sub(tens(), quick=400, thorough=4000)
def tensors(c):
    r = rs(c["seed"])
    k, lead = c["k"], len(c["lead"])
    M = r.randn(*(c["lead"] + c["dims"]))
    mats = [r.randn(*([d, q] if q else [d])) for d, q in zip(c["dims"], c["cols"])]
    L = "abcdefgh"
    sig = L[: lead + k]
    ins, out = [], sig[:lead]
    for i in range(k):
        a = sig[lead + i]
        b = "uvw"[i] if mats[i].ndim == 2 else ""
        ins.append(a + b)
        out += b
    ref = np.einsum(sig + "," + ",".join(ins) + "->" + out, M, *mats)
    got = tn.mdot(M, *mats)
    expect(got.shape == ref.shape, f"mdot: shape {got.shape} instead of {ref.shape}")
    close(got, ref, 1e-12, 1e-12, "mdot")
    if hasattr(tn, "multidot_old") and all(m.ndim == 2 for m in mats):
        close(tn.multidot_old(M, mats), ref, 1e-12, 1e-12, "multidot_old")
    V = r.randn(*([c["dims"][-1]] + c["lead"]))
    S = tn.sdot(M, V)
    ref = np.tensordot(M, V, ([M.ndim - 1], [0]))
    expect(S.shape == ref.shape, "sdot: shape")
    close(S, ref, 1e-12, 1e-12, "sdot")
    if hasattr(tn, "multitake"):
        inds = [r.randint(0, d, size=2) for d in c["dims"]]
        axes = [lead + i for i in range(k)]
        ref = M
        for i, ix in zip(axes, inds):
            ref = np.take(ref, ix, axis=i)
        close(tn.multitake(M, inds, axes), ref, 0, 0, "multitake")
    return k > 1
