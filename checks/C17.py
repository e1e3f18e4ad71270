"""C17 reformulations of complementarity conditions"""
import importlib
import numpy as np
from pbt import *
from pbt.gen import *
from dolo.numeric.optimize import ncpsolve as _n
from dolo.algos import fb

ncp = importlib.import_module("dolo.numeric.optimize.ncpsolve")
iti = importlib.import_module("dolo.algos.improved_time_iteration")
lm = importlib.import_module("dolo.numeric.extern.lmmcp")

suite = Suite(
    "C17",
    "Generated points, residuals, bounds (finite, infinite, on one side, with points exactly on them) and derivatives; every"
    " reformulation is evaluated at solutions (must vanish), at points at a known distance from being solutions (must not"
    " vanish), and its derivative is compared with central differences along generated directions. Non-trivial = both a"
    " finite and an infinite bound, or a point on a bound.",
)

TYPES = ["inside", "at lower", "at upper", "degenerate lower", "degenerate upper", "bad inside", "bad lower", "bad upper", "below", "above"]


@st.composite
def case(draw, nmax=4):
    n = draw(st.integers(1, nmax))
    N = draw(st.integers(1, 4))
    return dict(n=n, N=N, M=draw(st.integers(1, 2)), seed=draw(seeds), kinds=draw(st.lists(st.sampled_from(TYPES), min_size=n * N, max_size=n * N)), inf=draw(st.lists(st.sampled_from(["no", "no", "low", "up", "both"]), min_size=n * N, max_size=n * N)), big=draw(st.sampled_from(["inf", "1e20"])))


def points(c, big=None):
    """x, f, a, b, and the distance to being a solution of each component"""
    r = rs(c["seed"])
    N, n = c["N"], c["n"]
    big = big or (np.inf if c["big"] == "inf" else 1e20)
    x, f = r.randn(N, n), 0.1 + r.rand(N, n)
    a, b = x - 0.2 - r.rand(N, n), x + 0.2 + r.rand(N, n)
    d = np.zeros((N, n))
    sgn = np.sign(r.randn(N, n))
    for k in range(N * n):
        i, j = divmod(k, n)
        t, w = c["kinds"][k], c["inf"][k]
        low, up = w in ("low", "both"), w in ("up", "both")
        if ("lower" in t or t == "below") and low or ("upper" in t or t == "above") and up:
            t = "inside" if c["seed"] % 2 else "bad inside"
        if t == "inside":
            f[i, j] = 0
        elif t == "at lower":
            a[i, j] = x[i, j]
        elif t == "at upper":
            b[i, j] = x[i, j]
            f[i, j] *= -1
        elif t == "degenerate lower":
            a[i, j] = x[i, j]
            f[i, j] = 0
        elif t == "degenerate upper":
            b[i, j] = x[i, j]
            f[i, j] = 0
        elif t == "bad inside":
            f[i, j] *= sgn[i, j]
            d[i, j] = 0.1
        elif t == "bad lower":
            a[i, j] = x[i, j]
            f[i, j] *= -1
            d[i, j] = 0.1
        elif t == "bad upper":
            b[i, j] = x[i, j]
            d[i, j] = 0.1
        elif t == "below":
            a[i, j] = x[i, j] + 0.15
            f[i, j] *= sgn[i, j] if c["seed"] % 3 else 0
            d[i, j] = 0.1
        elif t == "above":
            b[i, j] = x[i, j] - 0.15
            f[i, j] *= sgn[i, j] if c["seed"] % 3 else 0
            d[i, j] = 0.1
        if low:
            a[i, j] = -big
        if up:
            b[i, j] = big
    return x, f, a, b, d, r


def vanishes(v, d, msg):
    expect(np.isfinite(v).all(), f"{msg}: not finite")
    ok = d == 0
    expect((np.abs(v[ok]) <= 1e-12).all(), f"{msg}: does not vanish at a solution: {v[ok]}")
    expect((np.abs(v[~ok]) >= 1e-3).all(), f"{msg}: vanishes at a point which is no solution: {v[~ok]}")


def nontrivial(c):
    return len(set(c["inf"])) > 1 or any("at" in t or "lower" in t or "upper" in t for t in c["kinds"])


@suite.sub(case(), quick=600, thorough=6000)
def ncpsolve_(c):
    """this one is given minus the residual"""
    x, f, a, b, d, r = points(c)
    N, n = f.shape
    J = r.randn(N, n, n)
    with np.errstate(all="ignore"):
        v, Jn = ncp.smooth(x, a, b, -f.copy(), J.copy())
        vanishes(v, d, "ncpsolve.smooth")
        expect(np.isfinite(Jn).all(), "ncpsolve.smooth: derivative is not finite")
        both = np.isinf(a) | (a <= -1e20), np.isinf(b) | (b >= 1e20)
        free = both[0] & both[1]
        close(v[free], -f[free], 0, 0, "residual when there are no bounds")
        for i in range(N):
            close(Jn[i][free[i]], J[i][free[i]], 0, 0, "derivative when there are no bounds")
        import scipy.sparse as sp

        for k in range(N):
            v1, J1 = ncp.smooth(x[k], a[k], b[k], -f[k], J[k].copy(), jactype="full")
            close(v1, v[k], 1e-12, 1e-14, "value, full")
            close(J1, Jn[k], 1e-12, 1e-13, "derivative, full")
            v1, J1 = ncp.smooth(x[k], a[k], b[k], -f[k], sp.csc_matrix(J[k]), jactype="sparse")
            close(v1, v[k], 1e-12, 1e-14, "value, sparse")
            close(np.asarray(J1.todense()), Jn[k], 1e-12, 1e-13, "derivative, sparse")
    return nontrivial(c)


def generic(c):
    """points away from kinks, with finite and infinite bounds"""
    c = dict(c, kinds=[t if t in ("bad inside", "bad lower", "bad upper", "below", "above") else "bad inside" for t in c["kinds"]])
    return c


@suite.sub(case(), quick=400, thorough=4000)
def derivatives(c):
    c = generic(c)
    x, f, a, b, d, r = points(c)
    N, n = f.shape
    F = lambda u: f0 + np.einsum("aij,aj->ai", J, u - x) + 0.3 * np.sin(u - x) ** 2
    J, f0 = r.randn(N, n, n), np.where(np.abs(f) < 0.05, 0.3, f)
    dx = r.randn(N, n)
    h = 1e-6
    with np.errstate(all="ignore"):
        g = lambda u: ncp.smooth(u, a, b, -F(u), -J)[0]
        num = (g(x + h * dx) - g(x - h * dx)) / (2 * h)
        v, Jn = ncp.smooth(x, a, b, -f0, -J)
    close(np.einsum("aij,aj->ai", Jn, dx), num, 1e-5, 1e-5, "ncpsolve.smooth")
    # improved time iteration: one more index, one bound at a time, derivative with respect to tomorrow's decisions too
    if hasattr(iti, "smooth"):
        M, nim = c["M"], 2
        X, JJ, jr = r.randn(M, N, n), r.randn(M, N, n, n), r.randn(M, nim, N, n, n)
        R0 = r.randn(M, N, n)
        R0 = R0 + 0.1 * np.sign(R0)
        lb = X - r.randn(M, N, n)
        lb = np.where(np.abs(X - lb) < 0.05, X - 0.3, lb)
        lb = np.where(r.rand(M, N, n) < 0.3, -np.inf, lb)
        dX, dY = r.randn(M, N, n), r.randn(M, nim, N, n)
        for pos in (1.0, -1.0):
            gap = lambda u: pos * (u - lb) if pos > 0 else 2 * X - u - lb  # distance to an upper bound 2X-lb
            R = lambda u, y: R0 + np.einsum("mnij,mnj->mni", JJ, u - X) + np.einsum("mknij,mknj->mni", jr, y)
            g = lambda t: iti.smooth_nodiff(R(X + t * dX, t * dY), gap(X + t * dX))
            with np.errstate(all="ignore"):
                num = (g(h) - g(-h)) / (2 * h)
                H, Hx, Hxt = iti.smooth(R0.copy(), JJ.copy(), jr.copy(), gap(X), pos=pos)
                close(H, iti.smooth_nodiff(R0, gap(X)), 1e-13, 1e-14, "with and without derivatives")
            close(np.einsum("mnij,mnj->mni", Hx, dX) + np.einsum("mknij,mknj->mni", Hxt, dY), num, 1e-5, 2e-5, f"improved_time_iteration.smooth, pos={pos}")
            free = np.isinf(lb)
            close(H[free], R0[free], 0, 0, "residual when there is no bound")
    return n > 1


@suite.sub(case(), quick=400, thorough=4000)
def improved(c):
    """nested as in improved time iteration"""
    if not hasattr(iti, "smooth_nodiff"):
        return False
    x, f, a, b, d, r = points(c)
    N, n = f.shape
    e = lambda u: u[None].copy()
    with np.errstate(all="ignore"):
        v = iti.smooth_nodiff(e(f), e(x - a))
        v = -iti.smooth_nodiff(-v, e(b - x))
        vanishes(v[0], d, "smooth_nodiff")
        if hasattr(iti, "smooth"):
            J, jr = r.randn(1, N, n, n), r.randn(1, 2, N, n, n)
            H, Hx, Hxt = iti.smooth(e(f), J.copy(), jr.copy(), e(x - a))
            H, Hx, Hxt = iti.smooth(-H, -Hx, -Hxt, e(b - x), pos=-1.0)
            close(-H, v, 1e-12, 1e-14, "with and without derivatives")
            expect(np.isfinite(Hx).all() and np.isfinite(Hxt).all(), "derivatives are not finite")
    return nontrivial(c)


@suite.sub(case(), quick=400, thorough=4000)
def fischer_burmeister(c):
    x, f, a, b, d, r = points(c, big=1e8)
    N, n = f.shape
    s_, sm, p, p_ = (getattr(fb, k, None) for k in ("smooth_FB_", "smooth_FB", "PhiFB", "PhiFB_"))
    tol = lambda i, j: 1e-12 if max(-a[i, j], b[i, j]) < 1e7 else 1e-6  # (cancellation with large bounds)
    h = 1e-6
    for i in range(N):
        for j in range(n):
            z = (f[i, j], x[i, j], a[i, j], b[i, j])
            v = sm(*z)
            if d[i, j] == 0:
                expect(abs(v) <= tol(i, j), f"fb.smooth_FB does not vanish at a solution: {z} {v}")
            else:
                expect(abs(v) >= 1e-3, f"fb.smooth_FB vanishes at {z}")
            dj = r.randn()
            w, dw = s_(*z, dj)
            close(w, v, 1e-12, 1e-13, "fb.smooth_FB_: value")
            expect(np.isfinite(dw), "fb.smooth_FB_: derivative is not finite")
            if d[i, j] and abs(z[0]) > 0.05 and max(-a[i, j], b[i, j]) < 1e7:
                num = (sm(z[0] + h * dj, z[1] + h, *z[2:]) - sm(z[0] - h * dj, z[1] - h, *z[2:])) / (2 * h)
                close(dw, num, 1e-5, 1e-5, "fb.smooth_FB_: derivative")
    if hasattr(fb, "smooth_"):
        e = lambda u: np.ascontiguousarray(u[None])
        V = fb.smooth_(e(f), e(x), e(a), e(b))
        ref = np.array([[sm(f[i, j], x[i, j], a[i, j], b[i, j]) for j in range(n)] for i in range(N)])
        close(V[0], ref, 1e-12, 1e-13, "fb.smooth_")
    A, B = r.randn(2)
    A, B = (A, B) if c["seed"] % 3 else ((abs(A), 0.0) if c["seed"] % 2 else (0.0, abs(B)))
    v, da, db = p_(A, B)
    close(v, A + B - np.hypot(A, B), 1e-12, 1e-14, "fb.PhiFB_")
    close(p(A, B), v, 1e-12, 1e-14, "fb.PhiFB")
    close([da, db], [1 - A / np.hypot(A, B), 1 - B / np.hypot(A, B)], 1e-12, 1e-12, "derivatives of fb.PhiFB_")
    return nontrivial(c)


@suite.sub(case(nmax=3), quick=300, thorough=3000)
def levenberg_marquardt(c):
    if not (hasattr(lm, "Phi3MCPPFB") and hasattr(lm, "DPhi3MCPPFB")):
        return False
    for c in (c, generic(c)):
        x, f, a, b, d, r = points(c)
        n = x.shape[1]
        x, f, a, b, d = x[0], f[0], a[0], b[0], d[0]
        I = np.zeros((n, 1))
        lo, up = a > -1e10, b < 1e10
        I[lo & ~up], I[~lo & up], I[lo & up] = 1, 2, 3
        J = r.randn(n, n)
        with np.errstate(all="ignore"):
            Phi = lambda u: lm.Phi3MCPPFB(u, f + J @ (u - x), a, b, 0.1, 0.9, n, I)
            v = Phi(x)
            H = lm.DPhi3MCPPFB(x, f, J, a, b, 0.1, 0.9, n, I)
        expect(np.isfinite(v).all() and np.isfinite(H).all(), "finite")
        for j in range(n):
            m = max(abs(v[j]), abs(v[n + j]))
            if d[j] == 0:
                expect(m <= 1e-12, f"reformulation does not vanish at a solution {m}")
            else:
                expect(m >= 1e-4, f"reformulation vanishes at a point which is no solution {m}")
    f = np.where(np.abs(f) < 0.05, 0.3, f)
    with np.errstate(all="ignore"):
        H = lm.DPhi3MCPPFB(x, f, J, a, b, 0.1, 0.9, n, I)
        dx = r.randn(n)
        h = 1e-6
        num = (Phi(x + h * dx) - Phi(x - h * dx)) / (2 * h)
    # (second halves have kinks at bounds)
    off = (np.abs(x - a) > 1e-3) & (np.abs(x - b) > 1e-3)
    keep = np.concatenate([np.ones(n, bool), off])
    out = keep.copy()
    for j in range(n):
        # outside of the bounds, an element of the generalized derivative is enough
        if x[j] < a[j] or x[j] > b[j]:
            out[n + j] = False
    close((H @ dx)[out], num[out], 1e-5, 1e-5, "derivative of the reformulation")
    return nontrivial(c)
