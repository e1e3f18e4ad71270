"""C20 Taylor expansions"""
import numpy as np
from pbt import *
from pbt.gen import *
from dolo.numeric.taylor_expansion import TaylorExpansion
from dolo.algos.perturbation import BivariateTaylor

suite = Suite(
    "C20",
    "Generated coefficients of orders 1 to 3 (not symmetric), expansion points, evaluation points one at a time or stacked,"
    " sub-rules; compared with sums of einsum contractions divided by factorials. Non-trivial = two states and two outputs.",
)


@st.composite
def case(draw):
    return dict(o=draw(st.integers(1, 3)), s=draw(st.integers(1, 4)), x=draw(st.integers(1, 4)), e=draw(st.integers(1, 3)), N=draw(st.integers(1, 6)), seed=draw(seeds), old=draw(st.booleans()), ints=draw(st.booleans()))


@suite.sub(case(), quick=500, thorough=5000)
def taylor(c):
    r = rs(c["seed"])
    s, x, N = c["s"], c["x"], c["N"]
    S0, X0 = r.randn(s), r.randn(x)
    co = [r.randn(*((x,) + (s,) * (k + 1))) for k in range(c["o"])]
    keep = [u.copy() for u in [S0, X0] + co]
    te = TaylorExpansion([S0, X0] + co) if c["old"] else TaylorExpansion(S0, X0, *co)
    P = r.randn(N, s) * 2

    def ref(P, rows=slice(None)):
        d = P - S0
        v = X0[rows] + np.einsum("xi,ni->nx", co[0][rows], d)
        if c["o"] > 1:
            v = v + np.einsum("xij,ni,nj->nx", co[1][rows], d, d) / 2
        if c["o"] > 2:
            v = v + np.einsum("xijk,ni,nj,nk->nx", co[2][rows], d, d, d) / 6
        return v

    tol = dict(rtol=1e-10, atol=1e-10)
    close(te.eval_s(P), ref(P), msg="eval_s", **tol)
    close(te(P), ref(P), msg="call", **tol)
    m = r.randn(N, c["e"])
    close(te(m, P), ref(P), msg="call with shocks", **tol)
    close(te.eval_ms(m, P), ref(P), msg="eval_ms", **tol)
    close(te(m[0], P), ref(P), msg="call, one value of the shocks, many states", **tol)
    close(te(m, P[:1])[0], ref(P)[0], msg="call, many values of the shocks, one state", **tol)
    close(te(m[0], P[0]), ref(P)[0], msg="call, one value of the shocks, one state", **tol)
    close(te.eval_ms(m[:1], P), ref(P), msg="eval_ms, one value of the shocks", **tol)
    for i in range(N):
        close(te(P[i]), ref(P)[i], msg="one point", **tol)
        close(te.eval_s(P[i]), ref(P)[i], msg="one point, eval_s", **tol)
    close(te(S0), X0, 0, 1e-13, "expansion point")
    rows = [int(i) for i in r.permutation(x)[: 1 + c["seed"] % x]]
    for ind in (rows, slice(0, 1 + c["seed"] % x)):
        sub = te[ind]
        close(sub(P), ref(P, ind), msg="selected outputs", **tol)
    for u, w in zip([S0, X0] + co, keep):
        close(u, w, 0, 0, "coefficients left alone")
    # sub-rules do not share coefficients
    sub.X_bar[...] = 100.0
    close(te(P), ref(P), msg="sub-rules are copies", **tol)
    label(f"order {c['o']}")
    return s > 1 and x > 1


@suite.sub(case(), quick=500, thorough=5000)
def bivariate(c):
    r = rs(c["seed"])
    s, x, e, N = c["s"], c["x"], c["e"], c["N"]
    mb, sb, xb = r.randn(e), r.randn(s), r.randn(x)
    Cm, Cs = r.randn(x, e), r.randn(x, s)
    m, P = r.randn(N, e), r.randn(N, s)
    tol = dict(rtol=1e-11, atol=1e-11)
    ref = xb + (m - mb) @ Cm.T + (P - sb) @ Cs.T
    dr = BivariateTaylor(mb, sb, xb, Cm, Cs)
    for f, n in ((dr.eval_ms, "eval_ms"), (dr, "call")):
        close(f(m, P), ref, msg=n, **tol)
        for i in range(N):
            close(f(m[i], P[i]), ref[i], msg=n + ", one point", **tol)
        close(f(m[0], P), xb + (m[0] - mb) @ Cm.T + (P - sb) @ Cs.T, msg=n + ", one shock, many states", **tol)
        close(f(m, P[0]), xb + (m - mb) @ Cm.T + (P[0] - sb) @ Cs.T, msg=n + ", many shocks, one state", **tol)
        close(f(mb, sb), xb, 0, 1e-13, n + ", expansion point")
    # no dependence on shocks
    dr = BivariateTaylor(mb, sb, xb, None, Cs)
    ref = xb + (P - sb) @ Cs.T
    close(dr(P), ref, msg="call, states only", **tol)
    close(dr.eval_s(P), ref, msg="eval_s", **tol)
    close(dr.eval_ms(m, P), ref, msg="shocks are ignored", **tol)
    close(dr(m, P), ref, msg="shocks are ignored, call", **tol)
    close(dr(m[0], P[0]), ref[0], msg="shocks are ignored, one point", **tol)
    close(dr.eval_s(P[0]), ref[0], msg="eval_s, one point", **tol)
    return s > 1 and x > 1
