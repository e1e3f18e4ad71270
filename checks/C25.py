"""C25 endogenous grid method"""
import importlib
import warnings
import numpy as np
from pbt import *
from pbt.gen import *
from pbt import models

from dolo.algos.results import AlgoResult
from dolo.numeric.decision_rule import DecisionRule

egm = importlib.import_module("dolo.algos.egm").egm

suite = Suite(
    "C25",
    "Generated consumption-savings economies (risk aversion, patience, returns possibly risky, borrowing limits, effects of current shocks on"
    " income, tastes and resources; i.i.d. income, chains, discretized autoregressive income), grids for post-states (uniform or not), grids,"
    " initial guesses, tolerances and numbers of iterations. Rules are compared with an independent implementation of the method and judged by"
    " the optimality condition recomputed by quadrature. Non-trivial = the borrowing limit binds at some but not all nodes.",
)

TEXT = """
symbols:
    exogenous: [y{e2}]
    states: [w]
    expectations: [mr]
    poststates: [a]
    controls: [c]
    parameters: [beta, gam, r, cbar, amin, tau, kap, q]
equations:
    transition:
        - w[t] = exp(y[t]) + (w[t-1]-c[t-1]-tau*y[t-1])*r{R} + q*y[t-1]
    arbitrage:
        - beta*exp(kap*y[t])*( c[t+1]/c[t] )^(-gam)*r{R1} - 1  | 0.0<=c[t]<=w[t] - amin - tau*y[t]
    half_transition: |
        w[t] = exp(y[t]) + a[t-1]*r{R} + q*y[t-1]
    reverse_state: |
        w[t] = a[t] + c[t] + tau*y[t]
    expectation: |
        mr[t] = beta*( c[t+1]/cbar )^(-gam)*r{R1}
    direct_response_egm: |
        c[t] = cbar*(exp(kap*y[t])*mr[t])^(-1/gam)
calibration:
    beta: 0.96
    gam: 4.0
    r: 1.02
    cbar: 0.9
    amin: 0.0
    tau: 0.0
    kap: 0.0
    q: 0.0
    w: 1.0
    c: cbar
    y: 0.0
    {ecal}
domain:
    w: [0.1, 5.0]
{exo}
options:
    grid: !Cartesian
        orders: [{n}]
"""
EXO = dict(
    iid="exogenous: !Normal\n    Σ: [[0.02]]", iid2="exogenous: !Normal\n    Σ: [[0.02, 0.002], [0.002, 0.001]]",
    mc="exogenous: !MarkovChain\n    values: [[-0.3], [0.05], [0.2]]\n    transitions: [[0.6, 0.3, 0.1], [0.2, 0.5, 0.3], [0.1, 0.2, 0.7]]",
    mc2="exogenous: !MarkovChain\n    values: [[-0.3, 0.01], [0.2, -0.02]]\n    transitions: [[0.7, 0.3], [0.1, 0.9]]",
    var1="exogenous: !VAR1\n    ρ: 0.8\n    Σ: [[0.01]]",
)
CACHE = {}


def model_of(kind, n):
    if (kind, n) not in CACHE:
        two = kind.endswith("2")
        t = TEXT.format(e2=", z" if two else "", R="*exp(z[t])" if two else "", R1="*exp(z[t+1])" if two else "", ecal="z: 0.0" if two else "", exo=EXO[kind], n=n)
        CACHE[kind, n] = models.load(t)
    return CACHE[kind, n]


@st.composite
def case(draw):
    lo = draw(st.sampled_from([0.0, 0.0, -0.2]))
    return dict(
        kind=draw(st.sampled_from(sorted(EXO))), n=draw(st.sampled_from([12, 60, 60])), seed=draw(seeds),
        beta=draw(fl(0.85, 0.96, 3)), gam=draw(fl(1.2, 6, 1)), r=draw(fl(0.98, 1.02, 3)), amin=lo, tau=draw(st.sampled_from([0.0, 0.0, 0.1])),
        kap=draw(st.sampled_from([0.0, 0.1, -0.2])), q=draw(st.sampled_from([0.0, 0.1])), cbar=draw(fl(0.5, 1.2, 2)),
        na=draw(st.sampled_from([5, 15, 40, 120, 120, 150])), amax=draw(fl(2, 10, 1)), curve=draw(st.sampled_from([1.0, 1.0, 2.0, 3.0])),
        guess=draw(st.sampled_from(["none", "none", "function", "rule", "result"])), maxit=draw(st.sampled_from([1, 2, 3, 7, 1000, 1000, 1000, 1000, 1000])), tol=draw(st.sampled_from([1e-5, 1e-6, 1e-8])),
        over=draw(st.sampled_from(["none", "none", "none", "dp", "grid"])), details=draw(st.sampled_from([True, True, False])),
    )


def lin(xs, ys, x):
    i = np.clip(np.searchsorted(xs, x, side="right") - 1, 0, len(xs) - 2)
    return ys[i] + (ys[i + 1] - ys[i]) / (xs[i + 1] - xs[i]) * (x - xs[i])


class Economy:
    def __init__(self, c, dp):
        self.c, self.dp = c, dp
        self.n = dp.n_nodes
        self.iid = "iid" in c["kind"]

    def ub(self, i, w):
        return w - self.c["amin"] - self.c["tau"] * self.dp.node(i)[0]

    def R(self, M):
        return self.c["r"] * (np.exp(M[1]) if len(M) > 1 else 1.0)

    def step(self, fut, a):
        """-> consumption and resources at each post-state; fut(i, w): consumption tomorrow"""
        c, dp = self.c, self.dp
        X, S = [], []
        for i in range(self.n):
            m = dp.node(i)
            e = 0.0
            for j in range(dp.n_inodes(i)):
                M = dp.inode(i, j)
                w = np.exp(M[0]) + a * self.R(M) + c["q"] * m[0]
                e = e + dp.iweight(i, j) * c["beta"] * self.R(M) * (fut(0 if self.iid else j, w) / c["cbar"]) ** -c["gam"]
            x = c["cbar"] * (np.exp(c["kap"] * m[0]) * e) ** (-1 / c["gam"])
            X.append(x)
            S.append(a + x + c["tau"] * m[0])
        return X, S

    def rule(self, X, S):
        return lambda i, w: np.maximum(np.minimum(lin(S[i], X[i], w), self.ub(i, w)), 0.0)


@suite.sub(case(), quick=240, shards=8)
def rules(c):
    model = model_of(c["kind"], c["n"])
    model.set_calibration(**{k: c[k] for k in ("beta", "gam", "r", "cbar", "amin", "tau", "kap", "q")})
    r = rs(c["seed"])
    grid, dp = model.discretize()
    kw = {}
    if c["over"] == "dp" and c["kind"] in ("iid", "iid2"):
        dp = model.exogenous.discretize(N=3)
        kw["dp"] = dp
    elif c["over"] == "dp" and c["kind"] == "var1":
        dp = model.exogenous.discretize(N=4)
        kw["dp"] = dp
    elif c["over"] == "grid":
        kw["grid"] = grid
        if c["seed"] % 2:
            kw["dp"] = dp
    if c["details"] is False:
        kw["details"] = False
    e = Economy(c, dp)
    a = c["amin"] + c["amax"] * np.linspace(0, 1, c["na"]) ** c["curve"]
    s = grid["endo"].nodes
    n = dp.n_nodes
    fut = lambda i, w: np.full(len(w), c["cbar"])
    if c["guess"] == "function":
        k = 0.3 + 0.05 * r.rand(n)
        kw["dr0"] = lambda i, w: k[min(i, n - 1)] * w + 0.2
        fut = lambda i, w: k[min(i, n - 1)] * w + 0.2
        if e.iid:
            kw["dr0"] = lambda i, w: k[0] * w + 0.2
            fut = lambda i, w: k[0] * w + 0.2
    elif c["guess"] in ("rule", "result"):
        dr = DecisionRule(dp.grid, grid["endo"], dprocess=dp, interp_method="cubic")
        k = 0.3 + 0.05 * r.rand(n)
        dr.set_values(k[:, None, None] * s[None] + 0.2)
        fut = lambda i, w: k[i] * w + 0.2
        kw["dr0"] = dr
        if c["guess"] == "result":
            res = AlgoResult()
            res.dr = dr
            kw["dr0"] = res
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = egm(model, a_grid=a, maxit=c["maxit"], η_tol=c["tol"], **kw)
    if c["details"]:
        dr = res.dr
        expect(bool(res.a_converged) == bool(res.err < c["tol"]), "convergence is reported when the error is below the tolerance")
        expect(res.a_tol == c["tol"], "tolerance of the result")
        expect(c["maxit"] < 1000 or res.a_converged, f"no convergence, error {res.err}")
    else:
        expect(not isinstance(res, AlgoResult), "a rule is returned when details are not requested")
        dr = res
    got = np.array([(dr.eval_s(s) if e.iid else dr.eval_is(i, s))[:, 0] for i in range(n)])
    # independent implementation
    old = None
    if c["maxit"] < 1000:
        # the last rule computed within the loop comes from the previous post-states
        f, hist = fut, [fut]
        for _ in range(c["maxit"]):
            f = e.rule(*e.step(f, a))
            hist.append(f)
        w = s[:, 0]
        cands = [np.array([h(i, w) for i in range(n)]) for h in hist[max(0, c["maxit"] - 1):]]
        d = [np.abs(got - v).max() for v in cands]
        expect(min(d) < 1e-7, f"rule after {c['maxit']} iterations differs from the method by {min(d)}")
        label("steps")
        return False
    f = fut
    for it in range(3000):
        X, S = e.step(f, a)
        f = e.rule(X, S)
        if old is not None and max(np.abs(u - v).max() for u, v in zip(X, old)) < 1e-11:
            break
        old = X
    w = s[:, 0]
    want = np.array([f(i, w) for i in range(n)])
    err = 300 * c["tol"] + 1e-7
    close(got, want, 0, err, "rule at the nodes")
    ub = np.array([e.ub(i, w) for i in range(n)])
    expect((got >= -1e-9).all() and (got <= ub + 1e-9).all(), "consumption within bounds")
    # optimality
    if c["n"] >= 60 and c["na"] >= 120 and c["amax"] >= 5:
        for i in range(n):
            ai = np.maximum(w - got[i] - c["tau"] * dp.node(i)[0], c["amin"])
            rhs = 0.0
            ok = np.ones(len(w), bool)
            for j in range(dp.n_inodes(i)):
                M = dp.inode(i, j)
                W = np.exp(M[0]) + ai * e.R(M) + c["q"] * dp.node(i)[0]
                J = 0 if e.iid else j
                C = np.minimum(lin(w, got[J], W), e.ub(J, W))
                ok &= W <= w[-1]
                rhs = rhs + dp.iweight(i, j) * c["beta"] * e.R(M) * C ** -c["gam"]
            x = (np.exp(c["kap"] * dp.node(i)[0]) * rhs) ** (-1 / c["gam"])
            opt = np.minimum(x, ub[i])
            d = np.abs(opt - got[i])[ok] / (0.1 + opt[ok])
            expect(d.max() < 0.02, f"the optimality condition is violated at node {i} by {d.max()}")
        label("optimality")
    act = np.abs(got - ub) < 1e-6
    label(c["kind"])
    return bool(act.any() and not act.all())
