"""C12 discretized autoregressive processes"""
import numpy as np
from pbt import *
from pbt.gen import *
from checks.C10 import spd, gauss_moment
from dolo.numeric.processes import AR1, VAR1
from dolo.numeric.discretization import rouwenhorst, tauchen, multidimensional_discretization

suite = Suite(
    "C12",
    "Autoregressive processes with generated persistence (both signs), means and correlated covariances, numbers of"
    " states and methods; oracle: closed-form conditional and stationary moments, gaussian probabilities of cells."
    " Non-trivial = persistence different from 0 and at least two states.",
)

rho_ = fl(-0.97, 0.97, 4)


def stochastic(P, n):
    P = np.asarray(P)
    expect(P.shape == (n, n), f"transition matrix of shape {P.shape} for {n} states")
    expect((P >= -1e-12).all(), "negative probability")
    close(P.sum(axis=1), np.ones(n), 0, 1e-9, "rows sum to one")


def stationary(P):
    n = len(P)
    A = np.vstack([P.T - np.eye(n), np.ones((1, n))])
    return np.linalg.lstsq(A, np.concatenate([np.zeros(n), [1.0]]), rcond=None)[0]


def rouwenhorst_ok(x, P, mu, rho, Sigma, scale=1.0):
    "conditional mean, conditional and stationary covariance"
    n = len(x)
    stochastic(P, n)
    sc = np.sqrt(np.diag(Sigma)).max() / np.sqrt(1 - rho**2) + np.abs(mu).max() + 1e-12
    close((P @ x) / sc, (mu + rho * (x - mu)) / sc, 1e-9, 1e-9, "conditional mean")
    if n == 1:
        return
    pi = stationary(P)
    close(pi @ x / sc, mu / sc, 1e-7, 1e-7, "stationary mean")
    xc = x - mu
    V = (xc.T * pi) @ xc
    close(V * (1 - rho**2) / sc**2, Sigma / sc**2, 1e-6, 1e-7, "stationary covariance")
    for i in range(n):
        e = x - (mu + rho * (x[i] - mu))
        close((e.T * P[i]) @ e / sc**2, Sigma / sc**2, 1e-6, 1e-7, f"conditional covariance at node {i}")


@suite.sub(st.tuples(rho_, fl(0.01, 3), st.integers(1, 12)), quick=400, thorough=4000)
def rouwenhorst_method(c):
    rho, sigma, N = c
    x, P = rouwenhorst(rho, sigma, N)
    x, P = np.asarray(x), np.asarray(P)
    expect(x.shape == (N,), f"{x.shape} nodes instead of {N}")
    expect((np.diff(x) > 0).all(), "nodes are increasing")
    rouwenhorst_ok(x[:, None], P, np.zeros(1), rho, np.array([[sigma**2]]))
    return N > 1 and rho != 0


@suite.sub(st.tuples(rho_, fl(0.01, 3), st.integers(2, 12), fl(-3, 3), st.one_of(st.integers(1, 4), fl(0.5, 4))), quick=400, thorough=4000)
def tauchen_method(c):
    from scipy.special import ndtr

    rho, sigma, N, mu, m = c
    x, P = tauchen(N, mu, rho, sigma, m=m)
    x, P = np.asarray(x).ravel(), np.asarray(P)
    sd = sigma / np.sqrt(1 - rho**2)
    close(x, mu + np.linspace(-m * sd, m * sd, N), 1e-9, 1e-9, "nodes")
    stochastic(P, N)
    mid = 0.5 * (x[1:] + x[:-1])
    cut = np.concatenate([[-np.inf], mid, [np.inf]])
    cm = mu + rho * (x - mu)
    F = ndtr((cut[None, :] - cm[:, None]) / sigma)
    close(P, np.diff(F, axis=1), 1e-8, 1e-9, "probabilities of the cells")
    return rho != 0


@st.composite
def var_case(draw, dmax=3):
    d = draw(st.integers(1, dmax))
    return dict(d=d, rho=draw(rho_), seed=draw(seeds), scale=draw(st.sampled_from([1.0, 1e-4, 4.0])), mu=draw(vec(d, -2, 2)),
                N=draw(st.integers(1, [9, 4, 3][d - 1])), zero=draw(st.lists(st.integers(0, d - 1), max_size=max(0, d - 1))),
                how=draw(st.sampled_from(["AR1", "VAR1", "VAR1 matrix", "VAR1 vector", "function"])), default=draw(st.integers(0, 5)) == 0)


@suite.sub(var_case(), quick=400, thorough=3000)
def chains(c):
    d, rho, mu, N = c["d"], c["rho"], np.array(c["mu"]), c["N"]
    S = spd(c["seed"], d, c["scale"])
    how = c["how"]
    if how == "AR1" and d > 1:
        how = "VAR1"
    if how != "function" and d == 1:
        c = dict(c, zero=[])
    for i in c["zero"]:
        S[i, :] = 0
        S[:, i] = 0
    S0 = S.copy()
    kw = dict(N=N)
    if c["default"]:
        N, kw = 3, {}
    if how == "function":
        x, P = multidimensional_discretization(rho, S, **kw)
        mu = 0 * mu
    else:
        if how == "AR1":
            p = AR1(ρ=rho, σ=S[0, 0], μ=mu[0])
        else:
            r = {"VAR1": rho, "VAR1 matrix": rho * np.eye(d), "VAR1 vector": [rho] * d}[how]
            p = VAR1(ρ=r, Σ=S, μ=mu)
        mc = p.discretize(**kw) if c["seed"] % 2 else p.discretize(to="mc", **kw)
        x, P = mc.values, mc.transitions
        expect(mc.n_nodes == N**d, f"{mc.n_nodes} nodes instead of {N**d}")
        for i in range(mc.n_nodes):
            close(mc.node(i), x[i], 0, 0, "node")
            for j in range(mc.n_inodes(i)):
                close(mc.inode(i, j), x[j], 0, 0, "inode")
                close(mc.iweight(i, j), P[i, j], 0, 0, "iweight")
            it = list(mc.iteritems(i))
            close(sum(w for w, _ in it), 1.0, 0, 1e-9, "weights of iteritems")
            close(sum(w * v for w, v in it), P[i] @ x, 1e-9, 1e-9, "mean of iteritems")
    close(S, S0, 0, 0, "the covariance given is left alone")
    x, P = np.asarray(x), np.asarray(P)
    expect(x.shape == (N**d, d), f"nodes of shape {x.shape}")
    rouwenhorst_ok(x, P, mu, rho, S if N > 1 else S)
    label(how, f"dimension {d}", "degenerate" if c["zero"] else "full rank")
    return N > 1 and rho != 0


@suite.sub(st.tuples(rho_, st.integers(2, 4), st.integers(1, 3), seeds, fl(0.5, 3.5)), quick=200, thorough=2000)
def correlated_tauchen(c):
    "correlated innovations: the stationary covariance is proportional to the one of the innovations"
    rho, N, d, seed, m = c
    S = spd(seed, d)
    x, P = multidimensional_discretization(rho, S, N=N, method="tauchen", m=m)
    x, P = np.asarray(x), np.asarray(P)
    stochastic(P, N**d)
    x1, P1 = tauchen(N, 0.0, rho, 1.0, m=m)
    x1 = np.asarray(x1).ravel()
    pi1 = stationary(np.asarray(P1))
    v = pi1 @ (x1 - pi1 @ x1) ** 2
    w1 = (np.asarray(P1) @ x1)
    if abs(v) < 1e-8 or np.sort(np.abs(np.linalg.eigvals(np.asarray(P1))))[-2] > 0.9999:
        return False
    pi = stationary(P)
    close(pi @ x, np.zeros(d), 1e-6, 1e-6 * (1 + np.abs(S).max()), "stationary mean")
    xc = x - pi @ x
    close((xc.T * pi) @ xc, v * S, 1e-5, 1e-6 * (1 + np.abs(S).max()), "stationary covariance")
    a = pi1 @ (x1 * w1)
    close((xc.T * pi) @ (P @ xc), a * S, 1e-5, 1e-6 * (1 + np.abs(S).max()), "first autocovariance")
    return d > 1


@suite.sub(st.fixed_dictionaries(dict(rho=rho_, var=st.one_of(fl(0.001, 4)), mu=st.one_of(st.just(0.0), fl(-3, 3)), N=st.integers(2, 9), ar=st.booleans(), default=st.booleans())), quick=200, thorough=2000)
def quadratures(c):
    rho, var, mu, N = c["rho"], c["var"], c["mu"], c["N"]
    p = AR1(ρ=rho, σ=var, μ=mu) if c["ar"] else VAR1(ρ=rho, Σ=[[var]], μ=[mu])
    g = p.discretize(to="gdp") if c["default"] else p.discretize(to="gdp", N=N)
    if c["default"]:
        N = 3
    expect(g.n_nodes == N, f"{g.n_nodes} nodes instead of {N}")
    x = np.array([g.node(i) for i in range(N)])
    close(g.nodes, x, 0, 0, "nodes")
    close(g.grid.nodes, x, 1e-9, 1e-9, "nodes of the grid")
    close(x.mean(), mu, 1e-8, 1e-8 * (1 + abs(x).max()), "nodes are centered on the mean")
    sd = np.sqrt(var / (1 - rho**2))
    expect(x.max() > mu + sd and x.min() < mu - sd, "nodes span the ergodic distribution")
    for i in range(N):
        K = g.n_inodes(i)
        w = np.array([g.iweight(i, j) for j in range(K)])
        z = np.array([np.ravel(g.inode(i, j)) for j in range(K)])
        expect(z.shape == (K, 1), f"integration nodes of shape {z.shape}")
        expect((w >= 0).all(), "negative weight")
        close(w.sum(), 1.0, 0, 1e-9, "weights sum to one")
        e = (z[:, 0] - (mu + rho * (x[i, 0] - mu))) / np.sqrt(var)
        for k in range(1, 2 * K):
            s = max(1.0, gauss_moment(k + k % 2))
            close(w @ e**k / s, gauss_moment(k) / s, 1e-7, 1e-7, f"moment {k} of the innovations at node {i}")
        expect(K >= 3, "at least a quadrature of order 3")
    label("AR1" if c["ar"] else "VAR1")
    return rho != 0


@suite.sub(st.tuples(rho_, rho_, seeds, st.booleans()).filter(lambda c: abs(c[0] - c[1]) > 1e-3), quick=40)
def uneven_persistence_is_refused(c):
    r0, r1, seed, diag = c
    S = spd(seed, 2)
    R = np.diag([r0, r1]) if diag else np.array([[r0, r1], [0.0, r0]])
    if not diag and abs(r1) < 1e-3:
        return False
    try:
        VAR1(ρ=R, Σ=S).discretize(to="mc")
    except Exception:
        return True
    expect(False, "a vector process with different autocorrelations was discretized")


@suite.sub(st.tuples(st.integers(1, 4), st.integers(1, 3), seeds), quick=60)
def chain_as_gdp(c):
    n, d, seed = c
    from dolo.numeric.processes import MarkovChain

    x, P = rs(seed).randn(n, d), stochastic_matrix(seed, n)
    mc = MarkovChain(P, x)
    expect(mc.discretize() is not None and mc.discretize(to="mc").n_nodes == n, "a chain is its own discretization")
    g = mc.discretize(to="gdp")
    for i in range(n):
        close(g.node(i), x[i], 0, 0, "node")
        m = sum(g.iweight(i, j) * g.inode(i, j) for j in range(g.n_inodes(i)))
        close(m, P[i] @ x, 1e-12, 1e-12, "conditional mean")
    return n > 1
