"""C10 discretized i.i.d. shocks"""
import itertools
import numpy as np
from pbt import *
from pbt.gen import *
from dolo.numeric.distribution import (
    UNormal, Uniform, LogNormal, Beta, Truncation, Normal, Bernouilli, Mixture, ProductDistribution,
    FiniteDistribution, EquiprobableDistribution, product_iid,
)
from dolo.numeric.processes import ConstantProcess, ProductProcess
from dolo.numeric.discretization.quadrature import hermgauss, gauss_hermite_nodes

suite = Suite(
    "C10",
    "Distributions of every kind with generated parameters (means, covariances with correlations of both signs and"
    " degenerate dimensions), numbers of points, options and targets (iid, mc); oracle: closed-form gaussian moments of"
    " random projections, closed-form quantiles, explicit products and mixtures. Non-trivial = non-zero mean or"
    " correlation, at least two points.",
)


def spd(seed, d, scale=1.0):
    r = rs(seed)
    A = r.randn(d, d)
    return scale * (A @ A.T + 0.05 * np.eye(d))


def gauss_moment(k):
    return 0.0 if k % 2 else float(np.prod(np.arange(1, k, 2)))


def points(dd):
    "through the public interface of discretized i.i.d. processes"
    n = dd.n_inodes(0)
    x = np.array([np.atleast_1d(dd.inode(0, j)) for j in range(n)], dtype=float)
    w = np.array([dd.iweight(0, j) for j in range(n)], dtype=float)
    expect(dd.n_nodes == 1, "an i.i.d. process has a single state")
    it = list(dd.items())
    expect(len(it) == n, "items")
    close([a for a, _ in it], w, 0, 0, "weights listed by items()")
    close([np.atleast_1d(b) for _, b in it], x, 0, 0, "points listed by items()")
    expect(x.shape == (n, dd.d), f"dimension of the points: {x.shape}, {dd.d}")
    return x, w


def weights_ok(w, n=None):
    expect((w >= 0).all(), "negative weight")
    close(w.sum(), 1.0, 0, 1e-9, "weights sum to one")
    if n is not None:
        expect(len(w) == n, f"{len(w)} points instead of {n}")


def mc_of(dist, kw, x, w):
    mc = dist.discretize(to="mc", **kw)
    close(np.asarray(mc.values, float), x, 1e-12, 1e-12, "values of the chain")
    close(mc.transitions, np.tile(w, (len(w), 1)), 1e-12, 1e-12, "every state of the chain draws the same distribution")
    for i in range(mc.n_nodes):
        close(np.array([mc.iweight(i, j) for j in range(mc.n_inodes(i))]), w, 1e-12, 1e-12, "iweight")


def gaussian_ok(x, w, mu, Sigma, orders, seed):
    d = len(mu)
    weights_ok(w, int(np.prod(orders)))
    sc = 1 + np.abs(mu).max() + np.sqrt(np.diag(Sigma)).max()
    close((w @ x) / sc, mu / sc, 1e-9, 1e-9, "mean")
    xc = x - mu
    if min(orders) >= 2:
        close((xc.T * w) @ xc / sc**2, Sigma / sc**2, 1e-8, 1e-8, "covariance")
    r = rs(seed)
    for _ in range(3):
        v = r.randn(d)
        sd = np.sqrt(v @ Sigma @ v)
        if sd < 1e-8:
            continue
        z = xc @ v / sd
        for k in range(1, 2 * min(orders)):
            scale = max(1.0, gauss_moment(k + k % 2))
            close(w @ z**k / scale, gauss_moment(k) / scale, 1e-7, 1e-7, f"moment of order {k} of a projection")


@suite.sub(st.integers(1, 40), quick=40)
def hermite_rule(n):
    x, w = hermgauss(n)
    x0, w0 = np.polynomial.hermite.hermgauss(n)
    o = np.argsort(x)
    close(np.asarray(x)[o], x0, 1e-9, 1e-9, "nodes")
    close(np.asarray(w)[o], w0, 1e-8, 1e-10, "weights")
    return n > 1


@st.composite
def gh_case(draw):
    d = draw(st.integers(1, 3))
    return dict(d=d, seed=draw(seeds), orders=[draw(st.integers(1, [12, 7, 5][d - 1])) for _ in range(d)],
                mu=draw(vec(d, -3, 3)), scale=draw(st.sampled_from([1.0, 1e-4, 0.01, 25.0])),
                zero=draw(st.lists(st.integers(0, d - 1), max_size=d - 1)), use_int=draw(st.booleans()))


@suite.sub(gh_case(), quick=300, thorough=3000)
def gauss_hermite(c):
    d, orders, mu = c["d"], c["orders"], np.array(c["mu"])
    S = spd(c["seed"], d, c["scale"])
    for i in c["zero"]:
        S[i, :] = 0
        S[:, i] = 0
    S0 = S.copy()
    if d == 1:
        x, w = gauss_hermite_nodes(orders[0] if c["use_int"] else orders, S, mu=mu[0])
    else:
        x, w = gauss_hermite_nodes(orders, S, mu=mu)
    close(S, S0, 0, 0, "the covariance given is left alone")
    gaussian_ok(np.asarray(x), np.asarray(w), mu, S, orders, c["seed"])
    x1, w1 = gauss_hermite_nodes(orders, S)
    gaussian_ok(np.asarray(x1), np.asarray(w1), 0 * mu, S, orders, c["seed"])
    label(f"dimension {d}", "degenerate" if c["zero"] else "full rank")
    return bool(np.any(mu != 0)) and max(orders) > 1


@suite.sub(gh_case(), quick=300, thorough=3000)
def normal(c):
    d, mu = c["d"], np.array(c["mu"])
    S = spd(c["seed"], d, c["scale"])
    orders = c["orders"]
    dist = Normal(Σ=S.tolist(), Μ=mu.tolist()) if c["seed"] % 3 else Normal(Σ=S)
    if not c["seed"] % 3:
        mu = 0 * mu
    if c["use_int"]:
        orders = [orders[0]] * d
        kw = dict(N=orders[0])
    elif c["seed"] % 5 == 0:
        orders, kw = [5] * d, {}
    else:
        kw = dict(N=orders)
    dd = dist.discretize(**kw)
    x, w = points(dd)
    gaussian_ok(x, w, mu, S, orders, c["seed"])
    close(dd.integrate(lambda u: u), mu, 1e-8, 1e-8 * (1 + np.abs(S).max()), "integral of the identity")
    mc_of(dist, kw, x, w)
    label(f"dimension {d}")
    return d > 1 or bool(np.any(mu != 0))


@st.composite
def uni(draw, kinds=("unormal", "uniform", "lognormal", "beta", "tnormal", "tuniform")):
    k = draw(st.sampled_from(kinds))
    if k == "unormal":
        return [k, draw(fl(0.01, 5)), draw(fl(-3, 3))]
    if k == "uniform":
        a = draw(fl(-5, 5))
        return [k, a, a + draw(fl(0.01, 5))]
    if k == "lognormal":
        return [k, draw(fl(0.05, 1.5)), draw(fl(-1, 1))]
    if k == "beta":
        return [k, draw(fl(0.3, 5)), draw(fl(0.3, 5))]
    if k == "tnormal":
        s, m = draw(fl(0.1, 3)), draw(fl(-2, 2))
        lo, hi = draw(fl(-2.5, 0.5)), draw(fl(0.1, 2))
        return [k, s, m, None if draw(st.booleans()) else m + s * lo, None if draw(st.booleans()) else m + s * (lo + hi)]
    a, w = draw(fl(-5, 5)), draw(fl(0.1, 5))
    l = draw(fl(0, 0.8))
    return [k, a, a + w, a + w * l, a + w * (l + (1 - l) * draw(fl(0.2, 1)))]


def make_uni(u):
    from scipy.special import ndtri, ndtr, betaincinv

    k = u[0]
    if k == "unormal":
        s, m = u[1:]
        return UNormal(σ=s, μ=m), lambda q: m + s * ndtri(q), (-np.inf, np.inf)
    if k == "uniform":
        a, b = u[1:]
        return Uniform(a, b), lambda q: a + (b - a) * q, (a, b)
    if k == "lognormal":
        s, m = u[1:]
        return LogNormal(σ=s, μ=m), lambda q: np.exp(m + s * ndtri(q)), (0.0, np.inf)
    if k == "beta":
        a, b = u[1:]
        return Beta(a, b), lambda q: betaincinv(a, b, q), (0.0, 1.0)
    if k == "tnormal":
        s, m, lo, hi = u[1:]
        l = -np.inf if lo is None else lo
        h = np.inf if hi is None else hi
        pl, ph = ndtr((l - m) / s), ndtr((h - m) / s)
        kw = {}
        if lo is not None:
            kw["lb"] = lo
        if hi is not None:
            kw["ub"] = hi
        return Truncation(UNormal(σ=s, μ=m), **kw), lambda q: m + s * ndtri(pl + (ph - pl) * q), (l, h)
    a, b, lo, hi = u[1:]
    return Truncation(Uniform(a, b), lb=lo, ub=hi), lambda q: lo + (hi - lo) * q, (lo, hi)


@suite.sub(st.fixed_dictionaries(dict(u=uni(), N=st.integers(1, 15), mp=st.sampled_from(["median", "left", "middle", "right"]))), quick=400, thorough=3000)
def equiprobable(c):
    dist, q, (lo, hi) = make_uni(c["u"])
    N, mp = c["N"], c["mp"]
    if mp == "right" and not np.isfinite(hi) or mp == "left" and not np.isfinite(lo) or mp == "middle" and not np.isfinite(hi - lo):
        mp = "median"
    kw = dict(N=N, method="equiprobable", mass_point=mp)
    dd = dist.discretize(to="iid", **kw)
    x, w = points(dd)
    weights_ok(w, N)
    close(w, np.ones(N) / N, 0, 1e-12, "equiprobable weights")
    k = np.arange(N)
    if mp == "median":
        ref = q((k + 0.5) / N)
    elif mp == "left":
        ref = q(k / N)
    elif mp == "right":
        ref = q((k + 1.0) / N)
    else:
        ref = 0.5 * (q(k / N) + q((k + 1.0) / N))
    sc = 1 + np.abs(ref)
    close(x[:, 0] / sc, ref / sc, 1e-6, 1e-7, f"{mp} of the cells")
    eps = 1e-9 * (1 + abs(x).max())
    expect((x[:, 0] >= lo - eps).all() and (x[:, 0] <= hi + eps).all(), "points inside the support")
    expect((np.diff(x[:, 0]) >= -eps).all(), "points are increasing")
    mc_of(dist, kw, x, w)
    if c["N"] == 5 and mp == "median":
        close(points(dist.discretize())[0], x, 0, 0, "default options")
    label(c["u"][0], mp)
    return N > 1


@suite.sub(st.tuples(fl(0.01, 5), fl(-3, 3), st.integers(1, 15), seeds), quick=100)
def unormal_gauss(c):
    s, m, N, seed = c
    dist = UNormal(σ=s, μ=m)
    kw = dict(N=N, method="gauss-hermite")
    dd = dist.discretize(**kw)
    x, w = points(dd)
    gaussian_ok(x, w, np.array([m]), np.array([[s**2]]), [N], seed)
    mc_of(dist, kw, x, w)
    return N > 1 and m != 0


@st.composite
def factor(draw):
    k = draw(st.sampled_from(["normal", "bern", "finite", "equi", "uni", "const"]))
    if k == "normal":
        d = draw(st.integers(1, 2))
        return [k, d, draw(seeds), draw(vec(d, -2, 2))]
    if k == "bern":
        return [k, draw(fl(0, 1))]
    if k in ("finite", "equi"):
        n, d = draw(st.integers(1, 4)), draw(st.integers(1, 2))
        return [k, [draw(vec(d, -3, 3)) for _ in range(n)], draw(seeds)]
    if k == "const":
        return [k, draw(vec(draw(st.integers(1, 2)), -3, 3))]
    return [k, draw(uni(("unormal", "uniform", "lognormal")))]


def make_factor(f):
    k = f[0]
    if k == "normal":
        return Normal(Σ=spd(f[2], f[1]), Μ=f[3])
    if k == "bern":
        return Bernouilli(f[1])
    if k == "finite":
        w = rs(f[2]).rand(len(f[1])) + 0.01
        return FiniteDistribution(np.array(f[1], dtype=float), w / w.sum())
    if k == "equi":
        return EquiprobableDistribution(np.array(f[1], dtype=float))
    if k == "const":
        return ConstantProcess(μ=f[1])
    return make_uni(f[1])[0]


def law(x, w):
    "the discrete distribution as a sorted list of (weight, point), equal points merged"
    acc = {}
    for a, b in zip(np.round(x, 9) + 0.0, w):
        acc[tuple(a)] = acc.get(tuple(a), 0.0) + b
    return acc


def same_law(x, w, y, v, msg):
    expect(x.shape[1] == y.shape[1], f"{msg}: dimension")
    a, b = law(x, w), law(y, v)
    expect(set(a) == set(b), lambda: f"{msg}: points {sorted(set(a) ^ set(b))[:4]}")
    for k in b:
        close(a[k], b[k], 1e-9, 1e-12, f"{msg}: weight of {k}")


@suite.sub(st.tuples(st.lists(factor(), min_size=1, max_size=3), st.sampled_from(["distribution", "process", "function"])), quick=200, thorough=2000)
def products(c):
    fs, how = c
    l = [make_factor(f) for f in fs]
    if how == "distribution" and any(f[0] == "const" for f in fs):
        how = "process"
    dl = [e.discretize(to="iid") for e in l]
    xs, ws = zip(*[points(e) for e in dl])
    for w in ws:
        weights_ok(w)
    if how == "function":
        dd = product_iid(dl)
    elif how == "distribution":
        dd = ProductDistribution(l).discretize(to="iid")
    else:
        dd = ProductProcess(*l).discretize(to="iid")
    x, w = points(dd)
    weights_ok(w, int(np.prod([len(e) for e in ws])))
    y, v = [], []
    for idx in itertools.product(*[range(len(e)) for e in ws]):
        y.append(np.concatenate([xs[k][j] for k, j in enumerate(idx)]))
        v.append(np.prod([ws[k][j] for k, j in enumerate(idx)]))
    same_law(x, w, np.array(y), np.array(v), "product")
    # weights stay attached to their points, factor by factor
    k0 = 0
    for k, e in enumerate(xs):
        same_law(x[:, k0:k0 + e.shape[1]], w, e, ws[k], f"marginal {k}")
        k0 += e.shape[1]
    if how == "distribution":
        mc = ProductDistribution(l).discretize(to="mc")
        same_law(mc.values, mc.transitions[0], x, w, "chain of the product")
        close(mc.transitions, np.tile(mc.transitions[:1], (len(w), 1)), 0, 0, "every state of the chain draws the same distribution")
    label(how, *[f[0] for f in fs])
    return len(fs) > 1


@st.composite
def mixture(draw):
    n = draw(st.integers(1, 3))
    return dict(d=draw(st.integers(1, 2)), seed=draw(seeds), n=n, perm=list(draw(st.permutations(range(n)))),
                bern=draw(st.booleans()), p=draw(fl(0, 1)), mu=[draw(vec(2, -3, 3)) for _ in range(3)],
                disc=draw(st.sampled_from(["normal", "finite"])))


def make_mixture(c):
    r = rs(c["seed"])
    n = 2 if c["bern"] else c["n"]
    dists = {}
    for k in range(n):
        if c["disc"] == "normal":
            dists[str(k)] = Normal(Σ=spd(c["seed"] + k, c["d"]), Μ=c["mu"][k][: c["d"]])
        else:
            w = r.rand(k + 2)
            dists[str(k)] = FiniteDistribution(r.randn(k + 2, c["d"]).round(3) + 10 * k, w / w.sum())
    if c["bern"]:
        index, probs = Bernouilli(c["p"]), {0: 1 - c["p"], 1: c["p"]}
    else:
        w = r.rand(n) + 0.05
        w = w / w.sum()
        index = FiniteDistribution(np.array(c["perm"])[:, None], w)
        probs = {v: w[k] for k, v in enumerate(c["perm"])}
    return Mixture(index=index, distributions=dists), probs, dists


@suite.sub(mixture(), quick=200, thorough=2000)
def mixtures(c):
    mix, probs, dists = make_mixture(c)
    dd = mix.discretize(to="iid")
    x, w = points(dd)
    weights_ok(w)
    y, v = [], []
    for k, p in probs.items():
        a, b = points(dists[str(k)].discretize(to="iid"))
        y.append(a)
        v.append(p * b)
    same_law(x, w, np.concatenate(y), np.concatenate(v), "mixture")
    mc = mix.discretize(to="mc")
    same_law(mc.values, mc.transitions[-1], x, w, "chain of the mixture")
    label("bernouilli index" if c["bern"] else "finite index")
    return len(probs) > 1


@suite.sub(st.tuples(fl(0, 1), vec(2, -3, 3), st.integers(1, 3)), quick=60)
def bernouilli_and_constant(c):
    p, mu, n = c
    x, w = points(Bernouilli(p).discretize(to="iid"))
    same_law(x, w, np.array([[0.0], [1.0]]), np.array([1 - p, p]), "bernouilli")
    mc = Bernouilli(p).discretize(to="mc")
    same_law(np.asarray(mc.values, float), mc.transitions[0], x, w, "bernouilli chain")
    x, w = points(ConstantProcess(μ=mu).discretize(to="iid"))
    same_law(x, w, np.array([mu]), np.array([1.0]), "constant")
    mc = ConstantProcess(μ=mu).discretize(to="mc")
    close(mc.values, [mu], 0, 0, "constant chain")
    close(mc.transitions, [[1.0]], 0, 0, "constant chain")
    return 0 < p < 1


@st.composite
def rare(draw):
    return dict(n=draw(st.integers(1, 5)), m=draw(st.integers(1, 6)), d=draw(st.integers(1, 3)), seed=draw(seeds), kind=draw(st.sampled_from(["finite", "chain", "gdp"])),
                exps=[draw(st.integers(0, 14)) for _ in range(30)], zeros=[draw(st.integers(0, 5)) == 0 for _ in range(30)])


@suite.sub(rare(), quick=200, thorough=2000)
def iterated(c):
    """weights and nodes enumerated by iteritems, including improbable ones, are those of the process"""
    from dolo.numeric.processes import MarkovChain, GDP
    r = rs(c["seed"])
    m, d = c["m"], c["d"]
    n = m if c["kind"] == "chain" else (1 if c["kind"] == "finite" else c["n"])
    W = np.array([10.0 ** -c["exps"][(i * m + j) % 30] * (not c["zeros"][(i * m + j) % 30]) for i in range(n) for j in range(m)]).reshape(n, m)
    W[:, -1] += 1e-3
    W /= W.sum(axis=1, keepdims=True)
    if c["kind"] == "chain":
        x = r.randn(m, d)
        dp, X = MarkovChain(W, x), np.tile(x, (n, 1, 1))
    elif c["kind"] == "gdp":
        X = r.randn(n, m, d)
        dp = GDP(r.randn(n, d), X, W)
    else:
        x = r.randn(m, d)
        dp, X = FiniteDistribution(x, W[0]), x[None]
    for i in range(n):
        expect(dp.n_inodes(i) == m, f"{dp.n_inodes(i)} integration nodes instead of {m}")
        got = list(dp.iteritems(i))
        # only impossible nodes may be left out
        ref = [(W[i, j], X[i, j]) for j in range(m) if W[i, j] > 1e-15]
        sure = [g for g in got if g[0] > 1e-15]
        expect(len(sure) == len(ref), f"{len(sure)} nodes are enumerated, {len(ref)} have a positive probability")
        for (a, b), (p, q) in zip(sure, ref):
            close(a, p, 1e-12, 0, "weight")
            close(b, q, 0, 0, "node")
    label(c["kind"])
    return m > 1 and (W < 1e-6).any()
