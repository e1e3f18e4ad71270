"""C11 laws, draws, quantiles and integrals of distributions"""
import numpy as np
from pbt import *
from pbt.gen import *
from checks.C10 import make_uni, uni, spd, make_factor, factor, mixture, make_mixture, points
from dolo.numeric.distribution import UNormal, Uniform, LogNormal, Normal, Bernouilli, ProductDistribution, FiniteDistribution

suite = Suite(
    "C11",
    "Distributions with generated parameters; quantile functions against closed forms, draws against the law with"
    " distribution-free bounds (DKW on the distribution function of random projections, Hoeffding on frequencies, both at"
    " 1e-9 error probability), support, shape, replication by seed, serial independence. Non-trivial = at least 1000 draws"
    " or at least 3 quantiles.",
)

NDRAW = 4000


def dkw(z, cdf, msg):
    "z: sample; cdf: its distribution function"
    z = np.sort(z)
    n = len(z)
    F = cdf(z)
    D = max(np.max(np.arange(1, n + 1) / n - F), np.max(F - np.arange(n) / n))
    expect(D <= np.sqrt(np.log(2 / 1e-9) / (2 * n)), f"{msg}: empirical distribution function is off by {D:.3f} with {n} draws")


def serial(z, msg):
    "successive draws are uncorrelated (bounded scores)"
    n = len(z)
    r = np.argsort(np.argsort(z)) / n - 0.5
    c = 12 * np.mean(r[1:] * r[:-1])
    expect(abs(c) <= 6.5 / np.sqrt(n), f"{msg}: successive draws have a rank correlation of {c:.2f}")


def sample(dist, d, seed, n=NDRAW):
    np.random.seed(seed % 2**32)
    x = dist.draw(n)
    expect(np.shape(x) == (n, d), f"{n} draws of dimension {d} have shape {np.shape(x)}")
    np.random.seed(seed % 2**32)
    close(dist.draw(n), x, 0, 0, "draws with the same seed")
    y = dist.draw(n)
    if n > 100 and len(np.unique(x[:, 0])) > 10:
        expect(not np.array_equal(x, y), "successive draws are identical")
    return np.asarray(x, dtype=float)


def freq(x, w, xp, msg, merge=9):
    "frequencies of the points xp"
    acc = {}
    for a, b in zip(np.round(xp, merge) + 0.0, w):
        acc[tuple(a)] = acc.get(tuple(a), 0.0) + b
    got = {}
    for a in np.round(x, merge) + 0.0:
        got[tuple(a)] = got.get(tuple(a), 0) + 1
    expect(set(got) <= set(acc), f"{msg}: draw outside of the support")
    n = len(x)
    h = np.sqrt(np.log(2 / 1e-9) / (2 * n))
    for k, p in acc.items():
        f = got.get(k, 0) / n
        expect(abs(f - p) <= h, f"{msg}: frequency of {k} is {f:.3f} instead of {p:.3f}")
        if p == 0:
            expect(f == 0, f"{msg}: event of probability zero")


@suite.sub(st.fixed_dictionaries(dict(u=uni(), q=st.lists(fl(0.001, 0.999), min_size=1, max_size=8))), quick=500, thorough=4000)
def quantiles(c):
    dist, q, (lo, hi) = make_uni(c["u"])
    qs = np.array(c["q"])
    x = dist.ppf(qs)
    ref = q(qs)
    close(x / (1 + np.abs(ref)), ref / (1 + np.abs(ref)), 1e-6, 1e-7, "quantiles")
    expect((np.diff(dist.ppf(np.sort(qs))) >= -1e-12).all(), "quantiles increase")
    expect((x >= lo - 1e-9 * (1 + abs(lo)) if np.isfinite(lo) else np.array(True)).all(), "quantiles above the lower bound")
    expect((x <= hi + 1e-9 * (1 + abs(hi)) if np.isfinite(hi) else np.array(True)).all(), "quantiles below the upper bound")
    if c["u"][0] in ("unormal", "uniform"):
        close(dist.cdf(x), qs, 1e-9, 1e-9, "cdf(ppf(q))")
        t = np.linspace(-8, 8, 9)
        close(dist.cdf(t), np.clip((t - c["u"][1]) / (c["u"][2] - c["u"][1]), 0, 1) if c["u"][0] == "uniform" else __import__("scipy.special").special.ndtr((t - c["u"][2]) / c["u"][1]), 1e-9, 1e-9, "cdf")
    label(c["u"][0])
    return len(qs) > 2


@suite.sub(st.fixed_dictionaries(dict(s=fl(0.05, 3), q=st.lists(fl(0.01, 0.99), min_size=1, max_size=6), n=st.integers(1, 3), seed=seeds)), quick=60, thorough=300)
def omitted(c):
    """optional parameters"""
    qs, s = np.array(c["q"]), c["s"]
    close(UNormal(σ=s).ppf(qs), UNormal(σ=s, μ=0.0).ppf(qs), 0, 0, "mean of normal variables defaults to 0")
    close(LogNormal(σ=s).ppf(qs), LogNormal(σ=s, μ=0.0).ppf(qs), 0, 0, "mean of the logarithm of lognormal variables defaults to 0")
    close(LogNormal().ppf(qs), LogNormal(σ=1.0, μ=0.0).ppf(qs), 0, 0, "lognormal variables default to exponentials of standard normal ones")
    close(Uniform().ppf(qs), qs, 0, 1e-15, "uniform variables default to the interval [0,1]")
    S = spd(c["seed"], c["n"])
    a, b = Normal(Σ=S), Normal(Σ=S, Μ=np.zeros(c["n"]))
    for d in (a, b):
        close(d.Μ, np.zeros(c["n"]), 0, 0, "mean of normal vectors defaults to 0")
    np.random.seed(c["seed"] % 2**32)
    x = a.draw(5)
    np.random.seed(c["seed"] % 2**32)
    close(b.draw(5), x, 0, 0, "draws, when the mean is omitted")
    return len(qs) > 1


@suite.sub(st.tuples(fl(0.01, 5), fl(-4, 4), st.integers(0, 4), fl(-0.4, 0.4)), quick=150)
def integral_normal(c):
    s, m, k, a = c
    dist = UNormal(σ=s, μ=m)
    mom = [1.0, m, m**2 + s**2, m**3 + 3 * m * s**2, m**4 + 6 * m**2 * s**2 + 3 * s**4]
    sc = 1 + abs(m) ** k + s**k
    close(dist.integrate(lambda u: u**k) / sc, mom[k] / sc, 1e-6, 1e-7, f"moment of order {k}")
    ref = np.exp(-0.5 * a**2 * s**2) * np.cos(a * m)
    close(dist.integrate(lambda u: np.cos(a * u)), ref, 1e-6, 1e-6, "characteristic function")
    return m != 0


@suite.sub(st.tuples(factor().filter(lambda f: f[0] in ("finite", "equi", "bern")), fl(-2, 2)), quick=150)
def integral_discrete(c):
    f, a = c
    dist = make_factor(f).discretize(to="iid")
    x, w = points(dist)
    close(dist.integrate(lambda u: np.sin(a + np.sum(u))), float(np.sum(w * np.sin(a + x.sum(axis=1)))), 1e-9, 1e-9, "integral")
    return len(w) > 1


@suite.sub(st.fixed_dictionaries(dict(u=uni(("unormal", "uniform")), seed=seeds, n=st.sampled_from([1, 2, NDRAW, NDRAW, NDRAW]))), quick=80, thorough=800)
def draws_univariate(c):
    dist, q, (lo, hi) = make_uni(c["u"])
    x = sample(dist, 1, c["seed"], c["n"])
    expect((x >= lo).all() and (x <= hi).all(), "draws inside the support")
    if c["n"] < 100:
        return False
    from scipy.special import ndtr
    u = c["u"]
    cdf = (lambda t: ndtr((t - u[2]) / u[1])) if u[0] == "unormal" else (lambda t: np.clip((t - u[1]) / (u[2] - u[1]), 0, 1))
    dkw(x[:, 0], cdf, u[0])
    serial(x[:, 0], u[0])
    label(u[0])
    return True


@suite.sub(st.fixed_dictionaries(dict(d=st.integers(1, 3), seed=seeds, mu=vec(3, -3, 3), scale=st.sampled_from([1.0, 0.01, 9.0]), n=st.sampled_from([1, 2, 3, NDRAW, NDRAW, NDRAW]))), quick=80, thorough=800)
def draws_normal(c):
    d, mu = c["d"], np.array(c["mu"][: c["d"]])
    S = spd(c["seed"], d, c["scale"])
    x = sample(Normal(Σ=S, Μ=mu), d, c["seed"], c["n"])
    if c["n"] < 100:
        return False
    from scipy.special import ndtr
    r = rs(c["seed"])
    for k in range(3 + d):
        v = np.eye(d)[k] if k < d else r.randn(d)
        sd = np.sqrt(v @ S @ v)
        dkw((x - mu) @ v / sd, ndtr, "projection of a normal vector")
    serial(x[:, 0], "normal")
    # correlation: X1 + X2 and X1 - X2 of standardized coordinates
    Z = (x - mu) @ np.linalg.inv(np.linalg.cholesky(S)).T
    C = Z.T @ Z / len(Z)
    expect(np.abs(C - np.eye(d)).max() <= 8 * np.sqrt(2 / len(Z)), "covariance of the draws")
    label(f"dimension {d}")
    return True


@suite.sub(st.fixed_dictionaries(dict(f=factor().filter(lambda f: f[0] in ("finite", "equi", "bern")), seed=seeds, n=st.sampled_from([1, 3, NDRAW, NDRAW]))), quick=100, thorough=800)
def draws_discrete(c):
    dist = make_factor(c["f"])
    x0, w0 = points(dist.discretize(to="iid"))
    x = sample(dist, x0.shape[1], c["seed"], c["n"])
    freq(x, w0, x0, c["f"][0])
    label(c["f"][0])
    return c["n"] > 100 and len(w0) > 1


@suite.sub(st.fixed_dictionaries(dict(f=factor().filter(lambda f: f[0] in ("finite", "equi", "bern")), seed=seeds)), quick=60, thorough=400)
def batches_discrete(c):
    "the number of times a point is drawn in a batch varies like a binomial variable"
    dist = make_factor(c["f"])
    x0, w0 = points(dist.discretize(to="iid"))
    acc = {}
    for a, b in zip(np.round(x0, 9) + 0.0, w0):
        acc[tuple(a)] = acc.get(tuple(a), 0.0) + b
    np.random.seed(c["seed"] % 2**32)
    B, n = 100, 20
    batches = [np.round(np.asarray(dist.draw(n), float), 9) + 0.0 for _ in range(B)]
    checked = False
    for k, p in acc.items():
        if not 0.15 <= p <= 0.85:
            continue
        checked = True
        f = np.array([(np.abs(b - np.array(k)).max(axis=1) < 1e-8).sum() for b in batches])
        q = np.sum((f - n * p) ** 2) / (n * p * (1 - p)) / B
        # mean of 100 variables of mean 1 and variance about 2
        expect(0.2 < q < 3, f"the variance of the number of draws of {k} in a batch is {q:.2f} times the one of independent draws")
    label(c["f"][0])
    return checked


@suite.sub(st.fixed_dictionaries(dict(fs=st.lists(factor().filter(lambda f: f[0] not in ("const",) and f != ["uni"] and (f[0] != "uni" or f[1][0] != "lognormal")), min_size=1, max_size=3), seed=seeds)), quick=60, thorough=600)
def draws_product(c):
    l = [make_factor(f) for f in c["fs"]]
    dist = ProductDistribution(l)
    x = sample(dist, sum(e.d for e in l), c["seed"])
    k = 0
    from scipy.special import ndtr
    scores = []
    for f, e in zip(c["fs"], l):
        y = x[:, k:k + e.d]
        k += e.d
        if f[0] in ("finite", "equi", "bern"):
            x0, w0 = points(e.discretize(to="iid"))
            freq(y, w0, x0, f"factor {f[0]}")
        elif f[0] == "normal":
            S = spd(f[2], f[1])
            for i in range(f[1]):
                dkw((y[:, i] - f[3][i]) / np.sqrt(S[i, i]), ndtr, "factor normal")
        elif f[1][0] == "unormal":
            dkw((y[:, 0] - f[1][2]) / f[1][1], ndtr, "factor unormal")
        else:
            dkw((y[:, 0] - f[1][1]) / (f[1][2] - f[1][1]), lambda t: np.clip(t, 0, 1), "factor uniform")
        s = np.argsort(np.argsort(y[:, 0], kind="stable")) / len(y) - 0.5
        scores.append((y[:, 0].std(), (y[:, 0] - y[:, 0].mean())))
    # factors are independent of each other
    for i in range(len(l)):
        for j in range(i):
            (si, a), (sj, b) = scores[i], scores[j]
            if si > 1e-9 and sj > 1e-9:
                z = np.mean(a * b) / (si * sj)
                m4 = np.sqrt(np.mean((a / si) ** 4) * np.mean((b / sj) ** 4))
                expect(abs(z) <= 7 * max(1.0, np.sqrt(m4)) / np.sqrt(len(x)), f"factors {j} and {i} have a correlation of {z:.2f}")
    return len(l) > 1


@suite.sub(st.tuples(mixture(), seeds), quick=80, thorough=800)
def draws_mixture(c):
    c, seed = c
    mix, probs, dists = make_mixture(c)
    x = sample(mix, c["d"], seed)
    from scipy.special import ndtr
    if c["disc"] == "finite":
        y, v = [], []
        for k, p in probs.items():
            a, b = points(dists[str(k)])
            y.append(a)
            v.append(p * b)
        freq(x, np.concatenate(v), np.concatenate(y), "mixture")
    else:
        for i in range(c["d"]):
            def cdf(t):
                return sum(p * ndtr((t - c["mu"][k][i]) / np.sqrt(spd(c["seed"] + k, c["d"])[i, i])) for k, p in probs.items())
            dkw(x[:, i], cdf, "mixture of normals")
    serial(x[:, 0] + 1e-9 * rs(seed).randn(len(x)), "mixture")
    return len(probs) > 1


@suite.sub(st.fixed_dictionaries(dict(f=factor().filter(lambda f: f[0] not in ("const",) and (f[0] != "uni" or f[1][0] != "lognormal")), N=st.integers(1, 4), T=st.integers(1, 6), seed=seeds)), quick=120)
def simulated_iid(c):
    "an i.i.d. process is simulated by independent draws, date by date"
    f, N, T = c["f"], c["N"], c["T"]
    dist = make_factor(f)
    np.random.seed(c["seed"])
    sim = dist.simulate(N, T)
    expect(tuple(sim.dims) == ("T", "N", "V"), f"dimensions {sim.dims}")
    expect(sim.shape == (T, N, dist.d), f"shape {sim.shape}")
    np.random.seed(c["seed"])
    close(np.asarray(dist.simulate(N, T)), np.asarray(sim), 0, 0, "replication")
    if f[0] in ("finite", "equi", "bern"):
        x0, w0 = points(dist.discretize(to="iid"))
        for row in np.asarray(sim).reshape(-1, dist.d):
            expect(np.abs(x0[w0 > 0] - row).max(axis=1).min() < 1e-12, "simulated value outside of the support")
    elif f[0] in ("normal",) and T * N > 1:
        expect(len(np.unique(np.asarray(sim).reshape(-1, dist.d), axis=0)) == T * N, "draws are repeated across dates or replications")
    return T > 1 and N > 1
