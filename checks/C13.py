"""C13 products of processes"""
import itertools
import numpy as np
from pbt import *
from pbt.gen import *
from checks.C10 import spd
from dolo.numeric.processes import AR1, VAR1, MarkovChain, ProductProcess, Product
from dolo.numeric.distribution import UNormal, Normal, Bernouilli, FiniteDistribution, Uniform
from dolo.numeric.discretization import tensor_markov

suite = Suite(
    "C13",
    "Products of one to three generated factors (chains, scalar and vector autoregressions, i.i.d. distributions), with"
    " options; oracle: explicit enumeration of the combinations of the factors' nodes and product probabilities, simulated"
    " factors compared with their own law. Non-trivial = two factors or more, one of them not i.i.d.",
)


@st.composite
def factor(draw, kinds=("mc", "ar1", "var1", "unormal", "normal", "bern", "finite")):
    return dict(k=draw(st.sampled_from(kinds)), seed=draw(seeds), d=draw(st.integers(1, 2)), n=draw(st.integers(1, 3)),
                rho=draw(fl(-0.9, 0.9)), mu=draw(vec(2, -2, 2)), N=draw(st.one_of(st.none(), st.integers(1, 3))))


def make(f):
    r = rs(f["seed"])
    k = f["k"]
    if k == "mc":
        return MarkovChain(stochastic_matrix(f["seed"], f["n"]), r.randn(f["n"], f["d"]))
    if k == "ar1":
        return AR1(ρ=f["rho"], σ=0.1 + r.rand(), μ=f["mu"][0])
    if k == "var1":
        return VAR1(ρ=f["rho"], Σ=spd(f["seed"], f["d"]), μ=f["mu"][: f["d"]])
    if k == "unormal":
        return UNormal(σ=0.1 + r.rand(), μ=f["mu"][0])
    if k == "normal":
        return Normal(Σ=spd(f["seed"], f["d"]), Μ=f["mu"][: f["d"]])
    if k == "bern":
        return Bernouilli(0.1 + 0.8 * r.rand())
    w = r.rand(f["n"]) + 0.1
    return FiniteDistribution(r.randn(f["n"], f["d"]), w / w.sum())


IID = ("unormal", "normal", "bern", "finite")


def opts(f):
    return {"N": f["N"]} if f["N"] and f["k"] in ("ar1", "var1", "unormal", "normal") else {}


def check_product(nodes, P, parts):
    "parts: list of (nodes, transitions) of the factors; the order of the combinations does not matter"
    combos = list(itertools.product(*[range(len(x)) for x, _ in parts]))
    n = len(combos)
    expect(nodes.shape == (n, sum(x.shape[1] for x, _ in parts)), f"nodes of shape {nodes.shape}, {n} combinations expected")
    expect(P.shape == (n, n), f"transitions of shape {P.shape}")
    ref = np.array([np.concatenate([x[i] for (x, _), i in zip(parts, c)]) for c in combos])
    Q = np.array([[np.prod([p[a, b] for (_, p), a, b in zip(parts, c, d)]) for d in combos] for c in combos])
    # nodes are pairwise distinct by construction: find the permutation
    perm = []
    for x in ref:
        dist = np.abs(nodes - x).max(axis=1)
        j = int(np.argmin(dist))
        expect(dist[j] < 1e-9, lambda: f"combination {x} is not a node of the product")
        perm.append(j)
    expect(len(set(perm)) == n, "the same node stands for two combinations")
    close(P[np.ix_(perm, perm)], Q, 1e-9, 1e-12, "transition probabilities of the product")


def distinct(x):
    x = np.asarray(x, float)
    return all(np.abs(x[i] - x[j]).max() > 1e-6 for i in range(len(x)) for j in range(i))


@suite.sub(st.lists(st.tuples(st.integers(1, 3), st.integers(1, 3), seeds), min_size=1, max_size=4), quick=200, thorough=2000)
def tensor(c):
    parts = [(rs(s).randn(n, d), stochastic_matrix(s, n)) for n, d, s in c]
    if np.prod([len(x) for x, _ in parts]) > 40:
        reject()
    keep = [(x.copy(), p.copy()) for x, p in parts]
    nodes, P = tensor_markov(*parts)
    check_product(np.asarray(nodes), np.asarray(P), parts)
    for (a, b), (x, p) in zip(keep, parts):
        close(a, x, 0, 0, "arguments are left alone")
        close(b, p, 0, 0, "arguments are left alone")
    label(f"{len(c)} chains")
    return len(c) > 1


@suite.sub(st.tuples(st.lists(factor(), min_size=1, max_size=3), st.booleans()), quick=250, thorough=2000)
def discretized(c):
    fs, fun = c
    if all(f["k"] in IID for f in fs):
        fs = fs[:-1] + [dict(fs[-1], k="ar1")]
    l = [make(f) for f in fs]
    options = [opts(f) for f in fs]
    parts = []
    for e, o in zip(l, options):
        mc = e.discretize(to="mc", **o)
        parts.append((np.asarray(mc.values, float), np.asarray(mc.transitions, float)))
    if np.prod([len(x) for x, _ in parts]) > 60 or not all(distinct(x) for x, _ in parts):
        reject()
    p = Product(*l) if fun else ProductProcess(*l)
    expect(p.d == sum(e.d for e in l), "number of variables of the product")
    if any(options):
        dp = p.discretize(options=options) if fs[0]["seed"] % 2 else p.discretize(to="mc", options=options)
    else:
        dp = p.discretize() if fs[0]["seed"] % 2 else p.discretize(to="mc")
    check_product(np.asarray(dp.values), np.asarray(dp.transitions), parts)
    label(*[f["k"] for f in fs])
    return len(fs) > 1


@suite.sub(st.lists(factor(("ar1", "var1")), min_size=1, max_size=3), quick=60)
def shared_options(c):
    "options given as a dictionary apply to every factor"
    l = [make(dict(f, d=1)) for f in c]
    dp = ProductProcess(*l).discretize(to="mc", options={"N": 2})
    expect(dp.n_nodes == 2 ** len(l), f"{dp.n_nodes} nodes")
    parts = []
    for e in l:
        mc = e.discretize(to="mc", N=2)
        parts.append((mc.values, mc.transitions))
    check_product(dp.values, dp.transitions, parts)
    return len(l) > 1


@suite.sub(st.tuples(st.lists(factor(), min_size=1, max_size=3), seeds), quick=100, thorough=1000)
def simulated(c):
    fs, seed = c
    l = [make(f) for f in fs]
    N, T = 40, 60
    np.random.seed(seed % 2**32)
    sim = np.asarray(ProductProcess(*l).simulate(N, T))
    d = sum(e.d for e in l)
    expect(sim.shape == (T, N, d), f"shape {sim.shape} instead of {(T, N, d)}")
    np.random.seed(seed % 2**32)
    close(np.asarray(ProductProcess(*l).simulate(N, T)), sim, 0, 0, "replication")
    k = 0
    scores = []
    for f, e in zip(fs, l):
        y = sim[:, :, k:k + e.d]
        k += e.d
        if f["k"] in ("mc", "finite", "bern"):
            x0 = np.asarray(e.values if f["k"] == "mc" else e.discretize(to="iid").points, float)
            dd = np.abs(y[:, :, None, :] - x0[None, None]).max(axis=-1)
            expect((dd.min(axis=2) < 1e-12).all(), f"values of factor {f['k']}")
            if f["k"] == "mc":
                idx = dd.argmin(axis=2)
                expect((idx[0] == 0).all(), "chains start in their first state")
                n = len(x0)
                for a in range(n):
                    m = idx[:-1] == a
                    cnt = m.sum()
                    if cnt < 20:
                        continue
                    for b in range(n):
                        fr = (idx[1:][m] == b).mean()
                        expect(abs(fr - e.transitions[a, b]) <= np.sqrt(np.log(2 / 1e-9) / (2 * cnt)), f"frequency of transition {a}->{b}: {fr:.2f}")
            eps = (y - y.mean(axis=(0, 1)))[1:]
        elif f["k"] in ("ar1", "var1"):
            mu = np.array(f["mu"][: e.d])
            close(y[0], np.tile(mu, (N, 1)), 1e-12, 1e-12, "autoregressions start at their mean")
            eps = (y[1:] - mu) - f["rho"] * (y[:-1] - mu)
            S = np.array([[e.σ]]) if f["k"] == "ar1" else e.Σ
            gaussian(eps.reshape(-1, e.d), S, f["k"])
        else:
            S = np.array([[e.σ**2]]) if f["k"] == "unormal" else e.Σ
            gaussian((y - np.array(f["mu"][: e.d])).reshape(-1, e.d), S, f["k"])
            eps = (y - y.mean(axis=(0, 1)))[1:]
        if np.std(eps[:, :, 0]) > 1e-9 and f["k"] != "mc":
            scores.append((eps[:, :, 0] / np.std(eps[:, :, 0])).ravel())
    for i in range(len(scores)):
        for j in range(i):
            z = np.mean(scores[i] * scores[j])
            m4 = np.sqrt(np.sqrt(np.mean(scores[i] ** 4) * np.mean(scores[j] ** 4)))
            expect(abs(z) <= 8 * max(1.0, m4) / np.sqrt(N * (T - 1)), f"two factors have a correlation of {z:.2f}")
    return len(fs) > 1


def gaussian(e, S, msg):
    from scipy.special import ndtr
    from checks.C11 import dkw

    for v in [np.eye(len(S))[i] for i in range(len(S))] + [np.ones(len(S))]:
        sd = np.sqrt(v @ S @ v)
        dkw(e @ v / sd, ndtr, f"innovations of factor {msg}")


@suite.sub(st.lists(factor(("ar1", "var1")), min_size=1, max_size=3), quick=60)
def deterministic(c):
    l = [make(f) for f in c]
    sim = np.asarray(ProductProcess(*l).simulate(2, 7, stochastic=False))
    ref = np.concatenate([np.asarray(e.simulate(2, 7, stochastic=False)) for e in l], axis=2)
    close(sim, ref, 1e-12, 1e-12, "deterministic paths side by side")
    mu = np.concatenate([f["mu"][: e.d] for f, e in zip(c, l)])
    close(sim, np.tile(mu, (7, 2, 1)), 1e-9, 1e-9, "paths without shocks stay at the mean")
    return len(l) > 1
