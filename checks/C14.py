"""C14 simulated paths of processes"""
import numpy as np
from pbt import *
from pbt.gen import *
from checks.C10 import spd
from checks.C11 import dkw
from dolo.numeric.processes import AR1, VAR1, MarkovChain, simulate_markov_chain
from dolo.numeric.distribution import UNormal, Normal

suite = Suite(
    "C14",
    "Generated chains (with impossible transitions) and autoregressions (with arbitrary autocorrelation matrices),"
    " horizons, replications, initial values, impulses and seeds; invariants over the histories: start, possible"
    " transitions, frequencies (Hoeffding at 1e-9), law of the innovations (DKW at 1e-9); exact recursions for paths without"
    " shocks and responses. Non-trivial = at least two dates and (two states or persistence).",
)


@st.composite
def mc_case(draw):
    n = draw(st.integers(1, 5))
    return dict(n=n, d=draw(st.integers(1, 2)), seed=draw(seeds), sparse=draw(st.booleans()), N=draw(st.sampled_from([1, 2, 30])),
                T=draw(st.sampled_from([1, 2, 3, 80])), i0=draw(st.integers(0, n - 1)), many=draw(st.booleans()), how=draw(st.sampled_from(["indices", "values", "both", "constant"])),
                absorbing=draw(st.booleans()))


@suite.sub(mc_case(), quick=300, thorough=3000)
def chains(c):
    n, N, T, i0 = c["n"], c["N"], c["T"], c["i0"]
    P = stochastic_matrix(c["seed"], n, sparse=c["sparse"])
    if c["absorbing"]:
        P[-1] = 0
        P[-1, -1] = 1.0
    x = rs(c["seed"]).randn(n, c["d"])
    start = rs(c["seed"]).randint(0, n, N) if c["many"] else i0
    mc = MarkovChain(P, x)
    np.random.seed(c["seed"] % 2**32)
    if c["how"] == "constant":
        v = mc.simulate(N, T, i0=start, stochastic=False)
        close(v, np.tile(x[np.broadcast_to(start, N)], (T, 1, 1)), 0, 0, "without shocks the chain stays where it is")
        return T > 1 and n > 1
    if c["how"] == "values":
        v = mc.simulate(N, T, i0=start)
        expect(v.shape == (T, N, c["d"]), f"values of shape {v.shape}")
        dd = np.abs(v[:, :, None, :] - x[None, None]).max(axis=-1)
        expect((dd.min(axis=2) == 0).all(), "simulated value which is not a node of the chain")
        idx = dd.argmin(axis=2)
    elif c["how"] == "indices":
        idx = simulate_markov_chain(x, P, N, T, i0=start)
    else:
        idx, v = simulate_markov_chain(x, P, N, T, i0=start, return_values=True)
        close(v, x[idx], 0, 0, "values of the visited states")
    idx = np.asarray(idx)
    expect(idx.shape == (T, N), f"indices of shape {idx.shape}")
    expect((idx >= 0).all() and (idx < n).all(), "index outside of the chain")
    close(idx[0], np.broadcast_to(start, N), 0, 0, "initial state")
    np.random.seed(c["seed"] % 2**32)
    if c["how"] == "indices":
        close(simulate_markov_chain(x, P, N, T, i0=start), idx, 0, 0, "replication with the same seed")
    for a in range(n):
        m = idx[:-1] == a
        cnt = int(m.sum())
        nxt = idx[1:][m]
        expect((P[a][nxt] > 0).all(), f"impossible transition from state {a}")
        if cnt >= 20:
            for b in range(n):
                fr = (nxt == b).mean()
                expect(abs(fr - P[a, b]) <= np.sqrt(np.log(2 / 1e-9) / (2 * cnt)), f"frequency of transition {a}->{b}: {fr:.3f} instead of {P[a,b]:.3f}")
    if N == 30 and T == 80 and n > 1:
        label("long")
        if not c["absorbing"] and not c["sparse"]:
            expect(any(not np.array_equal(idx[:, 0], idx[:, k]) for k in range(1, N)), "all replications are identical")
    label(c["how"])
    return T > 1 and n > 1


@st.composite
def ar_case(draw):
    kind = draw(st.sampled_from(["ar1", "var scalar", "var vector", "var matrix"]))
    d = 1 if kind == "ar1" else draw(st.integers(1, 3))
    return dict(kind=kind, d=d, seed=draw(seeds), mu=draw(vec(d, -3, 3)), rho=draw(fl(-0.95, 0.95)), scale=draw(st.sampled_from([1.0, 0.01])),
                N=draw(st.sampled_from([1, 2, 60])), T=draw(st.sampled_from([1, 2, 3, 60])), m0=draw(st.one_of(st.none(), vec(d, -3, 3))),
                imp=draw(vec(d, -2, 2)), nomean=draw(st.integers(0, 4)) == 0)


def make(c):
    d = c["d"]
    S = spd(c["seed"], d, c["scale"])
    mu = np.zeros(d) if c["nomean"] else np.array(c["mu"])
    kw = {} if c["nomean"] else dict(μ=mu[0] if c["kind"] == "ar1" else mu)
    r = rs(c["seed"])
    if c["kind"] == "ar1":
        return AR1(ρ=c["rho"], σ=S[0, 0], **kw), np.array([[c["rho"]]]), S, mu
    if c["kind"] == "var scalar":
        R, arg = c["rho"] * np.eye(d), c["rho"]
    elif c["kind"] == "var vector":
        v = r.uniform(-0.9, 0.9, d)
        R, arg = np.diag(v), v
    else:
        R = r.randn(d, d)
        R = 0.9 * R / max(1e-3, np.abs(np.linalg.eigvals(R)).max())
        arg = R
    return VAR1(ρ=arg, Σ=S, **kw), R, S, mu


@suite.sub(ar_case(), quick=300, thorough=3000)
def autoregressions(c):
    p, R, S, mu = make(c)
    d, N, T = c["d"], c["N"], c["T"]
    m0 = None if c["m0"] is None else np.array(c["m0"])
    start = mu if m0 is None else m0
    np.random.seed(c["seed"] % 2**32)
    sim = np.asarray(p.simulate(N, T, m0=m0))
    expect(sim.shape == (T, N, d), f"shape {sim.shape}")
    close(sim[0], np.tile(start, (N, 1)), 1e-12, 1e-12, "initial value")
    np.random.seed(c["seed"] % 2**32)
    close(np.asarray(p.simulate(N, T, m0=m0)), sim, 0, 0, "replication with the same seed")
    det = np.asarray(p.simulate(N, T, m0=m0, stochastic=False))
    ref = start.copy()
    for t in range(T):
        close(det[t] / (1 + np.abs(ref)), np.tile(ref, (N, 1)) / (1 + np.abs(ref)), 1e-9, 1e-9, f"path without shocks at date {t}")
        ref = mu + R @ (ref - mu)
    if T > 1:
        e = (sim[1:] - mu) - (sim[:-1] - mu) @ R.T
        e = e.reshape(-1, d)
        if len(e) > 1:
            expect(len(np.unique(np.round(e[:, 0], 13))) == len(e), "the same innovation is used twice")
        if len(e) > 1000:
            from scipy.special import ndtr

            r = rs(c["seed"])
            for k in range(d + 2):
                v = np.eye(d)[k] if k < d else r.randn(d)
                dkw(e @ v / np.sqrt(v @ S @ v), ndtr, "innovations")
            C = np.linalg.cholesky(S)
            z = e @ np.linalg.inv(C).T
            expect(np.abs(z.T @ z / len(z) - np.eye(d)).max() <= 8 * np.sqrt(2 / len(z)), "covariance of the innovations")
            zz = z.reshape(T - 1, N, d)
            expect(np.abs(np.mean(zz[1:] * zz[:-1])) <= 8 / np.sqrt(zz[1:].size), "innovations are correlated over time")
    label(c["kind"])
    return T > 1 and bool(np.abs(R).max() > 0)


@suite.sub(ar_case(), quick=200, thorough=2000)
def responses(c):
    p, R, S, mu = make(c)
    d, T = c["d"], c["T"] + 1
    imp = np.array(c["imp"])
    irf = p.response(T, imp)
    a = np.asarray(irf)
    expect(a.shape == (T + 1, d), f"response of shape {a.shape}")
    expect(tuple(irf.dims) == ("T", "V"), f"dimensions {irf.dims}")
    close(a[0], mu, 1e-12, 1e-12, "the response starts at the mean")
    ref = imp.copy()
    for t in range(1, T + 1):
        close(a[t] - mu, ref, 1e-8, 1e-9, f"response at date {t}")
        ref = R @ ref
    return bool(np.any(imp != 0))


LAWS = ["UNormal", "Normal", "Uniform", "LogNormal", "Bernouilli", "ConstantProcess", "FiniteDistribution", "EquiprobableDistribution", "Mixture", "ProductDistribution"]


def iid_law(kind, r, d=1, names=("a", "b", "c")):
    """a distribution, its mean, and whether it can be drawn"""
    import dolo.numeric.distribution as D
    from dolo.numeric.processes import ConstantProcess

    mu, sig, draws = r.uniform(-2, 2), r.uniform(0.1, 1), True
    if kind == "UNormal":
        p, mean = (D.UNormal(σ=sig), [0.0]) if r.rand() < 0.3 else (D.UNormal(σ=sig, μ=mu), [mu])
    elif kind == "Normal":
        M, S = r.uniform(-2, 2, d), spd(r.randint(1000), d)
        p, mean = (D.Normal(Σ=S), np.zeros(d)) if r.rand() < 0.3 else (D.Normal(Σ=S, Μ=M), M)
    elif kind == "Uniform":
        p, mean = D.Uniform(mu, mu + sig), [mu + sig / 2]
    elif kind == "LogNormal":
        p, mean, draws = D.LogNormal(σ=sig, μ=mu), [np.exp(mu + sig**2 / 2)], False
    elif kind == "Bernouilli":
        q = r.uniform(0.05, 0.95)
        p, mean = D.Bernouilli(π=q), [q]
    elif kind == "ConstantProcess":
        M = r.uniform(-2, 2, d)
        p, mean = ConstantProcess(μ=list(M)), M
    elif kind == "FiniteDistribution":
        n = r.randint(1, 5)
        x, w = r.randn(n, d), r.dirichlet(np.ones(n))
        p, mean = D.FiniteDistribution(x, w), w @ x
    elif kind == "EquiprobableDistribution":
        x = r.randn(r.randint(1, 5), d)
        p, mean = D.EquiprobableDistribution(x), x.mean(axis=0)
    elif kind == "Mixture":
        ks = [["UNormal", "Uniform", "ConstantProcess", "Bernouilli"][k] for k in r.randint(0, 4, 2)]
        (p0, m0, _), (p1, m1, _) = [iid_law(k, r, 1, ("a",)) for k in ks]
        q = r.uniform(0.1, 0.9)
        p, mean = D.Mixture(index=D.Bernouilli(π=q), distributions={"0": p0, "1": p1}), (1 - q) * np.array(m0) + q * np.array(m1)
    else:
        l = [iid_law(["UNormal", "Normal", "Uniform", "LogNormal"][k], r, 1 if k != 1 else 2) for k in r.randint(0, 4, 2)]
        for i, (q, _, _) in enumerate(l):
            q.names = tuple(f"x{i}{k}" for k in range(q.d))
        p, mean, draws = D.ProductDistribution([a[0] for a in l]), np.concatenate([a[1] for a in l]), all(a[2] for a in l)
    if kind != "ProductDistribution":
        p.names = tuple(names[: p.d])
    return p, np.array(mean, dtype=float), draws


@suite.sub(st.tuples(st.sampled_from(LAWS), st.integers(1, 3), seeds, st.integers(1, 8), vec(5, -2, 2)), quick=150)
def responses_iid(c):
    """i.i.d. processes: responses, deterministic and random paths"""
    kind, d, seed, T, imp = c
    p, mean, draws = iid_law(kind, rs(seed), d)
    d = len(mean)
    imp = np.array(imp[:d])
    a = p.response(T, imp)
    expect(tuple(a.dims) == ("T", "V") and list(a["V"].data) == list(p.names), f"dimensions {a.dims}")
    ref = np.tile(mean, (T + 1, 1))
    ref[1] += imp
    close(np.asarray(a), ref, 1e-7, 1e-7, "response to an i.i.d. shock: its mean, except at the date of the impulse")
    N = 1 + seed % 3
    det = np.asarray(p.simulate(N, T, stochastic=False))
    close(det, np.tile(mean, (T, N, 1)), 1e-7, 1e-7, "path without shocks")
    if draws:
        np.random.seed(seed % 2**32)
        sim = np.asarray(p.simulate(N, T))
        expect(sim.shape == (T, N, d), f"shape {sim.shape}")
        np.random.seed(seed % 2**32)
        # the same draws in any order
        x, y = np.sort(sim.reshape(-1, d), axis=0), np.sort(np.asarray(p.draw(N * T)).reshape(-1, d), axis=0)
        close(x, y, 0, 1e-12, "simulated paths are draws")
        if kind == "ConstantProcess":
            close(sim, det, 0, 0, "constant process")
    label(kind)
    return bool(np.any(imp != 0)) and bool(np.any(mean != 0))
