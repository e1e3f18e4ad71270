"""C27 simulations along a rule"""
import importlib
import warnings
import numpy as np
from pbt import *
from pbt.gen import *
from pbt.econ import economy, Economy
from pbt import models

from dolo.algos.results import AlgoResult
from dolo.numeric.decision_rule import DecisionRule, CustomDR

sims = importlib.import_module("dolo.algos.simulations")
perturb = importlib.import_module("dolo.algos.perturbation").perturb

suite = Suite(
    "C27",
    "Generated economies (i.i.d. shocks, chains, autoregressive processes; with or without definitions and second-order terms), rules"
    " (interpolated, of formulas, linear approximations, wrapped in results), horizons, replications, initial states and shocks, given or drawn"
    " exogenous paths and seeds. Each date of each path is recomputed with the expression trees and the known coefficients of the rule."
    " Non-trivial = states, controls and shocks vary along the path.",
)


def quiet(fun, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fun(*a, **k)


def make_rule(c, e, model):
    """-> rule, exact controls at (i, m, s)"""
    kind, proc = c["rule"], c["e"]["proc"]
    grid, dp = model.discretize()
    s = grid["endo"].nodes
    if kind == "interp" or proc == "mc":
        dr = DecisionRule(dp.grid, grid["endo"], dprocess=dp, interp_method=c["method"])
        dr.set_values(np.array([e.rule(e.mb if proc == "iid" else dp.node(i), s) for i in range(dp.n_nodes)]))
        if proc == "mc":
            return dr, dp, lambda m, s: e.rule(m, s)
        if proc == "iid":
            return dr, dp, lambda m, s: e.rule(e.mb, s)
        # the discretized process is a chain
        return dr, dp, lambda m, s: e.rule(m, s)
    if kind == "cartesian" and proc == "var1" and len(e.E) == 1:
        gdp = model.exogenous.discretize(to="gdp", N=4)
        dr = DecisionRule(gdp.grid, grid["endo"], dprocess=gdp, interp_method=c["method"])
        dr.set_values(np.array([e.rule(gdp.node(i), s) for i in range(gdp.n_nodes)]))
        return dr, gdp, lambda m, s: e.rule(m, s)
    if kind == "perturbation" and not e.c["quad"] and not (e.scalar and proc == "var1"):
        d = quiet(perturb, model, verbose=False, details=False)
        if proc == "iid":
            return d, None, lambda m, s: e.rule(e.mb, s)
        return d, None, lambda m, s: e.rule(m, s)
    # formulas are not dated
    text = {n: models.show(_undate(e.phi(0, j)), "untimed") for j, n in enumerate(e.X)}
    return CustomDR(text, model), None, lambda m, s: e.rule(m, s)


def _undate(t):
    return t


@st.composite
def case(draw, **kw):
    kw = dict(dict(procs=("iid", "var1", "mc"), shock=0.1, G=False, quad=(0.0, 0.02), scalar=True, imean=True), **kw)
    return dict(
        e=draw(economy(**kw)), seed=draw(seeds), rule=draw(st.sampled_from(["interp", "cartesian", "perturbation", "formulas"])), method=draw(st.sampled_from(["cubic", "linear"])),
        N=draw(st.integers(1, 5)), T=draw(st.integers(1, 25)), drive=draw(st.sampled_from(["none", "none", "given", "given"])), s0=draw(st.sampled_from(["calibration", "given"])),
        m0=draw(st.sampled_from(["none", "given"])), stochastic=draw(st.sampled_from([True, True, False])), wrap=draw(st.booleans()), which=draw(st.sampled_from(["default", "model", "rule", "other"])),
        rs=draw(st.integers(0, 1000)),
    )


def check_columns(e, sim, T, N, discrete, msg):
    expect(tuple(sim.dims) == ("T", "N", "V") and sim.shape[:2] == (T, N), f"{msg}: dimensions {sim.dims} {sim.shape}")
    names = [str(v) for v in sim.coords["V"].data]
    want = (["_i_m"] if discrete else []) + e.E + e.S + e.X + (e.Y if e.defs else [])
    expect(names == want, f"{msg}: columns {names}, expected {want}")
    expect(list(sim.coords["T"].data) == list(range(T)), msg + ": dates")
    get = lambda l: np.stack([sim.sel(V=n).data for n in l], axis=-1)
    return get(e.E), get(e.S), get(e.X), (get(e.Y) if e.defs else None), (sim.sel(V="_i_m").data if discrete else None)


def judge(c, e, m, s, x, y, rule, s0, msg):
    close(s[0], np.tile(s0, (s.shape[1], 1)), 0, 1e-12, msg + ": initial states")
    close(x, rule(m, s), 1e-6, 1e-7, msg + ": controls follow the rule")
    if len(s) > 1:
        close(s[1:], e.g(m[:-1], s[:-1], x[:-1], m[1:]), 1e-9, 1e-9, msg + ": states follow the transitions")
    if e.defs:
        close(y, e.y(m, s, x), 1e-9, 1e-9, msg + ": definitions")


@suite.sub(case(), quick=60, shards=4)
def paths(c):
    e = Economy(c["e"])
    model = e.load(calib=e.calib())
    r = rs(c["seed"])
    proc = c["e"]["proc"]
    dr, dp, rule = make_rule(c, e, model)
    T, N = c["T"], c["N"]
    kw = dict(T=T, N=N, seed=c["rs"])
    s0 = e.sb
    if c["s0"] == "given":
        s0 = e.sb + 0.3 * r.uniform(-1, 1, len(e.S))
        kw["s0"] = s0.copy()
    arg = dr
    if c["wrap"]:
        arg = AlgoResult()
        arg.dr = dr
    exo = type(dr.exo_grid).__name__ if hasattr(dr, "exo_grid") else ""
    chain = exo == "UnstructuredGrid"
    custom = isinstance(dr, CustomDR)
    given, along = None, dp
    R_ = e.R
    if c["drive"] == "given":
        if chain:
            ind = r.randint(0, dp.n_nodes, size=(T, N))
            kw["driving_process"] = ind
            given = dp.nodes[ind]
        else:
            given = e.mb + 0.2 * r.uniform(-1, 1, (T, N, len(e.E)))
            kw["driving_process"] = given.copy()
    elif c["which"] == "model" and not chain and proc != "mc":
        kw["process"] = model.exogenous
    elif c["which"] == "rule" and chain:
        kw["process"] = dp
    elif c["which"] == "other" and chain:
        # another chain, with other transitions and other values in each regime
        from dolo.numeric.processes import MarkovChain

        nn = dp.n_nodes
        P = r.rand(nn, nn) * (r.rand(nn, nn) < 0.6) + 0.1 * np.eye(nn)[r.permutation(nn)]
        other = MarkovChain(P / P.sum(axis=1, keepdims=True), dp.nodes + 0.1 * r.randn(*dp.nodes.shape))
        kw["process"] = along = other
    elif c["which"] == "other":
        # a continuous process which is not the one of the model
        from dolo.numeric.processes import VAR1

        R2 = np.diag(r.uniform(-0.5, 0.5, len(e.E)))
        R_, proc = R2, "var1"
        kw["process"] = VAR1(ρ=R2, Σ=0.01 * np.eye(len(e.E)), μ=e.mb)
    if given is None and not c["stochastic"]:
        kw["stochastic"] = False
    i0, m0 = 0, e.mb
    if given is None and c["m0"] == "given":
        if chain:
            i0 = int(r.randint(dp.n_nodes))
            kw["i0"] = i0
        elif proc == "var1":
            m0 = e.mb + 0.3 * r.uniform(-1, 1, len(e.E))
            kw["m0"] = m0.copy()
    np.random.seed(r.randint(10**6))
    sim = quiet(sims.simulate, model, arg, **kw)
    discrete = chain
    m, s, x, y, im = check_columns(e, sim, T, N, discrete, c["drive"])
    expect(np.isfinite(s).all() or c["e"]["quad"], "finite")
    if not np.isfinite(s).all() or np.abs(s).max() > 1e3:
        reject("explosive")
    if chain and along is not dp:
        # the rule depends on the regime
        by = lambda m, s: rule(dp.nodes[im.astype(int)], s)
    else:
        by = rule
    judge(c, e, m, s, x, y, by, s0, c["rule"])
    if given is not None:
        close(m, given, 0, 1e-12, "the exogenous path is the given one")
        if chain:
            close(im, kw["driving_process"], 0, 0, "the path of regimes is the given one")
    else:
        again = quiet(sims.simulate, model, arg, **kw)
        close(again.data, sim.data, 0, 0, "same seed, same path")
        if chain:
            close(m, along.nodes[im.astype(int)], 0, 1e-12, "values of the shocks in each regime")
            close(im[0], np.full(N, i0), 0, 0, "initial regime")
            P = along.transitions
            for t in range(T - 1 if kw.get("stochastic", True) else 0):
                expect((P[im[t].astype(int), im[t + 1].astype(int)] > 0).all(), "impossible transition")
        elif proc == "var1":
            close(m[0], np.tile(m0, (N, 1)), 0, 1e-12, "initial shocks")
        if kw.get("stochastic") is False:
            if chain:
                close(im, np.full((T, N), i0), 0, 0, "regimes of deterministic simulations")
            else:
                if proc == "iid":
                    close(m[0], np.tile(e.mb, (N, 1)), 0, 1e-9, "deterministic simulations keep the mean of the shocks")
                for t in range(T - 1):
                    close(m[t + 1], e.mb + (m[t] - e.mb) @ R_.T, 0, 1e-9, "deterministic simulations follow the conditional mean")
        elif T > 2 and (proc != "mc" or T > 12) and not chain:
            other = quiet(sims.simulate, model, arg, **{**kw, "seed": c["rs"] + 1})
            expect(np.abs(other.data - sim.data).max() > 1e-9, "another seed gives another path")
            if N > 1:
                expect(np.abs(m[:, 0] - m[:, 1]).max() > 1e-9, "replications differ")
    label(f"{proc} {c['rule'] if not chain else 'interp'} {c['drive']}")
    return T > 1 and bool(np.ptp(s[:, 0, 0]) > 1e-9)


@suite.sub(case(ns=(2, 3), nx=3, ne=(2, 3), scalar=False), quick=20, shards=2)
def larger_paths(c):
    """more variables"""
    return paths(c)


@st.composite
def law_case(draw):
    return dict(e=draw(economy(procs=("iid", "var1", "mc"), shock=0.1, G=False, scalar=True)), seed=draw(seeds), N=draw(st.integers(500, 1500)), T=draw(st.integers(3, 6)), rs=draw(st.integers(0, 10000)))


@suite.sub(law_case(), quick=26, shards=2)
def law(c):
    """the exogenous path of simulations follows the law of the process"""
    e = Economy(c["e"])
    model = e.load()
    proc = c["e"]["proc"]
    dr, dp, rule = make_rule(dict(rule="interp" if proc == "mc" else "formulas", method="linear", e=c["e"]), e, model)
    N, T = c["N"], c["T"]
    sim = quiet(sims.simulate, model, dr, N=N, T=T, seed=c["rs"])
    m, s, x, y, im = check_columns(e, sim, T, N, proc == "mc", "law")
    judge(c, e, m, s, x, y, rule, e.sb, "law")
    if proc == "mc":
        n = np.zeros_like(e.P_)
        np.add.at(n, (im[:-1].astype(int).ravel(), im[1:].astype(int).ravel()), 1)
        tot = n.sum(axis=1, keepdims=True)
        d = np.abs(n - tot * e.P_) / np.sqrt(tot * e.P_ * (1 - e.P_) + 1)
        expect(d.max() < 6, f"frequencies of transitions, {d.max()} standard errors away")
    else:
        u = (m[1:] - e.mb - (m[:-1] - e.mb) @ e.R.T).reshape(-1, len(e.E))
        k = len(u)
        sd = np.sqrt(np.diag(e.Sigma))
        d = np.abs(u.mean(axis=0)) / (sd / np.sqrt(k))
        expect(d.max() < 6, f"mean of innovations, {d.max()} standard errors away")
        V = u.T @ u / k
        d = np.abs(V - e.Sigma) / (np.outer(sd, sd) * np.sqrt(2 / k))
        expect(d.max() < 6.5, f"covariance of innovations, {d.max()} standard errors away")
        a = u.reshape(T - 1, N, -1)
        d = np.abs((a[1:] * a[:-1]).mean(axis=(0, 1))) / (sd**2 / np.sqrt(N * (T - 2)))
        expect(d.max() < 6, f"innovations are independent over time, {d.max()} standard errors away")
    return True


@st.composite
def irf_case(draw):
    return dict(e=draw(economy(procs=("iid", "var1"), shock=0.1, G=False, quad=(0.0, 0.02), scalar=True, imean=True)), seed=draw(seeds), T=draw(st.integers(2, 40)), size=draw(st.sampled_from([None, 0.1, -0.3])), rule=draw(st.sampled_from(["cartesian", "perturbation", "formulas"])), method=draw(st.sampled_from(["cubic", "linear"])), wrap=draw(st.booleans()))


@suite.sub(irf_case(), quick=36, shards=2)
def responses(c):
    """impulse responses"""
    e = Economy(c["e"])
    model = e.load()
    dr, dp, rule = make_rule(c, e, model)
    if type(getattr(dr, "exo_grid", None)).__name__ == "UnstructuredGrid":
        reject("chain")
    k = c["seed"] % len(e.E)
    kw = dict(T=c["T"])
    if c["size"] is not None:
        kw["impulse"] = c["size"]
    arg = dr
    if c["wrap"]:
        arg = AlgoResult()
        arg.dr = dr
    irf = quiet(sims.response, model, arg, e.E[k], **kw)
    expect(irf.dims == ("T", "V"), f"dimensions {irf.dims}")
    sim = irf.expand_dims("N", axis=1)
    m, s, x, y, _ = check_columns(e, sim, c["T"], 1, False, "response")
    judge(c, e, m, s, x, y, rule, e.sb, "response")
    imp = np.zeros(len(e.E))
    imp[k] = c["size"] if c["size"] is not None else np.sqrt(e.Sigma[k, k])
    want = np.zeros((c["T"], len(e.E)))
    for t in range(1, c["T"]):
        want[t] = imp if t == 1 else e.R @ want[t - 1]
    close(m[:, 0], e.mb + want, 1e-9, 1e-12, "path of the shocks")
    label(c["e"]["proc"])
    return c["T"] > 2
