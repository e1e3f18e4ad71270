"""C37 rules found by one part of the library used by the others"""
import importlib
import warnings
import numpy as np
from pbt import *
from pbt.gen import *
from pbt.econ import economy, Economy
from checks import C25
from checks.C23 import values
from checks.C27 import quiet

import matplotlib

matplotlib.use("Agg")
from matplotlib import pyplot as plt
from dolo.algos.results import AlgoResult
from dolo.numeric.decision_rule import DecisionRule

mod = lambda n: importlib.import_module("dolo." + n)
ti, iti = mod("algos.time_iteration").time_iteration, mod("algos.improved_time_iteration").improved_time_iteration
vi, egm = mod("algos.value_iteration"), mod("algos.egm").egm
perturb = mod("algos.perturbation").perturb
sims = mod("algos.simulations")
ergodic = mod("algos.ergodic").ergodic_distribution

suite = Suite(
    "C37",
    "Generated economies (i.i.d. shocks, chains, autoregressive processes discretized as chains or over growing sets of nodes) and generated"
    " consumption-savings problems, the algorithm which finds the rule and its options, and the tools the rule is given to, bare and inside"
    " the result of the algorithm. The reference is a rule built by hand over the same grids with the same values (or, for linear rules, the"
    " linear function with the same coefficients). Non-trivial = the controls vary with the states.",
)

ALL = ["simulate", "simulate_at", "tabulate", "tabulate_at", "tabulate_2d", "response", "plot", "ergodic", "evaluate", "ti", "iti"]


@st.composite
def case(draw):
    algo = draw(st.sampled_from(["ti", "iti", "gdp", "vi", "vi", "perturb"]))
    kw = dict(shock=0.1, G=False, quad=(0.0, 0.02), val=("linear", "linear2"), scalar=algo != "perturb")
    if algo == "vi":
        kw.update(val=("target", "lq"), bounds=("loose",), procs=("iid", "var1", "mc"), quad=0.0)
    elif algo == "gdp":
        kw.update(procs=("var1",), ne=(1, 1), bounds=("none", "loose"))
    elif algo == "perturb":
        kw.update(procs=("iid", "var1"), quad=0.0)
    else:
        kw.update(procs=("iid", "var1", "mc"), bounds=("none", "loose"))
    return dict(
        e=draw(economy(**kw)), algo=algo, seed=draw(seeds), n=draw(st.integers(3, 6)), details=draw(st.booleans()), method=draw(st.sampled_from(["cubic", "linear"])), maxit=draw(st.sampled_from([1, 3, 100])),
        tools=draw(st.lists(st.sampled_from(ALL), min_size=3, max_size=4, unique=True)), wrap=draw(st.booleans()),
    )


class Linear:
    """the linear function with given coefficients"""

    def __init__(self, e, d, iid):
        self.e, self.d, self.iid = e, d, iid

    def __call__(self, m, s):
        s = np.atleast_2d(s)
        m = np.broadcast_to(np.atleast_2d(m), (len(s), len(self.e.E)))
        x = self.e.xb + (s - self.e.sb) @ self.d.C_s.T
        return x if self.iid else x + (m - self.e.mb) @ self.d.C_m.T


def bare(res):
    return res.dr if isinstance(res, AlgoResult) else res


def tool(name, model, e, dr, dp, r, hand=False):
    """what comes out of a tool, as arrays"""
    exo = type(getattr(dr if hand else bare(dr), "exo_grid", None)).__name__
    chain = exo == "UnstructuredGrid"
    S, E = model.symbols["states"], model.symbols["exogenous"]
    mid, half = (model.domain.min + model.domain.max) / 2, (model.domain.max - model.domain.min) / 2
    u = r.uniform(-0.5, 0.5, len(S))
    s0 = mid + half * u
    seed, k, i = int(r.randint(1000)), int(r.randint(len(S))), int(r.randint(max(dp.n_nodes, 1)))
    if name == "simulate":
        return [quiet(sims.simulate, model, dr, N=2, T=6, seed=seed).data]
    if name == "simulate_at":
        kw = dict(i0=i) if chain else {}
        return [quiet(sims.simulate, model, dr, N=2, T=6, seed=seed, s0=s0, **kw).data]
    if name == "tabulate":
        return [quiet(sims.tabulate, model, dr, S[k]).values]
    if name == "tabulate_at":
        kw = dict(i0=i) if chain else dict(m0=model.calibration["exogenous"])
        return [quiet(sims.tabulate, model, dr, S[k], bounds=[mid[k] - 0.3 * half[k], mid[k] + half[k]], n_steps=7, s0=s0, **kw).values]
    if name == "tabulate_2d":
        return [quiet(sims.tabulate_2d, model, dr, n=[3, 4], i0=i if chain else 0).data]
    if name == "response":
        return [quiet(sims.response, model, dr, E[int(r.randint(len(E)))], T=8).data]
    if name == "plot":
        plt.close("all")
        try:
            x = model.symbols["controls"]
            quiet(sims.plot_decision_rule, model, dr, S[k], plot_controls=list(x))
            return [np.array(l.get_xydata()) for l in plt.gca().lines]
        finally:
            plt.close("all")
    if name == "ergodic":
        P, mu = ergodic(model, bare(dr))
        return [np.asarray(P), mu.data]
    s = model.endo_grid.nodes
    if name == "evaluate":
        return [values(quiet(vi.evaluate_policy, model, dr, verbose=False, maxit=20), dp, s)]
    if name == "ti":
        return [values(quiet(ti, model, dr0=dr, dprocess=dp, maxit=2, verbose=False).dr, dp, s)]
    if name == "iti":
        return [values(quiet(iti, model, dr0=dr, dprocess=dp, maxit=2, verbose=False).dr, dp, s)]
    raise HarnessError(name)


def usable(name, algo, dr, ns, chainproc):
    exo = type(getattr(dr, "exo_grid", None)).__name__
    if name == "tabulate_2d":
        return ns == 2 and isinstance(dr, DecisionRule) and exo != "UniformCartesianGrid"
    if name == "response":
        # responses follow continuous processes
        return exo != "UnstructuredGrid" and not chainproc
    if name in ("ergodic", "evaluate"):
        return isinstance(dr, DecisionRule) and exo in ("UnstructuredGrid", "EmptyGrid")
    return True


def compare(c, model, e, res, hand, dp, names, algo, ns, chainproc):
    n = 0
    for t in names:
        if not usable(t, algo, bare(res), ns, chainproc):
            continue
        n += 1
        label(f"{algo} {t}")
        dr = res if c["wrap"] else bare(res)
        got = tool(t, model, e, dr, dp, rs(c["seed"]))
        ref = tool(t, model, e, hand, dp, rs(c["seed"]), hand=True)
        expect(len(got) == len(ref), f"{t} of a rule found by {algo}")
        for a, b in zip(got, ref):
            if not np.isfinite(b).all() or np.abs(b).max() > 1e4:
                reject("explosive")
            close(a, b, 1e-6, 1e-7, f"{t} with a rule found by {algo}")
    return n


@suite.sub(case(), quick=72, shards=8)
def economies(c):
    e = Economy(c["e"])
    model = e.load(calib=e.calib(), orders=[c["n"]] * len(e.S))
    algo, proc = c["algo"], c["e"]["proc"]
    _, dp = model.discretize()
    kw = dict(verbose=False, details=c["details"])
    if algo == "gdp":
        dp = model.exogenous.discretize(to="gdp", N=c["n"])
    if algo in ("ti", "gdp"):
        res = quiet(ti, model, maxit=c["maxit"], interp_method=c["method"], dprocess=dp, **kw)
    elif algo == "iti":
        res = quiet(iti, model, maxit=c["maxit"], interp_method=c["method"], **kw)
    elif algo == "vi":
        res = quiet(vi.value_iteration, model, maxit=3, **kw)
        if not c["details"]:
            res = res[0]
    else:
        res = quiet(perturb, model, **kw)
    dr = bare(res)
    s = model.endo_grid.nodes
    if algo == "perturb":
        from dolo.numeric.decision_rule import CustomDR
        from pbt import models
        from pbt.econ import num, add, scale, dev

        L = Linear(e, dr, proc == "iid")
        r = rs(c["seed"])
        m, q = e.mb + 0.3 * r.randn(5, len(e.E)), e.sb + 0.3 * r.randn(5, len(e.S))
        close(dr.eval_ms(m, q), L(m, q), 1e-12, 1e-12, "linear rule")
        Cm = np.zeros((len(e.X), len(e.E))) if proc == "iid" else dr.C_m
        text = {}
        for j, x in enumerate(e.X):
            # (written with all their digits)
            t = [f"{float(e.xb[j])!r}"] + [f"({float(dr.C_s[j, k])!r})*({n}-({float(e.sb[k])!r}))" for k, n in enumerate(e.S)] + [f"({float(Cm[j, k])!r})*({n}-({float(e.mb[k])!r}))" for k, n in enumerate(e.E)]
            text[x] = " + ".join(t)
        hand = CustomDR(text, model)
    else:
        v = values(dr, dp, s)
        if not np.isfinite(v).all() or np.abs(v).max() > 1e3:
            reject("explosive")
        hand = DecisionRule(dp.grid, model.endo_grid, dprocess=dp, interp_method=dr.interp_method)
        hand.set_values(v)
    n = compare(c, model, e, res, hand, dp, c["tools"], algo, len(e.S), proc == "mc")
    if n == 0:
        return False
    return algo == "perturb" or bool(np.ptp(v, axis=1).max() > 1e-3)


@st.composite
def savings_case(draw):
    c = draw(C25.case())
    return dict(
        c, kind=draw(st.sampled_from(["iid", "mc", "var1"])), n=12, na=30, amax=6.0, beta=min(c["beta"], 0.92), gam=min(c["gam"], 3.0), r=1.0, amin=0.0, tau=0.0, kap=0.0, q=0.0, cbar=0.9,
        algo=draw(st.sampled_from(["egm", "egm", "ti"])), maxit=draw(st.sampled_from([3, 40])), wrap=draw(st.booleans()), details=draw(st.booleans()),
        tools=draw(st.lists(st.sampled_from(["simulate", "simulate_at", "tabulate", "tabulate_at", "response", "plot", "ergodic", "ti", "egm"]), min_size=3, max_size=4, unique=True)),
    )


@suite.sub(savings_case(), quick=24, shards=4)
def savings(c):
    """rules of consumption-savings problems"""
    model = C25.model_of(c["kind"], c["n"])
    model.set_calibration(**{k: c[k] for k in ("beta", "gam", "r", "cbar", "amin", "tau", "kap", "q")})
    grid, dp = model.discretize()
    a = np.linspace(0, c["amax"], c["na"])
    s = grid["endo"].nodes
    if c["algo"] == "egm":
        res = quiet(egm, model, a_grid=a, maxit=c["maxit"], details=c["details"])
    else:
        d0 = lambda m, s: 0.3 * s + 0.3
        res = quiet(ti, model, dr0=d0, maxit=c["maxit"], verbose=False, details=c["details"])
    dr = bare(res)
    v = values(dr, dp, s)
    if not np.isfinite(v).all():
        reject("explosive")
    hand = DecisionRule(dp.grid, grid["endo"], dprocess=dp, interp_method=dr.interp_method)
    hand.set_values(v)
    names = [t for t in c["tools"] if t != "egm"]
    n = compare(c, model, None, res, hand, dp, names, c["algo"], 1, c["kind"] == "mc")
    if "egm" in c["tools"]:
        n += 1
        label(c["algo"] + " egm")
        go = lambda d: values(quiet(egm, model, a_grid=a, maxit=2, dr0=d).dr, dp, s)
        close(go(res if c["wrap"] else dr), go(hand), 1e-6, 1e-7, "a rule as initial guess of the endogenous grid method")
    return n > 0 and bool(np.ptp(v) > 1e-3)
