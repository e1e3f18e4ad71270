"""C19 perturbation"""
import importlib
import os
import warnings
import numpy as np
from pbt import *
from pbt.gen import *
from pbt.econ import economy, Economy

from dolo.algos.results import AlgoResult
from dolo.compiler.misc import CalibrationDict
from dolo.numeric.processes import VAR1

pert = importlib.import_module("dolo.algos.perturbation")
perturb = pert.perturb

suite = Suite(
    "C19",
    "Generated model files (1-3 states, 1-2 controls, 1-2 shocks; i.i.d. or autoregressive shocks, scalar or full autocorrelation matrices;"
    " backward or forward looking; with or without second-order terms and definitions) whose first-order rule and generalized roots are"
    " known in closed form, with any number of stable roots; example models at random calibrations, where the rule is judged by the"
    " linearised equations, differentiated independently. Non-trivial = the rule depends on states and (autoregressive) shocks, and"
    " future variables matter in the equations.",
)
ECO = dict(ns=3, nx=2, ne=2, procs=("iid", "var1", "varm"), quad=(0.0, 0.3), G=None, fwd=None, shock=0.1)


def run(model, **kw):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = perturb(model, verbose=False, **kw)
    return r, [str(u.message) for u in w if "olution" in str(u.message)]


@st.composite
def eco(draw, **kw):
    return dict(e=draw(economy(**{**ECO, **kw})), seed=draw(seeds), how=draw(st.sampled_from(["calibration", "calibration", "given", "no details"])))


def coefs(e, dr, what):
    n = len(e.E)
    m, s = e.mb, e.sb
    ones = np.eye(len(e.S))
    x0 = np.asarray(dr(m, s))
    close(x0, e.xb, 1e-9, 1e-8, f"{what}: rule at the steady state")
    Cs = np.array([np.asarray(dr(m, s + v)) - x0 for v in ones]).T
    Cm = np.array([np.asarray(dr(m + v, s)) - x0 for v in np.eye(n)]).T
    return Cs, Cm


@suite.sub(eco(), quick=75, shards=3)
def rule(c):
    """coefficients of the rule and flags in determinate models"""
    e = Economy(c["e"])
    stable, v = e.roots()
    if stable.max() > 0.98 or v.min() < 1.05:
        reject("roots")
    r = rs(c["seed"])
    calib, ss = None, None
    if c["how"] == "given":
        calib = [[n, v + (0.1 * r.randn() if n in e.S + e.X + e.P else 0)] for n, v in e.calib()]
    model = e.load(calib=calib)
    if c["how"] == "given":
        ss = CalibrationDict(model.symbols, dict(exogenous=e.mb, states=e.sb, controls=e.xb, parameters=e.p))
    kw = {} if ss is None else dict(steady_state=ss)
    if c["how"] == "no details":
        kw["details"] = False
    res, w = run(model, **kw)
    expect(not w, f"a determinate model gave a warning: {w}")
    if c["how"] == "no details":
        expect(not isinstance(res, AlgoResult), "the result must be the rule when details are not requested")
        dr = res
    else:
        dr = res.dr
        expect(res.stable is True and res.determined is True and res.unique is True, f"flags of a determinate model: {res}")
    Cs, Cm = coefs(e, dr, c["how"])
    close(Cs, e.K, 1e-6, 1e-6, "coefficients of states")
    if c["e"]["proc"] == "iid":
        close(Cm, 0 * Cm, 1e-9, 1e-12, "rules of models with i.i.d. shocks depend on states only")
    else:
        close(Cm, e.L, 1e-6, 1e-6, "coefficients of shocks")
    # evaluation on stacks
    m, s = e.mb + r.randn(4, len(e.E)), e.sb + r.randn(4, len(e.S))
    close(dr(m, s), e.xb + (s - e.sb) @ Cs.T + (m - e.mb) @ Cm.T, 1e-8, 1e-8, "rule at many points")
    label(c["e"]["proc"] + (" fwd" if e.fwd else ""))
    return bool(c["e"]["G"] and (c["e"]["proc"] == "iid" or np.abs(e.L).max() > 0.05) and np.abs(e.K).max() > 0.05)


@st.composite
def eco2(draw):
    e = draw(economy(ns=(2, 2), nx=2, ne=(2, 2), procs=("varm",), quad=(0.0, 0.3), G=True, fwd=True, shock=0.1))
    return dict(e=e, seed=draw(seeds), how="calibration")


@suite.sub(eco2(), quick=50, shards=2)
def crossed(c):
    """several shocks with crossed autocorrelations, in forward looking models"""
    return rule(c)


def linear(e, model):
    """coefficients of linearised equations by hand (shocks at their mean, without shocks as states)"""
    f, g = e.f, e.g
    m, s, x = e.mb, e.sb, e.xb
    h = 1e-4

    def d(fun, args, k):
        out = []
        for i in range(len(args[k])):
            a, b = [np.array(u, float) for u in args], [np.array(u, float) for u in args]
            a[k][i] += h
            b[k][i] -= h
            out.append((fun(*a) - fun(*b)) / (2 * h))
        return np.array(out).T

    fa, ga = (m, s, x, m, s, x), (m, s, x, m)
    return [d(f, fa, k) for k in range(6)], [d(g, ga, k) for k in range(4)]


@st.composite
def anyroots(draw):
    return dict(e=draw(economy(ns=3, nx=2, ne=2, procs=("iid", "var1"), G=True, fwd=None, rads=(0.3, 2.5), grad=(0.5, 6.0), shock=0.1)), seed=draw(seeds))


@suite.sub(anyroots(), quick=75, shards=3)
def roots(c):
    """flags, generalized eigenvalues and selected roots in any model"""
    e = Economy(c["e"])
    a, v = e.roots()
    proc = c["e"]["proc"]
    ex = np.abs(np.linalg.eigvals(e.R)) if proc == "var1" else np.zeros(0)
    n = len(a) + len(ex)
    allr = np.sort(np.concatenate([a, v, ex]))
    near = np.abs(np.diff(allr))
    if (np.abs(allr - 1) < 1e-3).any() or v.max() > 1e6 or allr.min() < 1e-3:
        reject("unit roots")
    if allr[n] - allr[n - 1] < 1e-3 * allr[n]:
        reject("roots cannot be separated")  # conjugate pairs: the selection is impossible
    stable, unique = allr[n - 1] < 1, allr[n] > 1
    model = e.load()
    try:
        res, w = run(model)
    except Exception as x:
        expect(not (stable and unique), f"a determinate model was refused: {x}")
        label("refused")
        return True
    expect(res.stable == stable, f"stable={res.stable}, roots {allr}, {n} states")
    expect(res.unique == unique, f"unique={res.unique}, roots {allr}, {n} states")
    expect(res.determined == True, f"determined={res.determined}, roots {allr}, {n} states")
    expect(bool(w) == (not (stable and unique)), f"warnings {w}, roots {allr}, {n} states")
    close(np.sort(1 / np.abs(np.asarray(res.generalized_eigenvalues))), allr, 1e-4, 1e-6, "generalized eigenvalues are the inverses of the roots")
    Cs, Cm = coefs(e, res.dr, "any model")
    F, G = linear(e, model)
    T = G[1] + G[2] @ Cs
    scale = 1 + np.abs(Cs).max() * (1 + np.abs(T).max())
    close((F[1] + F[2] @ Cs + F[4] @ T + F[5] @ Cs @ T) / scale, 0 * Cs, 0, 1e-5, "linearised equations, effect of states")
    got = np.sort(np.concatenate([np.abs(np.linalg.eigvals(T)), ex]))
    close(got, allr[:n], 1e-3, 1e-4, "roots of the states under the rule are the smallest ones")
    if proc != "iid":
        TM = G[0] + G[2] @ Cm + G[3] @ e.R
        sc = scale + np.abs(Cm).max()
        close((F[0] + F[2] @ Cm + F[3] @ e.R + F[4] @ TM + F[5] @ (Cs @ TM + Cm @ e.R)) / sc, 0 * Cm, 0, 1e-5, "linearised equations, effect of shocks")
    label(f"stable={stable} unique={unique}")
    return not (stable and unique) or e.fwd


EXAMPLES = {
    "rbc": dict(beta=(0.95, 0.995), delta=(0.02, 0.1), alpha=(0.25, 0.4), sigma=(1.2, 5), eta=(0.8, 3), rho=(0.1, 0.95)),
    "rbc_iid": dict(beta=(0.95, 0.995), delta=(0.02, 0.1), alpha=(0.25, 0.4), sigma=(1.2, 5), eta=(0.8, 3), rho=(0.1, 0.95)),
}
CACHE = {}


def example(name):
    from dolo import yaml_import

    if name not in CACHE:
        CACHE[name] = yaml_import(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "examples", "models", name + ".yaml"), check=False)
    return CACHE[name]


@st.composite
def ex(draw):
    n = draw(st.sampled_from(sorted(EXAMPLES)))
    return dict(model=n, par={k: draw(fl(lo, hi, 4)) for k, (lo, hi) in EXAMPLES[n].items()})


@suite.sub(ex(), quick=40)
def examples(c):
    """example models at random calibrations"""
    model = example(c["model"])
    known = set(sum(model.symbols.values(), []))
    model.set_calibration(**{k: v for k, v in c["par"].items() if k in known})
    r = importlib.import_module("dolo.algos.steady_state").residuals(model)
    if max(np.abs(np.asarray(r[k])).max() for k in r) > 1e-8:
        raise HarnessError("the calibration is no steady state")
    res, w = run(model)
    expect(res.stable and res.unique and res.determined and not w, f"flags {res}, {w}")
    dr = res.dr
    cal = model.calibration
    m, s, x, p = [np.array(cal[k], float) for k in ("exogenous", "states", "controls", "parameters")]
    f, g = model.functions["arbitrage"], model.functions["transition"]
    close(dr(m, s), x, 1e-10, 1e-10, "rule at the steady state")
    Cs = np.array([dr(m, s + v) - x for v in np.eye(len(s))]).T
    Cm = np.array([dr(m + v, s) - x for v in np.eye(len(m))]).T
    var = isinstance(model.exogenous, VAR1)
    R = np.asarray(model.exogenous.ρ) if var else np.zeros((len(m), len(m)))

    def along(dm, ds, t):
        # equations along a path of the linear rule
        mm, ss = m + t * dm, s + t * ds
        xx = x + t * (Cs @ ds + Cm @ dm)
        M = m + t * R @ dm
        S = g(mm, ss, xx, M, p)
        X = x + Cs @ (S - s) + Cm @ (M - m)
        return f(mm, ss, xx, M, S, X, p), S

    h = 1e-4
    for d in np.eye(len(s)):
        v = (along(0 * m, d, h)[0] - along(0 * m, d, -h)[0]) / (2 * h)
        close(v, 0 * v, 0, 1e-4, "first order effect of states on equations under the rule")
    if var:
        for d in np.eye(len(m)):
            v = (along(d, 0 * s, h)[0] - along(d, 0 * s, -h)[0]) / (2 * h)
            close(v, 0 * v, 0, 1e-4, "first order effect of shocks on equations under the rule")
    T = np.array([(along(0 * m, d, h)[1] - along(0 * m, d, -h)[1]) / (2 * h) for d in np.eye(len(s))]).T
    expect(np.abs(np.linalg.eigvals(T)).max() < 1, "the rule must keep states stable")
    label(c["model"])
    return True


@st.composite
def other(draw):
    return dict(e=draw(economy(ns=2, nx=2, ne=1, procs=("mc", "iid"), G=True)), order=draw(st.integers(1, 3)))


@suite.sub(other(), quick=25)
def refused(c):
    """models and orders which are not supported"""
    e = Economy(c["e"])
    model = e.load()
    mc = c["e"]["proc"] == "mc"
    if not mc and c["order"] == 1:
        reject("supported")
    try:
        run(model, order=c["order"])
    except Exception:
        return True
    raise Violation("a perturbation was returned for a Markov chain" if mc else f"order {c['order']} was accepted")
