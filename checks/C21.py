"""C21 residuals and steady states"""
import numpy as np
from pbt import *
from pbt.gen import *
from pbt import models as md
from pbt.econ import economy, Economy
from dolo import yaml_import
from dolo.algos.steady_state import find_steady_state, residuals
import os

suite = Suite(
    "C21",
    "Generated models (expression grammar) and generated economies with known steady states, linear or quadratic, at"
    " calibrations off the steady state, with given values of the shocks; example models with perturbed parameters; systems"
    " without steady state. Residuals are compared with the evaluation of the expression trees, steady states with the"
    " residuals of the trees and with the known solution. Non-trivial = residuals are not all zero / the steady state differs"
    " from the calibration.",
)

REPO = os.environ.get("VERIF_REPO", "/repo")


@st.composite
def generic(draw):
    return dict(spec=draw(md.model_spec(depth=2, maxn=2, ndefs=2)), seed=draw(seeds))


def at(spec, vals):
    env = {}
    for g, ns in spec["sym"].items():
        for n in ns:
            env[n] = vals[n]
            for t in (-1, 0, 1):
                env[(n, t)] = np.float64(vals[n])
    return env


def same(a, b, msg, tol=1e-8):
    sc = 1 + np.abs(b)
    close(np.asarray(a) / sc, b / sc, tol, tol, msg)


@suite.sub(generic(), quick=40, thorough=600, shards=3)
def generic_residuals(c):
    spec = c["spec"]
    r = rs(c["seed"])
    names = sum(spec["sym"].values(), [])
    cal = {n: round(float(r.uniform(0.5, 2)), 4) for n in names}
    m = md.load(md.render(spec, form="list", calib=[[n, cal[n]] for n in names]))

    def check(res, vals, msg):
        env = at(spec, vals)
        s = np.array([vals[n] for n in spec["sym"]["states"]])
        with np.errstate(all="ignore"):
            fa, ft = md.block_value(spec, "arbitrage", env), md.block_value(spec, "transition", env) - s
        if not (np.isfinite(fa).all() and np.isfinite(ft).all()):
            reject()
        same(res["arbitrage"], fa, msg + ": arbitrage")
        same(res["transition"], ft, msg + ": transition")
        return (np.abs(fa) > 1e-6).any()

    nt = check(m.residuals(), cal, "at the calibration")
    check(residuals(m), cal, "at the calibration")
    other = {n: float(r.uniform(0.5, 2)) for n in names}
    d = {g: np.array([other[n] for n in ns]) for g, ns in spec["sym"].items()}
    check(m.residuals(d), other, "at given values")
    check(residuals(m, d), other, "at given values")
    check(m.residuals(), cal, "at the calibration, again")
    return bool(nt)


@st.composite
def eco(draw, **kw):
    return dict(e=draw(economy(**kw, procs=("iid", "var1", "mc"), quad=(0.0, 0.0, 0.05), G=None, scalar=not kw)), seed=draw(seeds), off=draw(fl(0, 0.3, 2)), m=draw(st.sampled_from(["none", "array"])))


@suite.sub(eco(), quick=60, thorough=800, shards=4)
def economies(c):
    E = Economy(c["e"])
    r = rs(c["seed"])
    cal = [[n, round(v + c["off"] * float(r.randn()), 5) if n in E.S + E.X else v] for n, v in E.calib()]
    m = E.load(calib=cal)
    before = {g: np.array(m.calibration[g]) for g in ("states", "controls", "exogenous", "parameters")}
    mm = E.mb + (0 if c["m"] == "none" else 0.1 * r.randn(len(E.E)))
    try:
        ss = find_steady_state(m) if c["m"] == "none" else find_steady_state(m, m=mm)
    except Exception as ex:
        if "teady" in str(ex) and c["e"]["quad"]:
            label("none found")
            return False
        raise
    s, x = np.array(ss["states"]), np.array(ss["controls"])
    close(np.array(ss["exogenous"]), mm, 0, 1e-15, "fixed shocks")
    close(E.g(mm, s, x, mm), s, 0, 1e-6, "transition at the steady state")
    close(E.f(mm, s, x, mm, s, x), 0 * x, 0, 1e-6, "arbitrage at the steady state")
    for n, v in zip(E.S + E.X, np.concatenate([s, x])):
        close(ss[n], v, 0, 0, "values by name")
    if not c["e"]["quad"]:
        # s - sb = A (s-sb) + B (x-xb) + (D + p1 C)(m-mb), x = rule
        dm = mm - E.mb
        ds = np.linalg.solve(np.eye(len(s)) - E.A - E.B @ E.K, (E.B @ E.L + E.D + E.p[0] * E.C) @ dm)
        close(s, E.sb + ds, 1e-6, 1e-6, "known steady state")
        close(x, E.rule(mm, s), 1e-6, 1e-6, "known steady state")
    for g, v in before.items():
        close(np.array(m.calibration[g]), v, 0, 0, "calibration left alone")
    res = m.residuals(ss)
    close(np.concatenate([res["arbitrage"], res["transition"]]), np.zeros(len(s) + len(x)), 0, 1e-6, "residuals at the steady state")
    label(("quadratic " if c["e"]["quad"] else "linear ") + c["m"])
    return bool(c["off"] > 0.01 or c["m"] != "none")


CACHE = {}
EX = {
    "rbc": dict(beta=(0.95, 0.995), sigma=(1.5, 6), eta=(0.5, 2), delta=(0.01, 0.05), alpha=(0.25, 0.4), chi=(5, 10), zbar=(-0.1, 0.1)),
    "rmt3_ch11": dict(beta=(0.9, 0.98), gamma=(1, 3), delta=(0.1, 0.3), alpha=(0.25, 0.4), A=(0.9, 1.2)),
    "rbc_iid": dict(beta=(0.95, 0.995), delta=(0.01, 0.05), alpha=(0.25, 0.4)),
}


@suite.sub(eco(ns=(2, 3), nx=3, ne=(2, 3)), quick=20, thorough=300, shards=2)
def larger_economies(c):
    """more variables"""
    return economies(c)


@st.composite
def example(draw):
    k = draw(st.sampled_from(sorted(EX)))
    return dict(k=k, p={n: draw(fl(lo, hi, 4)) for n, (lo, hi) in EX[k].items() if draw(st.booleans())}, g=draw(fl(0, 0.15, 3)), seed=draw(seeds), off=draw(fl(-0.15, 0.15, 2)))


@suite.sub(example(), quick=30, thorough=300, shards=2)
def examples(c):
    if c["k"] not in CACHE:
        m = yaml_import(os.path.join(REPO, f"examples/models/{c['k']}.yaml"))
        CACHE[c["k"]] = m, {n: float(m.calibration[n]) for n in [*EX[c["k"]]] + m.symbols["states"] + m.symbols["controls"]}
    m, base = CACHE[c["k"]]
    # start from states and controls away from the solution
    v0 = {n: v * (1 + (c["off"] if n not in EX[c["k"]] else 0)) for n, v in base.items()}
    m.set_calibration({**v0, **c["p"]})
    mm = np.array(m.calibration["exogenous"], dtype=float)
    if c["k"] == "rmt3_ch11":
        mm = np.array([c["g"], 0.0, c["g"]])
    try:
        ss = find_steady_state(m, m=mm)
    except Exception as e:
        if "teady" not in str(e):
            raise
        label(c["k"] + " not found")
        return False
    s, x, p = (np.array(ss[k]) for k in ("states", "controls", "parameters"))
    close(p, m.calibration["parameters"], 0, 0, "parameters")
    close(m.functions["transition"](mm, s, x, mm, p), s, 1e-6, 1e-6, "transition at the steady state")
    close(m.functions["arbitrage"](mm, s, x, mm, s, x, p), 0 * x, 0, 1e-6, "arbitrage at the steady state")
    label(c["k"] + " found")
    return True


@suite.sub(eco(), quick=20, thorough=200, shards=1)
def no_steady_state(c):
    """systems without solution must not be given one"""
    E = Economy(dict(c["e"], quad=0.0, G=False))
    if c["seed"] % 2:
        # a state without fixed point
        t = E.spec["eqs"]["transition"][-1]
        t[2] = ["+", ["v", E.S[-1], -1], ["n", 0.5]]
    else:
        a = E.spec["eqs"]["arbitrage"][-1]
        x = ["v", E.X[-1], 0]
        a[1] = ["+", ["*", x, x], ["n", 0.3]]
    m = E.load()
    try:
        ss = find_steady_state(m)
    except Exception:
        return True
    raise Violation(f"a steady state of a system which has none: {ss['states']} {ss['controls']}")
