"""C22 perfect foresight"""
import os
import warnings
import numpy as np
import pandas as pd
from pbt import *
from pbt.gen import *
from pbt.econ import economy, Economy
from dolo import yaml_import
from dolo.algos.perfect_foresight import deterministic_solve
from dolo.algos.steady_state import find_steady_state

suite = Suite(
    "C22",
    "Generated economies (linear or quadratic, with constant bounds or not, iid or autoregressive shocks) and example models,"
    " generated initial states, paths of shocks (partial, of different lengths), horizons, solvers and initial guesses; the"
    " returned path is checked date by date with the expression trees (transitions, optimality or complementarity, definitions),"
    " and specifications of the same shocks as dictionary, table or array must give the same path."
    " Non-trivial = the path is not constant.",
)
REPO = os.environ.get("VERIF_REPO", "/repo")


@st.composite
def case(draw, **kw):
    kw = dict(dict(procs=("iid", "var1"), quad=(0.0, 0.0, 0.05), bounds=("none", "mixed", "loose", "mixed"), G=None, scalar=True), **kw)
    return dict(
        e=draw(economy(**kw)), T=draw(st.integers(2, 30)), seed=draw(seeds), how=draw(st.sampled_from(["shocks", "shocks", "s0", "s0 and shocks", "m0", "both"])),
        k=draw(st.integers(1, 8)), ign=draw(st.sampled_from([False, False, False, True])), keep=draw(st.booleans()), guess=draw(st.sampled_from(["none", "none", "array", "frame"])), old=draw(st.booleans()),
        size=draw(fl(0.0, 0.4, 2)),
    )


def run(m, **kw):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        out = deterministic_solve(m, verbose=False, **kw)
    return out, any("onverge" in str(i.message) for i in w)


def judge(E, lb, ub, sim, T, path, S0, msg, eps=1e-5):
    """sim: rows 0..T"""
    expect(list(sim.index) == list(range(0, T + 1)), f"{msg}: dates {sim.index[0]}..{sim.index[-1]}")
    s, x, m = (np.array(sim[n]) for n in (E.S, E.X, E.E))
    expect(np.isfinite(sim.values).all(), msg + ": finite")
    close(m, path, 0, 1e-12, msg + ": path of the shocks")
    close(s[0], S0, 0, 1e-6, msg + ": initial states")
    close(s[1:], E.g(m[:-1], s[:-1], x[:-1], m[1:]), 0, eps, msg + ": transitions")
    f = E.f(m[:-1], s[:-1], x[:-1], m[1:], s[1:], x[1:])
    if lb is None:
        expect(np.abs(f).max() <= eps, f"{msg}: optimality violated by {np.abs(f).max()}")
    else:
        xx = x[:-1]
        expect((x >= lb - eps).all() and (x <= ub + eps).all(), msg + ": out of bounds")
        r = np.maximum(np.minimum(f, xx - lb), xx - ub)
        expect(np.abs(r).max() <= 30 * eps, f"{msg}: complementarity violated by {np.abs(r).max()}")
    if E.defs:
        close(np.array(sim[E.Y]), E.y(m, s, x), 0, 1e-9, msg + ": definitions")
    return s, x


@suite.sub(case(), quick=80, thorough=1200, shards=6)
def economies(c):
    E = Economy(c["e"])
    r = rs(c["seed"])
    m = E.load()
    T, ne = c["T"], len(E.E)
    with_b = c["e"]["bounds"] != "none"
    kw = dict(T=T)
    if c["ign"]:
        kw["ignore_constraints"] = True
    lb, ub = (E.lb, E.ub) if with_b and not c["ign"] else (None, None)
    s0 = E.sb + c["size"] * r.uniform(-1, 1, len(E.S))
    m0 = E.mb + c["size"] * r.uniform(-1, 1, ne)
    how = c["how"]
    path = np.tile(E.mb, (T + 1, 1))
    if "shocks" in how:
        k = min(c["k"], T + 1)
        sh = np.round(E.mb + c["size"] * r.uniform(-1, 1, (k, ne)), 4)
        if c["seed"] % 3 == 0:
            sh = np.round(sh[:1] + (sh[-1:] - sh[:1]) * np.linspace(0, 1, k)[:, None], 4)  # gradual change
        if ne > 1 and c["seed"] % 4 == 1:
            sh[:, r.randint(ne)] = np.nan  # left at its calibrated value
            sh = np.where(np.isnan(sh), E.mb, sh)
        path[:k], path[k:] = sh, sh[-1]
        key = "shocks" if c["old"] else "exogenous"
        kw[key] = sh
        if how == "shocks":
            try:
                S0 = np.array(find_steady_state(m, m=sh[0])["states"])
            except Exception as e:
                if "teady" in str(e) and c["e"]["quad"]:
                    return False
                raise
        else:
            S0 = s0
            kw["s1" if c["old"] else "s0"] = s0
        if c["keep"] and how == "shocks":
            kw["keep_steady_state"] = True
    else:
        S0 = E.sb
        if how in ("s0", "both"):
            S0 = s0
            kw["s0"] = s0 if c["seed"] % 2 else list(s0)
            if c["seed"] % 4 == 0:
                # only some of the states, by name
                kw["s0"] = {E.S[0]: float(s0[0])}
                S0 = np.concatenate([s0[:1], E.sb[1:]])
        if how in ("m0", "both"):
            kw["m0"] = m0
            path[0] = m0
    if c["guess"] != "none":
        g = np.concatenate([np.tile(E.sb, (T + 1, 1)), np.tile(E.xb, (T + 1, 1))], axis=1) + 0.01 * r.randn(T + 1, len(E.S) + len(E.X))
        kw["initial_guess"] = g if c["guess"] == "array" else pd.DataFrame(g, columns=E.S + E.X)
    save = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in kw.items()}
    sim, failed = run(m, **kw)
    for k, v in save.items():
        if isinstance(v, np.ndarray):
            close(kw[k], v, 0, 0, f"argument {k} left alone")
    label(f"{how} {c['e']['bounds'] if not c['ign'] else 'none'}" + (" failed" if failed else ""))
    if failed:
        expect(c["e"]["quad"] or (with_b and not c["ign"]), "linear system not solved")
        return False
    expect(list(sim.columns) == E.S + E.X + (E.Y if E.defs else []) + E.E, f"columns {list(sim.columns)}")
    if kw.get("keep_steady_state"):
        expect(list(sim.index) == list(range(-1, T + 1)), "dates with the initial steady state")
        row = sim.iloc[0]
        sm, ss, sx = (np.array(row[n], dtype=float) for n in (E.E, E.S, E.X))
        close(sm, path[0], 0, 1e-12, "initial shocks")
        close(E.g(sm, ss, sx, sm), ss, 0, 1e-6, "initial steady state")
        close(E.f(sm, ss, sx, sm, ss, sx), 0 * sx, 0, 1e-6, "initial steady state")
        sim = sim.iloc[1:]
    s, x = judge(E, lb, ub, sim, T, path, S0, how)
    # other ways to specify the same shocks
    if "shocks" in how:
        d = {n: [float(u) for u in sh[:, i]] for i, n in enumerate(E.E)}
        # a series that stays at its last value can be shortened, one at the calibration omitted
        for n, v in list(d.items()):
            while len(v) > 1 and v[-1] == v[-2]:
                v.pop()
            if len(v) == 1 and v[0] == E.mb[E.E.index(n)] and len(d) > 1:
                del d[n]
        # tables are read by names: columns in any order, those at the calibration omitted, others ignored
        frame = pd.DataFrame(sh, columns=E.E).iloc[:, r.permutation(ne)]
        for i, n in enumerate(E.E):
            if frame.shape[1] > 1 and (sh[:, i] == E.mb[i]).all():
                del frame[n]
        if c["seed"] % 7 < 2:
            frame.insert(0, E.S[0], 5.0)
        alt = {"dict": d, "frame": frame, "full": path, "long": np.concatenate([path, path[-1:] + 1.0])}
        if ne == 1:
            alt["1d"] = sh[:, 0]
        names = sorted(alt)
        kind = names[c["seed"] % len(names)]
        kw2 = dict(kw, **{key: alt[kind]})
        sim2, failed2 = run(m, **kw2)
        expect(not failed2, f"fails when shocks are given as {kind}")
        a, b = np.array(sim2), np.array(run(m, **kw)[0])
        expect(a.shape == b.shape, f"shocks given as {kind}")
        close(a, b, 0, 1e-5, f"shocks given as {kind}")
        label("also as " + kind)
    return bool(np.abs(np.diff(np.concatenate([s, x, np.array(sim[E.E])], axis=1), axis=0)).max() > 1e-4)


@suite.sub(case(ns=(2, 3), nx=3, ne=(2, 3), scalar=False), quick=20, thorough=300, shards=2)
def larger_economies(c):
    """more variables"""
    return economies(c)


@suite.sub(case(bounds=("mixed", "loose"), ns=1, nx=2, ne=1, quad=0.0), quick=8, thorough=150, shards=2)
def other_solver(c):
    E = Economy(c["e"])
    r = rs(c["seed"])
    m = E.load()
    T = 2 + c["T"] % 4
    s0 = E.sb + c["size"] * r.uniform(-1, 1, len(E.S))
    try:
        sim, failed = run(m, T=T, s0=s0, solver="lmmcp")
    except Exception as e:
        if "onvergence" in str(e):
            return False
        raise
    judge(E, E.lb, E.ub, sim, T, np.tile(E.mb, (T + 1, 1)), s0, "lmmcp")
    return c["size"] > 0.01


@suite.sub(case(bounds=("state",), ns=1, nx=2, ne=1, quad=0.0), quick=8, thorough=60)
def variable_bounds(c):
    """are refused"""
    E = Economy(c["e"])
    if not np.isnan(E.ub).any():
        reject()
    m = E.load()
    s0 = E.sb + 0.3
    try:
        sim, failed = run(m, T=5, s0=s0)
    except Exception as e:
        expect("constant bounds" in str(e), f"unexpected exception {e}")
        return True
    raise Violation("bounds depend on states")


CACHE = {}
EX = dict(
    rbc=dict(exo={"e_z": 0.02}, s=dict(z=0.05, k=1.0)),
    rmt3_ch11=dict(exo={"g": 0.1, "exog_tau_c": 0.1, "exog_tau_k": 0.1}, s=dict(k=0.3)),
)


@st.composite
def example(draw):
    k = draw(st.sampled_from(sorted(EX)))
    return dict(k=k, seed=draw(seeds), T=draw(st.integers(5, 60)), n=draw(st.integers(1, 12)), how=draw(st.sampled_from(["s0", "dict", "array", "frame"])), ign=draw(st.booleans()), up=draw(st.booleans()))


@suite.sub(example(), quick=30, thorough=400, shards=2)
def examples(c):
    k = c["k"]
    if k not in CACHE:
        CACHE[k] = yaml_import(os.path.join(REPO, f"examples/models/{k}.yaml"))
    m = CACHE[k]
    r = rs(c["seed"])
    T = c["T"]
    sy = m.symbols
    cal = {n: float(m.calibration[n]) for n in sy["exogenous"] + sy["states"]}
    mb = np.array(m.calibration["exogenous"])
    path = np.tile(mb, (T + 1, 1))
    kw = dict(T=T, ignore_constraints=c["ign"], s0=np.array([cal[n] + EX[k]["s"].get(n, 0) * r.uniform(-1, 1) for n in sy["states"]]))
    S0 = kw["s0"]
    if c["how"] != "s0":
        del kw["s0"]
        n = min(c["n"], T + 1)
        sh = np.tile(mb, (n, 1))
        for i, v in enumerate(sy["exogenous"]):
            sh[1:, i] += EX[k]["exo"][v] * (r.uniform(-0.3, 1, n - 1) if k != "rbc" else r.uniform(-1, 1, n - 1))
        if k == "rbc" and n > 1:
            sh[-1] = 0.0
        path[:n], path[n:] = sh, sh[-1]
        kw["exogenous"] = dict(dict={v: list(sh[:, i]) for i, v in enumerate(sy["exogenous"])}, array=sh, frame=pd.DataFrame(sh, columns=sy["exogenous"]))[c["how"]]
        S0 = np.array(find_steady_state(m, m=mb)["states"])
    sim, failed = run(m, **kw)
    label(f"{k} {c['how']}" + (" failed" if failed else ""))
    if failed:
        return False
    expect(list(sim.index) == list(range(T + 1)), "dates")
    ms, ss, xs = (np.array(sim[sy[g]]) for g in ("exogenous", "states", "controls"))
    p = np.array(m.calibration["parameters"])
    close(ms, path, 0, 1e-12, "path of the shocks")
    close(ss[0], S0, 1e-6, 1e-6, "initial states")
    close(ss[1:], m.functions["transition"](ms[:-1], ss[:-1], xs[:-1], ms[1:], p), 0, 1e-5, "transitions")
    f = m.functions["arbitrage"](ms[:-1], ss[:-1], xs[:-1], ms[1:], ss[1:], xs[1:], p)
    # (no bound is active in these economies)
    close(f, 0 * f, 0, 1e-5, "optimality")
    close(np.array(sim[sy["auxiliaries"]]), m.functions["auxiliary"](ms, ss, xs, p), 1e-10, 1e-10, "definitions")
    return True
