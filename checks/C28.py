"""C28 tabulations"""
import importlib
import warnings
import numpy as np
from pbt import *
from pbt.gen import *
from pbt.econ import economy, Economy
from checks.C27 import make_rule, quiet

from dolo.algos.results import AlgoResult
from dolo.numeric.decision_rule import DecisionRule, CustomDR

sims = importlib.import_module("dolo.algos.simulations")

suite = Suite(
    "C28",
    "Generated economies (one to three states; i.i.d., autoregressive, chains; with or without definitions), rules (interpolated on chains,"
    " on products or without shocks, of formulas, linear, wrapped in results), tabulated state, bounds given or not, number of points, initial"
    " states and shocks given or not. Every column is recomputed. Non-trivial = the controls vary along the line.",
)


@st.composite
def case(draw, two=False, large=False):
    kw = dict(procs=("iid", "var1", "mc"), shock=0.1, G=False, quad=(0.0, 0.02), scalar=True)
    if large:
        kw.update(ns=(2, 3), nx=3, ne=(2, 3), scalar=False)
    e = draw(economy(**dict(kw, ns=(2, 3))) if two else economy(**kw))
    return dict(
        e=e, seed=draw(seeds), rule=draw(st.sampled_from(["interp", "cartesian", "perturbation", "formulas"])), method=draw(st.sampled_from(["cubic", "linear"])),
        bounds=draw(st.sampled_from(["none", "given", "given"])), n=draw(st.one_of(st.none(), st.integers(1, 30))), s0=draw(st.booleans()), at=draw(st.sampled_from(["none", "none", "i0", "m0"])), wrap=draw(st.booleans()),
        n2=draw(st.one_of(st.none(), st.tuples(st.integers(1, 7), st.integers(1, 7)))), swap=draw(st.booleans()), named=draw(st.booleans()), order=draw(st.sampled_from(["own", "model"])),
    )


def wrapped(c, dr):
    if not c["wrap"]:
        return dr
    arg = AlgoResult()
    arg.dr = dr
    return arg


@suite.sub(case(), quick=72, shards=4)
def lines(c):
    e = Economy(c["e"])
    model = e.load(calib=e.calib())
    r = rs(c["seed"])
    dr, dp, rule = make_rule(c, e, model)
    exo = type(getattr(dr, "exo_grid", None)).__name__
    custom = isinstance(dr, CustomDR)
    interp = isinstance(dr, DecisionRule) and not custom and hasattr(dr, "dprocess")
    k = int(r.randint(len(e.S)))
    kw = {}
    if c["bounds"] == "given":
        lo, hi = e.sb[k] - r.uniform(0.05, 0.4), e.sb[k] + r.uniform(0.05, 0.4)
        kw["bounds"] = [lo, hi] if r.rand() < 0.5 else (lo, hi)
    else:
        lo, hi = model.domain.min[k], model.domain.max[k]
        if interp and exo != "EmptyGrid" and c["order"] == "own":
            # a rule over a narrower grid than the domain
            from dolo.numeric.grids import UniformCartesianGrid

            w = model.domain.max - model.domain.min
            g = UniformCartesianGrid(model.domain.min + 0.1 * w, model.domain.max - 0.15 * w, [6] * len(e.S))
            d2 = DecisionRule(dr.exo_grid, g, dprocess=dp, interp_method=c["method"])
            nodes = dp.nodes if exo == "UnstructuredGrid" else dr.exo_grid.nodes
            d2.set_values(np.array([e.rule(nodes[i], g.nodes) for i in range(len(nodes))]))
            dr = d2
            lo, hi = g.min[k], g.max[k]
    if interp and not exo.endswith("CartesianGrid") and c["named"]:
        # the rule does not tell along which process
        dr.dprocess = None
    if c["n"] is not None:
        kw["n_steps"] = c["n"]
    n = 100 if c["n"] is None else c["n"]
    s0 = e.sb
    if c["s0"]:
        s0 = e.sb + 0.2 * r.uniform(-1, 1, len(e.S))
        kw["s0"] = s0.copy()
    m = e.mb
    if exo == "UnstructuredGrid" and interp:
        nn = dp.n_nodes
        i = (nn + 1) // 2 - 1
        if c["at"] == "i0":
            i = int(r.randint(nn))
            kw["i0"] = i
        m = dp.nodes[i]
    elif c["at"] == "m0":
        m = e.mb + 0.1 * r.uniform(-1, 1, len(e.E))
        kw["m0"] = m.copy()
    elif c["at"] == "i0" and interp and exo.endswith("CartesianGrid"):
        i = int(r.randint(dr.exo_grid.n_nodes))
        kw["i0"] = i
        m = dr.exo_grid.nodes[i]
    state = e.S[k]
    before = e.sb.copy()
    tab = quiet(sims.tabulate, model, wrapped(c, dr), state, **kw)
    names = e.E + e.S + e.X + (e.Y if e.defs else [])
    expect(list(tab.columns) == names, f"columns {list(tab.columns)}, expected {names}")
    expect(len(tab) == n, f"{len(tab)} points, expected {n}")
    close(tab[state].values, np.linspace(lo, hi, n), 1e-12, 1e-12, "tabulated state")
    s = np.tile(s0, (n, 1))
    s[:, k] = np.linspace(lo, hi, n)
    close(tab[e.S].values, s, 1e-12, 1e-12, "other states")
    mm = np.tile(m, (n, 1))
    close(tab[e.E].values, mm, 1e-12, 1e-12, "shocks")
    x = rule(mm, s)
    close(tab[e.X].values, x, 1e-6, 1e-7, "controls")
    if e.defs:
        close(tab[e.Y].values, e.y(mm, s, tab[e.X].values), 1e-9, 1e-9, "definitions")
    close(model.calibration["states"], before, 0, 0, "calibration changed")
    if "s0" in kw:
        close(kw["s0"], s0, 0, 0, "argument changed")
    again = quiet(sims.tabulate, model, wrapped(c, dr), state, **kw)
    expect(list(again.columns) == names and np.array_equal(again.values, tab.values, equal_nan=True), "the same table again")
    label(f"{exo} {c['bounds']}")
    return n > 1 and bool(np.ptp(x, axis=0).max() > 1e-6)


@suite.sub(case(large=True), quick=16, shards=2)
def larger_lines(c):
    """more variables"""
    return lines(c)


@suite.sub(case(two=True), quick=48, shards=4)
def planes(c):
    """tabulation over two states"""
    e = Economy(c["e"])
    model = e.load(calib=e.calib())
    r = rs(c["seed"])
    dr, dp, rule = make_rule(dict(c, rule="interp"), e, model)
    a, b = 0, 1
    kw = {}
    if len(e.S) > 2 or c["named"]:
        a, b = [int(v) for v in r.permutation(len(e.S))[:2]]
        kw["states"] = [e.S[a], e.S[b]]
    n = (12, 13)
    if c["n2"] is not None:
        n = tuple(c["n2"])
        kw["n"] = list(n)
    s0 = e.sb
    if c["s0"]:
        s0 = e.sb + 0.2 * r.uniform(-1, 1, len(e.S))
        kw["s0"] = s0.copy()
    i = 0
    if c["at"] == "i0" and dp.n_nodes > 0:
        i = int(r.randint(dp.n_nodes))
        kw["i0"] = i
    m = e.mb if type(dr.exo_grid).__name__ == "EmptyGrid" else dp.nodes[i]
    tab = quiet(sims.tabulate_2d, model, wrapped(c, dr), **kw)
    expect(tuple(tab.dims) == (e.S[a], e.S[b], "V"), f"dimensions {tab.dims}")
    expect(tab.shape[:2] == tuple(n), f"shape {tab.shape}")
    dom = model.domain
    for d, l in ((0, a), (1, b)):
        close(tab.coords[e.S[l]].data, np.linspace(dom.min[l], dom.max[l], n[d]), 1e-12, 1e-12, "axis")
    expect(list(tab.coords["V"].data) == e.S + e.X, "columns")
    s = np.tile(s0, n + (1,))
    s[..., a] = np.linspace(dom.min[a], dom.max[a], n[0])[:, None]
    s[..., b] = np.linspace(dom.min[b], dom.max[b], n[1])[None, :]
    v = tab.data
    close(v[..., : len(e.S)], s, 1e-12, 1e-12, "states")
    s_ = s.reshape(-1, len(e.S))
    x = rule(np.tile(m, (len(s_), 1)), s_)
    close(v[..., len(e.S) :].reshape(len(s_), -1), x, 1e-6, 1e-7, "controls")
    close(model.calibration["states"], e.sb, 0, 0, "calibration changed")
    if "s0" in kw:
        close(kw["s0"], s0, 0, 0, "argument changed")
    label(type(dr.exo_grid).__name__)
    return len(s_) > 3
