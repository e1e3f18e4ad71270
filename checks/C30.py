"""C30 formulas evaluated on data"""
import numpy as np
import pandas as pd
from pbt import *
from pbt.gen import *
from pbt.models import *
from pbt.econ import economy, Economy
from dolo.compiler.eval_formula import eval_formula

suite = Suite(
    "C30",
    "Generated expressions over dated columns (dates -2..2) and parameters, generated tables (any number of rows, any index,"
    " extra columns, missing values) and calibrations given as dictionaries or read from a generated model; compared row by row with the"
    " evaluation of the expression tree. Non-trivial = a lead or a lag is read and at least one row has a value.",
)


def strip(e):
    "expressions with the functions known to formulas"
    if e[0] == "f" and e[1] in ("sin", "cos"):
        return strip(e[2])
    return [e[0]] + [strip(x) if isinstance(x, list) else x for x in e[1:]]


@st.composite
def case(draw):
    names = draw(st.permutations([n for n in NAMES if n.isidentifier()]))
    cols, pars = list(names[: draw(st.integers(1, 3))]), list(names[5 : 5 + draw(st.integers(1, 2))])
    dates = draw(st.sampled_from([[0], [0, 1], [-1, 0], [-1, 0, 1], [-2, -1, 0, 1, 2]]))
    leaves = [["v", n, t] for n in cols for t in dates] + [["p", n] for n in pars]
    e = strip(draw_expr(draw, leaves, leaves, draw(st.integers(1, 4))))
    return dict(cols=cols, pars=pars, e=e, rows=draw(st.integers(1, 8)), seed=draw(seeds), style=draw(st.sampled_from(["dated", "brackets"])), index=draw(st.sampled_from(["range", "offset", "text", "dates", "reverse"])), order=draw(st.booleans()), both=draw(st.booleans()), holes=draw(st.sampled_from(["none", "none", "unused", "any"])))


def table(c, r):
    n = c["rows"]
    d = {k: r.uniform(0.4, 2, n) for k in c["cols"]}
    d["unused"] = r.randn(n)
    # tables may have missing values
    for k in dict(none=[], unused=["unused"], any=list(d))[c.get("holes", "none")]:
        d[k][r.rand(n) < 0.3] = np.nan
    keys = list(d)[::-1] if c["order"] else list(d)
    ix = dict(range=range(n), offset=range(-3, n - 3), text=[f"r{i}" for i in range(n)], dates=pd.date_range("2001-01-01", periods=n), reverse=list(range(n))[::-1])[c["index"]]
    return pd.DataFrame({k: d[k] for k in keys}, index=ix)


def ref_rows(e, df, env):
    n = len(df)
    dat = {k: np.array(df[k]) for k in df.columns}
    out = []
    at = [a for a in atoms(e) if isinstance(a, tuple)]
    for i in range(n):
        if any(not 0 <= i + t < n for _, t in at):
            out.append(np.nan)
            continue
        env2 = dict(env)
        for k, t in at:
            env2[(k, t)] = dat[k][i + t]
        with np.errstate(all="ignore"):
            out.append(value(e, env2))
    return np.array(out, dtype=float)


def compare(got, ref, df, msg, dated):
    if not dated:
        close(float(got), ref[0], 1e-10, 1e-10, msg)
        return
    expect(isinstance(got, pd.Series) and len(got) == len(df), msg + ": one value per row")
    expect(list(got.index) == list(df.index), msg + ": rows keep their index")
    g = np.array(got, dtype=float)
    nan = np.isnan(ref)
    expect((np.isnan(g) == nan).all(), f"{msg}: missing values at {np.where(np.isnan(g))[0]} instead of {np.where(nan)[0]}")
    sc = 1 + np.abs(ref[~nan])
    close(g[~nan] / sc, ref[~nan] / sc, 1e-9, 1e-9, msg)


@suite.sub(case(), quick=500, thorough=6000)
def tables(c):
    r = rs(c["seed"])
    df = table(c, r)
    env = {n: float(r.uniform(0.4, 2)) for n in c["pars"]}
    ctx = dict(env)
    if c["both"]:
        # the calibration also has values for variables: dated ones are still read in the table
        ctx.update({n: 77.0 for n in c["cols"]})
    keep, kdf = dict(ctx), df.copy()
    txt = show(c["e"], c["style"])
    dated = [a for a in atoms(c["e"]) if isinstance(a, tuple)]
    ref = ref_rows(c["e"], df, env)
    if np.abs(ref[~np.isnan(ref)]).max(initial=0) > 1e8:
        reject()
    with np.errstate(all="ignore"):
        got = eval_formula(txt, dataframe=df, context=ctx)
    compare(got, ref, df, txt, bool(dated))
    expect(ctx == keep, "context left alone")
    expect(df.equals(kdf), "table left alone")
    label(f"dates {sorted(set(t for _, t in dated))}")
    return any(t for _, t in dated) and not np.isnan(ref).all()


@suite.sub(case(), quick=200, thorough=2000)
def calibrations(c):
    """without a table, names are read in the calibration"""
    r = rs(c["seed"])

    def undate(e):
        return ["p", e[1]] if e[0] == "v" else [e[0]] + [undate(x) if isinstance(x, list) else x for x in e[1:]]

    e = undate(c["e"])
    env = {n: float(r.uniform(0.4, 2)) for n in c["pars"] + c["cols"]}
    with np.errstate(all="ignore"):
        ref = float(value(e, env))
        if not np.isfinite(ref) or abs(ref) > 1e8:
            reject()
        close(eval_formula(show(e), context=env), ref, 1e-10, 1e-10, show(e))
    return len(atoms(e)) > 1


@st.composite
def onmodel(draw):
    return dict(e=draw(economy(procs=("iid",), defs=True)), n=draw(st.integers(1, 6)), seed=draw(seeds), depth=draw(st.integers(1, 3)), k=draw(st.integers(0, 10**6)))


@suite.sub(onmodel(), quick=20, thorough=300, shards=2)
def models_(c):
    """formulas mentioning symbols of a model, tables of simulated variables"""
    E = Economy(c["e"])
    m = E.load()
    r = rs(c["seed"])
    cols = E.S + E.X + E.E + E.Y
    env = {n: float(v) for n, v in E.calib()}
    flat = dict(m.calibration.flat)
    df = pd.DataFrame({n: r.uniform(0.4, 2, c["n"]) for n in cols})
    for k in range(8):
        a, b, p = cols[r.randint(len(cols))], cols[r.randint(len(cols))], E.P[r.randint(len(E.P))]
        s, t = r.randint(-2, 3, 2)
        e = [["-", ["v", a, int(s)], ["*", ["p", p], ["v", b, int(t)]]], ["/", ["v", a, int(s)], ["v", b, int(t)]], ["+", ["^", ["v", a, int(s)], ["p", p]], ["f", "log", ["v", b, int(t)]]]][k % 3]
        ref = ref_rows(e, df, env)
        compare(m.eval_formula(show(e, "dated"), df), ref, df, show(e, "dated"), True)
        other = dict(env, **{p: 1.7})
        compare(m.eval_formula(show(e, "dated"), df, calib={p: 1.7}), ref_rows(e, df, other), df, "given calibration", True)
    # names of the model, at its calibration, definitions included
    cal = {n: float(m.calibration[n]) for n in cols + E.P}
    for n in (E.S[0], E.X[-1], E.Y[-1], E.P[0]):
        e = ["+", ["p", n], ["*", ["n", 2.0], ["p", E.P[-1]]]]
        close(m.eval_formula(show(e)), cal[n] + 2 * cal[E.P[-1]], 1e-12, 1e-12, "calibration of the model")
    for j, n in enumerate(E.Y):
        close(m.eval_formula(n), E.rule(E.mb, E.sb)[j], 1e-9, 1e-9, "definition at the calibration")
    # a calibration may be given as context, and is left alone
    n = E.S[0]
    e = ["+", ["v", n, -1], ["*", ["p", E.P[0]], ["v", E.X[0], 1]]]
    compare(eval_formula(show(e, "dated"), dataframe=df, context=m.calibration), ref_rows(e, df, env), df, "calibration as context", True)
    close(eval_formula(f"{n} - 2*{E.P[-1]}", context=m.calibration), cal[n] - 2 * cal[E.P[-1]], 1e-12, 1e-12, "calibration as context")
    expect(set(m.calibration.flat) == set(flat), "names added to the calibration")
    for k in flat:
        close(m.calibration.flat[k], flat[k], 0, 0, f"calibration of {k} left alone")
    # columns only
    a, b = E.S[0], E.X[0]
    e = ["-", ["v", a, 0], ["f", "log", ["v", b, -1]]]
    compare(eval_formula(show(e, "dated"), dataframe=df), ref_rows(e, df, {}), df, "no calibration", True)
    return c["n"] > 2
