"""C36 plots"""
import importlib
import numpy as np
import pandas as pd
from pbt import *
from pbt.gen import *
from pbt.econ import economy, Economy
from checks.C27 import make_rule, quiet

import matplotlib

matplotlib.use("Agg")
from matplotlib import pyplot as plt
from matplotlib.colors import to_rgba
from dolo.algos.results import AlgoResult
from dolo.misc.graphs import plot_irfs

sims = importlib.import_module("dolo.algos.simulations")

suite = Suite(
    "C36",
    "Generated tables (one to four simulations with possibly different lengths, up to twelve variables, missing values) and responses of generated"
    " economies, with or without chosen variables, titles, horizon, layout and options of lines; rules of generated economies (interpolated, of"
    " formulas, linear) plotted along a state. What is drawn is read back from the axes. Non-trivial = several simulations or variables.",
)

OPT = st.fixed_dictionaries({}, optional=dict(color=st.sampled_from(["black", "red", "C1"]), linestyle=st.sampled_from(["--", "-.", ":"]), linewidth=st.sampled_from([1.0, 2.5]), label=st.sampled_from(["a", "b", "reference"])))


def same_line(line, y, opt, msg):
    x, v = line.get_xdata(), line.get_ydata()
    close(x, np.arange(len(y)), 0, 0, msg + ", dates")
    close(v, y, 0, 0, msg + ", values")
    for k, w in opt.items():
        g = {"color": line.get_color, "linestyle": line.get_linestyle, "linewidth": line.get_linewidth, "label": line.get_label}[k]()
        ok = to_rgba(g) == to_rgba(w) if k == "color" else g == w
        expect(ok, f"{msg}: {k} is {g}, expected {w}")


def check_figure(fig, tables, variables, titles, T, common, options):
    axes = fig.axes
    expect(len(axes) >= len(variables), f"{len(axes)} axes for {len(variables)} variables")
    for i, v in enumerate(variables):
        ax = axes[i]
        expect(ax.get_title() == str(titles[i]), f"title {ax.get_title()!r} of axes {i}, expected {titles[i]!r}")
        expect(len(ax.lines) == len(tables), f"{len(ax.lines)} lines for {len(tables)} simulations")
        lo, hi = ax.get_ylim()
        for j, t in enumerate(tables):
            y = t[v].values[:T]
            same_line(ax.lines[j], y, {**common, **(options[j] if options else {})}, f"variable {v}, simulation {j}")
            ok = np.isfinite(y)
            expect((y[ok] >= lo - 1e-12).all() and (y[ok] <= hi + 1e-12).all(), f"variable {v}: points out of the axes")
    for ax in axes[len(variables):]:
        expect(not ax.lines, "lines on axes without variable")


@st.composite
def tables(draw):
    n = draw(st.one_of(st.integers(1, 4), st.integers(1, 12)))
    k = draw(st.integers(1, 4))
    return dict(
        n=n, T=[draw(st.integers(2, 12)) for _ in range(k)], seed=draw(seeds), single=draw(st.booleans()), arrays=draw(st.booleans()), scale=draw(st.sampled_from([1.0, 100.0, 1e-5])),
        variables=draw(st.one_of(st.none(), st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True))), titles=draw(st.booleans()), horizon=draw(st.one_of(st.none(), st.integers(1, 10))),
        layout=draw(st.booleans()), figsize=draw(st.booleans()), common=draw(OPT), options=draw(st.one_of(st.none(), st.lists(OPT, min_size=k, max_size=k))), missing=draw(st.booleans()),
    )


@suite.sub(tables(), quick=120, thorough=800, shards=4)
def series(c):
    """plots of series"""
    import xarray as xr

    r = rs(c["seed"])
    cols = [f"v{i}" for i in range(c["n"])]
    tabs = []
    for T in c["T"]:
        a = c["scale"] * r.randn(T, c["n"])
        if c["missing"]:
            a[r.rand(T, c["n"]) < 0.1] = np.nan
        t = pd.DataFrame(a, columns=cols)
        if tabs and c["seed"] % 3:
            # other simulations may list their variables in another order
            t = t[[cols[i] for i in r.permutation(len(cols))]]
        tabs.append(t)
    if c["single"]:
        tabs = tabs[:1]
    if c["arrays"]:
        arg = [xr.DataArray(t.values, dims=["T", "V"], coords={"T": range(len(t)), "V": list(t.columns)}) for t in tabs]
    else:
        arg = [t.copy() for t in tabs]
    kw = {}
    variables = cols
    if c["variables"] is not None:
        variables = kw["variables"] = [cols[i] for i in c["variables"]]
    titles = variables
    if c["titles"]:
        titles = kw["titles"] = [f"title {i}" for i in range(len(variables))]
    T = len(tabs[0])
    if c["horizon"] is not None:
        T = kw["horizon"] = c["horizon"]
    if c["layout"]:
        kw["layout"] = (len(variables), 1) if c["seed"] % 2 else (2, (len(variables) + 1) // 2)
    if c["figsize"]:
        kw["figsize"] = (7, 5)
    if c["common"]:
        kw["plot_options"] = dict(c["common"])
    if c["options"] is not None:
        kw["line_options"] = [dict(o) for o in c["options"]]
    a = arg[0] if c["single"] else arg
    try:
        fig = plot_irfs(a, **kw)
        check_figure(fig, tabs, variables, titles, T, c["common"], c["options"])
        if c["figsize"]:
            close(fig.get_size_inches(), [7, 5], 0, 0, "size of the figure")
    finally:
        plt.close("all")
    for t, u in zip(tabs, arg):
        close(np.asarray(u), t.values, 0, 0, "series changed")
    if c["common"]:
        expect(kw["plot_options"] == c["common"], "options changed")
    if c["options"] is not None:
        expect(kw["line_options"] == c["options"], "options changed")
    return len(tabs) > 1 or len(variables) > 1


@st.composite
def resp(draw):
    return dict(e=draw(economy(ns=2, nx=2, ne=2, procs=("iid", "varm"), shock=0.1, G=True)), T=draw(st.integers(3, 20)), which=draw(st.integers(0, 1)), both=draw(st.booleans()))


@suite.sub(resp(), quick=16, shards=2)
def responses(c):
    """responses of a model are plotted as they are"""
    from dolo.algos.perturbation import perturb

    e = Economy(c["e"])
    stable, v = e.roots()
    if stable.max() > 0.98 or v.min() < 1.05:
        reject("roots")
    model = e.load()
    dr = quiet(perturb, model, verbose=False, details=False)
    shocks = [e.E[c["which"] % len(e.E)]] if not c["both"] else list(e.E)
    irfs = [quiet(sims.response, model, dr, n, T=c["T"], impulse=0.1 * (k + 1)) for k, n in enumerate(shocks)]
    tabs = [pd.DataFrame(np.asarray(i), columns=[str(n) for n in i.coords["V"].data]) for i in irfs]
    variables = e.S + e.X
    try:
        fig = plot_irfs(irfs, variables=variables)
        check_figure(fig, tabs, variables, variables, c["T"], {}, None)
    finally:
        plt.close("all")
    return True


@st.composite
def rules(draw):
    return dict(
        e=draw(economy(procs=("iid", "var1", "mc"), shock=0.1, G=False, quad=(0.0, 0.02))), seed=draw(seeds), rule=draw(st.sampled_from(["interp", "perturbation", "formulas"])), method=draw(st.sampled_from(["cubic", "linear"])),
        bounds=draw(st.booleans()), n=draw(st.one_of(st.none(), st.integers(2, 30))), s0=draw(st.booleans()), i0=draw(st.booleans()), wrap=draw(st.booleans()), controls=draw(st.sampled_from(["one", "list", "all"])), opt=draw(OPT),
    )


@suite.sub(rules(), quick=48, shards=4)
def decision_rules(c):
    """rules plotted along a state"""
    e = Economy(c["e"])
    model = e.load()
    r = rs(c["seed"])
    dr, dp, rule = make_rule(c, e, model)
    exo = type(getattr(dr, "exo_grid", None)).__name__
    k = int(r.randint(len(e.S)))
    kw = {}
    lo, hi = model.domain.min[k], model.domain.max[k]
    if c["bounds"]:
        lo, hi = e.sb[k] - r.uniform(0.05, 0.4), e.sb[k] + r.uniform(0.05, 0.4)
        kw["bounds"] = [lo, hi]
    n = 100
    if c["n"] is not None:
        n = kw["n_steps"] = c["n"]
    s0 = e.sb
    if c["s0"]:
        s0 = kw["s0"] = e.sb + 0.2 * r.uniform(-1, 1, len(e.S))
    m = e.mb
    if exo == "UnstructuredGrid":
        i = (dp.n_nodes + 1) // 2 - 1
        if c["i0"]:
            i = kw["i0"] = int(r.randint(dp.n_nodes))
        m = dp.nodes[i]
    arg = dr
    if c["wrap"]:
        arg = AlgoResult()
        arg.dr = dr
    opt = dict(c["opt"])
    if c["controls"] == "one":
        shown = [e.X[int(r.randint(len(e.X)))]]
        pos = [shown[0]]
    else:
        opt.pop("label", None)
        shown = e.X if c["controls"] == "all" else list(r.permutation(e.X + e.S)[:3])
        shown = [str(v) for v in shown]
        pos = [] if c["controls"] == "all" else [shown]
    s = np.tile(s0, (n, 1))
    s[:, k] = np.linspace(lo, hi, n)
    x = rule(np.tile(m, (n, 1)), s)
    val = {**{v: s[:, j] for j, v in enumerate(e.S)}, **{v: x[:, j] for j, v in enumerate(e.X)}}
    plt.close("all")
    try:
        quiet(sims.plot_decision_rule, model, arg, e.S[k], *pos, **kw, **opt)
        ax = plt.gca()
        expect(len(ax.lines) == len(shown), f"{len(ax.lines)} lines, expected {len(shown)}")
        for line, v in zip(ax.lines, shown):
            close(line.get_xdata(), s[:, k], 1e-10, 1e-10, "states")
            close(line.get_ydata(), val[v], 1e-6, 1e-7, f"{v} along the line")
            if c["controls"] != "one":
                expect(line.get_label() == v, f"label {line.get_label()} of {v}")
            for q, g in (("linestyle", line.get_linestyle), ("linewidth", line.get_linewidth)):
                expect(q not in opt or g() == opt[q], f"{q} {g()}")
            expect("color" not in opt or to_rgba(line.get_color()) == to_rgba(opt["color"]), "color")
            expect("label" not in opt or line.get_label() == opt["label"], "label")
        expect(e.S[k] in ax.get_xlabel(), f"label of the axis {ax.get_xlabel()!r}")
    finally:
        plt.close("all")
    return len(shown) > 1
