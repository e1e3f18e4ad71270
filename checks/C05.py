"""C05 domain, grids and exogenous process described by the model file"""
import numpy as np
from pbt import *
from pbt.gen import *
from pbt.models import *
import dolo.numeric.distribution as D
import dolo.numeric.processes as Pr
import dolo.numeric.grids as G

suite = Suite(
    "C05",
    "Model files with random exogenous sections (single processes, products, named entries, parameters given by"
    " expressions), domains in any order and grids of each kind, compared with objects built directly from the evaluated"
    " numbers; non-trivial = an expression of a calibrated parameter is involved, or several states or processes.",
)

EXPRS = ["pa", "pb", "pa^2", "pa*pb", "pa/2", "2*pb", "(pa+pb)/4", "pa^2/(1+pb)", "exp(-pa)*pb"]
num = st.one_of(fl(0.05, 0.9, 4).map(repr), st.sampled_from(EXPRS))


def ev(e, c):
    return float(eval(e.replace("^", "**"), dict(pa=c["pa"], pb=c["pb"], exp=np.exp)))


@st.composite
def proc(draw, kinds):
    k = draw(st.sampled_from(kinds))
    if k == "UNormal":
        return [k, 1, dict(sigma=draw(num), mu=draw(st.one_of(st.none(), num)), greek=draw(st.booleans()))]
    if k in ("Normal", "VAR1"):
        d = draw(st.integers(1, 2))
        dg = [draw(num) for _ in range(d)]
        off = draw(fl(-0.01, 0.01, 4))
        S = [[dg[i] if i == j else repr(off * 0.01) for j in range(d)] for i in range(d)]
        rho = draw(num) if k == "VAR1" else None
        return [k, d, dict(Sigma=S, rho=rho, greek=draw(st.booleans()))]
    if k == "AR1":
        return [k, 1, dict(rho=draw(fl(0.1, 0.9, 3).map(repr)), sigma=draw(num), greek=draw(st.booleans()))]
    if k == "Uniform":
        return [k, 1, dict(a=draw(num), w=draw(num))]
    if k == "Bernouilli":
        return [k, 1, dict(pi=draw(num))]
    if k == "MarkovChain":
        n, d = draw(st.integers(2, 3)), draw(st.integers(1, 2))
        P = stochastic_matrix(draw(seeds), n)
        P = np.round(P, 3)
        P[:, 0] += 1 - P.sum(axis=1)
        vals = [[draw(num) for _ in range(d)] for _ in range(n)]
        return [k, d, dict(P=[[round(float(x), 3) for x in r] for r in P], values=vals)]


def proc_text(p, ind):
    k, d, a = p
    s = " " * ind
    g = a.get("greek")
    sig, Sig, rho, mu = ("σ", "Σ", "ρ", "μ") if g else ("sigma", "Sigma", "rho", "mu")
    mat = lambda M: "[" + ", ".join("[" + ", ".join(str(e) for e in r) + "]" for r in M) + "]"
    if k == "UNormal":
        return f"!UNormal\n{s}{sig}: {a['sigma']}" + (f"\n{s}{mu}: {a['mu']}" if a["mu"] else "")
    if k == "Normal":
        return f"!Normal\n{s}{Sig}: {mat(a['Sigma'])}"
    if k == "VAR1":
        return f"!VAR1\n{s}{rho}: {a['rho']}\n{s}{Sig}: {mat(a['Sigma'])}"
    if k == "AR1":
        return f"!AR1\n{s}{rho}: {a['rho']}\n{s}{sig}: {a['sigma']}"
    if k == "Uniform":
        return f"!Uniform\n{s}a: {a['a']}\n{s}b: {a['a']} + {a['w']}"
    if k == "Bernouilli":
        return f"!Bernouilli\n{s}π: {a['pi']}"
    if k == "MarkovChain":
        return f"!MarkovChain\n{s}values: {mat(a['values'])}\n{s}transitions: {mat(a['P'])}"


def build(p, c):
    k, d, a = p
    M = lambda m: np.array([[ev(str(e), c) for e in r] for r in m])
    if k == "UNormal":
        return D.UNormal(σ=ev(a["sigma"], c), μ=ev(a["mu"], c)) if a["mu"] else D.UNormal(σ=ev(a["sigma"], c))
    if k == "Normal":
        return D.Normal(Σ=M(a["Sigma"]))
    if k == "VAR1":
        return Pr.VAR1(ρ=ev(a["rho"], c), Σ=M(a["Sigma"]))
    if k == "AR1":
        return Pr.AR1(ρ=ev(a["rho"], c), σ=ev(a["sigma"], c))
    if k == "Uniform":
        return D.Uniform(a=ev(a["a"], c), b=ev(a["a"], c) + ev(a["w"], c))
    if k == "Bernouilli":
        return D.Bernouilli(π=ev(a["pi"], c))
    if k == "MarkovChain":
        return Pr.MarkovChain(np.array(a["P"]), M(a["values"]))


IID = ["UNormal", "Normal", "Uniform", "Bernouilli"]
MC = ["UNormal", "Normal", "VAR1", "AR1", "MarkovChain"]
ALL = ["UNormal", "Normal", "Uniform", "Bernouilli", "VAR1", "AR1", "MarkovChain"]
ATTRS = dict(UNormal=["σ", "μ"], Normal=["Σ", "Μ"], VAR1=["ρ", "Σ", "μ"], AR1=["ρ", "σ", "μ"], Uniform=["a", "b"],
             Bernouilli=["π"], MarkovChain=["values", "transitions"])
NM = ["e1", "e2", "e3", "e4", "e5", "e6"]


@st.composite
def exo_case(draw):
    how = draw(st.sampled_from(["single", "dict1", "iid", "mc"]))
    if how in ("single", "dict1"):
        ps = [draw(proc(ALL if how == "single" else ["UNormal", "Normal", "VAR1", "AR1", "MarkovChain"]))]
        layout = "single" if how == "single" else "dict"
    else:
        ps = [draw(proc(IID if how == "iid" else MC)) for _ in range(draw(st.integers(2, 3)))]
        layout = draw(st.sampled_from(["dict", "dict", "product", "list"]))
        if how == "mc" and not any(p[0] in ("VAR1", "AR1", "MarkovChain") for p in ps):
            ps.append(draw(proc(["VAR1", "AR1", "MarkovChain"])))
    return dict(ps=ps, layout=layout, how=how, pa=draw(fl(0.1, 0.9, 3)), pb=draw(fl(0.1, 0.9, 3)), set=draw(st.booleans()))


def file_text(exo_names, states, extra, pa, pb):
    tr = "\n".join(f"        {s}[t] = {s}[t-1]*0.9 + c[t-1] + {exo_names[0]}[t]" for s in states)
    return f"""name: generated
symbols:
    exogenous: [{', '.join(exo_names)}]
    states: [{', '.join(states)}]
    controls: [c]
    parameters: [pa, pb]
equations:
    transition: |
{tr}
    arbitrage: |
        c[t] - c[t+1]
calibration:
    pb: {pb}
    pa: {pa}
    c: 1
{extra}
"""


def same_process(got, want, kind):
    expect(type(got).__name__ == kind, f"{type(got).__name__} instead of {kind}")
    for at in ATTRS[kind]:
        close(np.array(getattr(got, at), dtype=float), np.array(getattr(want, at), dtype=float), 1e-10, 1e-12, f"{kind}.{at}")


def disc(p, how):
    if how == "iid":
        d = p.discretize(to="iid")
        return d.n_inodes(0), np.array([np.concatenate([[d.iweight(0, j)], np.ravel(d.inode(0, j))]) for j in range(d.n_inodes(0))])
    d = p.discretize(to="mc")
    return d.n_nodes, np.column_stack([d.values, d.transitions])


@suite.sub(exo_case(), quick=120, thorough=1200, shards=4)
def exogenous(c):
    ps = c["ps"]
    d = sum(p[1] for p in ps)
    names = NM[:d]
    if c["layout"] == "single":
        t = "exogenous: " + proc_text(ps[0], 4)
    elif c["layout"] == "product":
        t = "exogenous: !Product\n" + "\n".join("    - " + proc_text(p, 8) for p in ps)
    elif c["layout"] == "list":
        t = "exogenous:\n" + "\n".join("    - " + proc_text(p, 8) for p in ps)
    else:
        t, k = "exogenous:", 0
        for p in ps:
            t += "\n    " + ", ".join(names[k : k + p[1]]) + ": " + proc_text(p, 8)
            k += p[1]
    m = load(file_text(names, ["k"], t, c["pa"], c["pb"]), check=False)
    vals = dict(pa=c["pa"], pb=c["pb"])
    if c["set"]:
        m.exogenous
        vals["pa"] = round(vals["pa"] * 0.7, 4)
        m.set_calibration(pa=vals["pa"])
    want = [build(p, vals) for p in ps]
    exo = m.exogenous
    label(c["how"] + "/" + c["layout"])
    if c["layout"] == "single":
        same_process(exo, want[0], ps[0][0])
    else:
        expect(exo.d == d, f"dimension {exo.d} instead of {d}")
        to = "iid" if c["how"] == "iid" else "mc"
        n1, a1 = disc(exo, to)
        n2, a2 = disc(Pr.ProductProcess(*want), to)
        expect(n1 == n2, "number of nodes of the product")
        close(a1, a2, 1e-10, 1e-12, "discretized product")
    return len(ps) > 1 or any(e in str(ps) for e in ("pa", "pb"))


@st.composite
def misordered(draw):
    c = draw(exo_case())
    c["layout"] = "dict"
    c["swap"] = draw(st.integers(0, 20))
    c["drop"] = draw(st.booleans())
    return c


@suite.sub(misordered(), quick=60, thorough=600, shards=2)
def misordered_shocks(c):
    ps = c["ps"]
    d = sum(p[1] for p in ps)
    if c["how"] in ("single",) and ps[0][0] in ("Uniform", "Bernouilli") and d < 2 and not c["drop"]:
        reject()
    names = NM[:d]
    bad = list(names)
    if d == 1 or c["drop"]:
        declared = names + ["other"]
    else:
        i = c["swap"] % (d - 1)
        declared = list(names)
        declared[i], declared[i + 1] = declared[i + 1], declared[i]
    t, k = "exogenous:", 0
    for p in ps:
        t += "\n    " + ", ".join(names[k : k + p[1]]) + ": " + proc_text(p, 8)
        k += p[1]
    m = load(file_text(declared, ["k"], t, c["pa"], c["pb"]), check=False)
    try:
        m.exogenous
    except Exception:
        return True
    expect(False, f"shocks specified as {names} accepted for the declaration {declared}")


@st.composite
def dom_case(draw):
    n = draw(st.integers(1, 3))
    st_names = draw(st.permutations(["k", "z", "a"]))[:n]
    bounds = []
    for _ in range(n):
        lo = draw(st.one_of(fl(-2, 2, 3).map(repr), st.sampled_from(EXPRS + ["-2*pa", "-pa/(1-pb^2)^0.5"])))
        bounds.append([lo, f"{lo} + {draw(num)}"])
    kind = draw(st.sampled_from(["Cartesian", "CartesianGrid", "NonUniformCartesian", "default"]))
    return dict(
        states=list(st_names), bounds=bounds, order=draw(st.permutations(list(range(n)))), kind=kind,
        n=[draw(st.integers(2, 5)) for _ in range(n)], key=draw(st.sampled_from(["n", "orders"])),
        nodes=[sorted([draw(fl(-2, 2, 3)), draw(fl(2.1, 4, 3)), draw(fl(4.1, 6, 3))]) for _ in range(n)], old=draw(st.sampled_from(["", "", "a b", "min max"])),
        pa=draw(fl(0.1, 0.9, 3)), pb=draw(fl(0.1, 0.9, 3)), set=draw(st.booleans()), missing=draw(st.integers(0, 9)),
    )


@suite.sub(dom_case(), quick=160, thorough=1500, shards=4)
def domain_and_grid(c):
    s, n = c["states"], len(c["states"])
    order = list(c["order"])
    absent = n > 1 and c["missing"] == 0
    if absent:
        order = order[:-1]
    t = "exogenous: !UNormal\n    sigma: pa\ndomain:\n"
    t += "".join(f"    {s[i]}: [{c['bounds'][i][0]}, {c['bounds'][i][1]}]\n" for i in order)
    old = c.get("old", "") if c["kind"] in ("Cartesian", "CartesianGrid") and not absent else ""
    if old:
        # bounds of the states next to the number of points, in the order of the states
        t = "exogenous: !UNormal\n    sigma: pa\n"
        a, b = old.split()
        t += f"options:\n    grid: !{c['kind']}\n" + "".join(f"        {k}: {v}\n" for k, v in c["order"][0] % 2 and [(c["key"], c["n"])] or [])
        t += f"        {a}: [{', '.join(x[0] for x in c['bounds'])}]\n        {b}: [{', '.join(x[1] for x in c['bounds'])}]\n"
        t += "" if c["order"][0] % 2 else f"        {c['key']}: {c['n']}\n"
    elif c["kind"] == "NonUniformCartesian":
        t += "options:\n    grid: !NonUniformCartesian\n" + "".join(f"        - {a}\n" for a in c["nodes"])
    elif c["kind"] == "default":
        t += "options:\n    grid: !Cartesian\n        foo: 1\n"
    else:
        t += f"options:\n    grid: !{c['kind']}\n        {c['key']}: {c['n']}\n    other: 42\n"
    m = load(file_text(["e1"], s, t, c["pa"], c["pb"]), check=False)
    if absent:
        label("missing state")
        try:
            m.domain
        except Exception:
            return True
        expect(False, "a domain without one of the states was accepted")
    vals = dict(pa=c["pa"], pb=c["pb"])
    if c["set"]:
        m.domain, m.endo_grid
        vals["pb"] = round(vals["pb"] * 0.7, 4)
        m.set_calibration(pb=vals["pb"])
    lo = [ev(b[0], vals) for b in c["bounds"]]
    hi = [ev(b[1], vals) for b in c["bounds"]]
    d = m.domain
    for i, k in enumerate(s):
        close(d[k], [lo[i], hi[i]], 1e-10, 1e-12, f"domain of {k}")
    expect(tuple(d.states) == tuple(s), f"states of the domain {d.states} instead of {s}")
    close(d.min, lo, 1e-10, 1e-12, "minimum of the domain")
    close(d.max, hi, 1e-10, 1e-12, "maximum of the domain")
    g = m.endo_grid
    if c["kind"] == "NonUniformCartesian":
        ref = G.NonUniformCartesianGrid(c["nodes"]).nodes
    else:
        ref = G.UniformCartesianGrid(lo, hi, [20] * n if c["kind"] == "default" else c["n"]).nodes
    close(g.nodes, ref, 1e-10, 1e-12, "nodes of the grid of states")
    # both grids at once
    grid, dp = m.discretize(dprocess_options=dict(N=3))
    close(grid["endo"].nodes, ref, 1e-10, 1e-12, "endo part of the product grid")
    expect(dp.n_inodes(0) == 3, "options of the discretization of the process")
    want = D.UNormal(σ=vals["pa"]).discretize(N=3)
    for j in range(3):
        close(dp.inode(0, j), want.inode(0, j), 1e-9, 1e-12, "nodes of the discretized shock")
        close(dp.iweight(0, j), want.iweight(0, j), 1e-9, 1e-12, "weights of the discretized shock")
    grid2, _ = m.discretize(grid_options=dict(n=c["n"]))
    close(grid2["endo"].nodes, G.UniformCartesianGrid(lo, hi, c["n"]).nodes, 1e-10, 1e-12, "options of the grid")
    label(c["kind"] + (" bounds in the grid" if old else ""))
    return n > 1 or any(e in str(c["bounds"]) for e in ("pa", "pb"))


@st.composite
def grid_case(draw):
    n = draw(st.integers(1, 3))
    kind = draw(st.sampled_from(["cartesian", "nonuniform", "smolyak", "smolyak", "unknown", "absent"]))
    word = dict(
        cartesian=["Cartesian", "CartesianGrid", "cartesian", "CARTESIAN", "cartesiangrid"], nonuniform=["NonUniformCartesian", "NonUniformCartesianGrid", "nonuniformcartesian"],
        smolyak=["Smolyak", "SmolyakGrid", "smolyak", "smolyakgrid", "SMOLYAK"], unknown=["Foo", "Carthesian", "UniformSmolyak", "grid"], absent=[""],
    )[kind]
    return dict(
        kind=kind, word=draw(st.sampled_from(word)), how=draw(st.sampled_from(["tag", "type", "grid_type"])), states=list(draw(st.permutations(["k", "z", "a"]))[:n]),
        bounds=[[draw(st.one_of(fl(-2, 2, 3).map(repr), st.sampled_from(EXPRS))), draw(num)] for _ in range(n)], order=draw(st.permutations(list(range(n)))),
        mu=draw(st.one_of(st.none(), st.integers(1, 3), st.lists(st.integers(1, 3), min_size=n, max_size=n))),
        n=draw(st.one_of(st.none(), st.lists(st.integers(2, 5), min_size=n, max_size=n))), key=draw(st.sampled_from(["n", "orders"])),
        steps=[draw(st.lists(num, min_size=1, max_size=3)) for _ in range(n)], flow=draw(st.booleans()), other=draw(st.booleans()),
        pa=draw(fl(0.1, 0.9, 3)), pb=draw(fl(0.1, 0.9, 3)), set=draw(st.booleans()),
    )


@suite.sub(grid_case(), quick=120, thorough=1200, shards=2)
def grids(c):
    """the grid has the written type, however it is written"""
    s, n, kind, how = c["states"], len(c["states"]), c["kind"], c["how"]
    if kind == "smolyak" and n == 1:
        reject("Smolyak grids have several dimensions")
    axes_ = []  # expressions of the coordinates of non uniform grids
    for (lo, _), steps in zip(c["bounds"], c["steps"]):
        ax = [lo]
        for h in steps:
            ax.append(f"{ax[-1]} + {h}")
        axes_.append(ax)
    opts = {}
    if kind == "smolyak" and c["mu"] is not None:
        opts["mu"] = c["mu"]
    if kind == "cartesian" and c["n"] is not None:
        opts[c["key"]] = c["n"]
    t = "exogenous: !UNormal\n    sigma: pa\ndomain:\n" + "".join(f"    {s[i]}: [{c['bounds'][i][0]}, {c['bounds'][i][0]} + {c['bounds'][i][1]}]\n" for i in c["order"])
    t += "options:\n" + ("    discrete: 3\n" if c["other"] else "")
    if kind == "absent":
        if not c["other"]:
            t += "    foo: 1\n"
    elif kind == "nonuniform":
        if how != "tag":
            reject()
        t += f"    grid: !{c['word']}\n" + "".join(f"        - [{', '.join(a)}]\n" for a in axes_)
    elif how == "grid_type":
        # (a grid with options has a tag or a type)
        if opts:
            reject()
        t += f"    grid_type: {c['word']}\n"
    else:
        lines = [f"{k}: {v}" for k, v in opts.items()]
        if how == "type":
            lines.insert(c["states"].index(min(s)) % (len(lines) + 1), f"type: {c['word']}")
        tag = f" !{c['word']}" if how == "tag" else ""
        if c["flow"] or not lines:
            t += f"    grid:{tag} " + "{" + ", ".join(lines) + "}\n"
        else:
            t += f"    grid:{tag}\n" + "".join(f"        {l}\n" for l in lines)
    if kind == "absent" and c["flow"]:
        t = t[: t.index("options:")]
    m = load(file_text(["e1"], s, t, c["pa"], c["pb"]), check=False)
    vals = dict(pa=c["pa"], pb=c["pb"])
    label(f"{kind}/{how}")
    if kind in ("unknown", "absent"):
        try:
            m.endo_grid
        except Exception:
            return True
        expect(False, f"{kind} grid accepted\n{t}")
    if c["set"]:
        m.endo_grid
        vals = {k: round(v * 0.7, 4) for k, v in vals.items()}
        m.set_calibration(**vals)
    lo = np.array([ev(b[0], vals) for b in c["bounds"]])
    hi = np.array([ev(f"{b[0]} + {b[1]}", vals) for b in c["bounds"]])
    g = m.endo_grid
    want = dict(cartesian="UniformCartesianGrid", nonuniform="NonUniformCartesianGrid", smolyak="SmolyakGrid")[kind]
    expect(type(g).__name__ == want, f"{type(g).__name__} instead of {want}")
    if kind == "cartesian":
        orders = c["n"] or [20] * n
        ax = [np.linspace(a, b, k) for a, b, k in zip(lo, hi, orders)]
    elif kind == "nonuniform":
        ax = [[ev(e, vals) for e in a] for a in axes_]
    if kind != "smolyak":
        ref = np.stack(np.meshgrid(*ax, indexing="ij"), axis=-1).reshape(-1, n)
    else:
        # union of the products of nested sets of Chebyshev extrema
        mu = c["mu"] or 2
        mus = mu if isinstance(mu, list) else [mu] * n
        ref = lo + (hi - lo) * (smolyak_points(mus) + 1) / 2
        expect(g.nodes.shape == ref.shape, f"{g.nodes.shape} nodes, expected {ref.shape} {mus}")
        srt = lambda a: a[np.lexsort(np.round((a - lo) / (hi - lo), 6).T[::-1])]
        close(srt(g.nodes), srt(ref), 1e-9, 1e-9, "nodes of the Smolyak grid")
        ref = g.nodes
    close(g.nodes, ref, 1e-10, 1e-12, "nodes of the grid")
    expect(g.n_nodes == len(ref), "number of nodes")
    if kind != "nonuniform":
        close(g.min, lo, 1e-10, 1e-12, "minimum")
        close(g.max, hi, 1e-10, 1e-12, "maximum")
    grid, dp = m.discretize()
    close(grid["endo"].nodes, ref, 1e-10, 1e-12, "endo part of the product grid")
    return kind != "cartesian" or how != "tag"


def smolyak_points(mus):
    import itertools

    def new(i):
        "points of level i (1, 2, ...) not in the preceding levels"
        if i == 1:
            return [0.0]
        if i == 2:
            return [-1.0, 1.0]
        k = 2 ** (i - 1)
        return [-np.cos(np.pi * j / k) for j in range(1, k, 2)]

    d, M = len(mus), max(mus)
    pts = []
    for ind in itertools.product(*[range(1, m + 2) for m in mus]):
        if sum(ind) <= d + M:
            pts += list(itertools.product(*[new(i) for i in ind]))
    return np.array(pts)
