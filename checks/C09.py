"""C09 rules defined by formulas"""
import numpy as np
from pbt import *
from pbt.gen import *
from pbt.models import *
from dolo.numeric.decision_rule import CustomDR

suite = Suite(
    "C09",
    "Models with generated symbols, a generated formula per control (in shuffled dictionary order, some of them through"
    " chained intermediate formulas) and generated points; oracle: independent evaluation of the expression trees."
    " Rules are also used as initial guess and along simulated paths. Non-trivial = several controls or an intermediate formula.",
)


@st.composite
def case(draw, maxn=3):
    spec = draw(model_spec(depth=1, bounds="none", ndefs=1, maxn=maxn))
    sym = spec["sym"]
    params = [["p", n] for n in sym["parameters"]]
    base = [["v", n, 0] for g in ("exogenous", "states") for n in sym[g]] + params
    used = set(sum(sym.values(), [])) | {n for n, _ in spec["defs"]}
    free = [n for n in NAMES if n not in used]
    inter, leaves = [], list(base)
    for _ in range(draw(st.integers(0, 3))):
        n = free.pop(draw(st.integers(0, len(free) - 1)))
        inter.append([n, draw_expr(draw, leaves, base, 2)])
        leaves = leaves + [["v", n, 0]] * 3
    forms = [[c, draw_expr(draw, leaves, base, 3)] for c in sym["controls"]]
    order = draw(st.permutations(range(len(inter) + len(forms))))
    return dict(spec=spec, inter=inter, forms=forms, order=list(order), seed=draw(seeds), N=draw(st.integers(1, 4)),
                proc=draw(st.sampled_from(["normal", "var"])))


def sections(c):
    sym = c["spec"]["sym"]
    out = ["", "domain:"] + [f"    {n}: [0.1, 5.0]" for n in sym["states"]]
    d = len(sym["exogenous"])
    S = [[0.01 if i == j else 0.0 for j in range(d)] for i in range(d)]
    if c["proc"] == "normal":
        out += ["", "exogenous: !Normal", f"    Σ: {S}"]
    else:
        out += ["", "exogenous: !VAR1", "    ρ: 0.5", f"    Σ: {S}", f"    μ: {[1.0] * d}"]
    out += ["", "options:", "    grid: !Cartesian", f"        n: {[3] * len(sym['states'])}"]
    return "\n".join(out) + "\n"


def build(c):
    m = load(render(c["spec"], form="list", calib=flat_calib(c["spec"]), extra=sections(c)))
    items = c["inter"] + c["forms"]
    d = {items[k][0]: show(items[k][1], "untimed") for k in c["order"]}
    return m, CustomDR(d, m)


def oracle(c, m):
    sym = c["spec"]["sym"]
    defs = dict(c["inter"])
    cal = dict(flat_calib(c["spec"]))

    def f(M, S):
        env = {n: cal[n] for n in sym["parameters"]}
        for g, A in (("exogenous", M), ("states", S)):
            for k, n in enumerate(sym[g]):
                env[(n, 0)] = A[..., k]
        N = np.broadcast_shapes(M.shape[:-1], S.shape[:-1])
        return np.stack([np.broadcast_to(value(e, env, defs), N) for _, e in c["forms"]], axis=-1)

    return f


def same(a, b, msg):
    sc = 1 + np.abs(b)
    close(np.asarray(a) / sc, b / sc, 1e-9, 1e-9, msg)


@suite.sub(case(), quick=80, thorough=500, shards=4)
def formulas(c):
    m, dr = build(c)
    ref = oracle(c, m)
    r = rs(c["seed"])
    N = c["N"]
    M = r.uniform(0.4, 2, (N, len(c["spec"]["sym"]["exogenous"])))
    S = r.uniform(0.4, 2, (N, len(c["spec"]["sym"]["states"])))
    same(dr.eval_ms(M, S), ref(M, S), "eval_ms")
    same(dr(M, S), ref(M, S), "dr(m,s)")
    same(dr(M[0], S[0]), ref(M[0], S[0]), "dr(m,s), one point")
    same(dr(M[0], S), ref(M[:1], S), "dr(m,s), one shock")
    same(dr(M, S[0]), ref(M, S[:1]), "dr(m,s), one state")
    same(dr.eval_ms(M, S[0]), ref(M, S[:1]), "eval_ms, one state")
    same(dr.eval_ms(M[0], S), ref(M[:1], S), "eval_ms, one shock")
    same(dr.eval_ms(M[0], S[0]), ref(M[0], S[0]), "eval_ms, one point")
    same(dr.eval_ms(M[:, None, :], S[None, :, :]), ref(M[:, None, :], S[None, :, :]), "eval_ms, table")
    same(dr(M, S), ref(M, S), "a second evaluation")
    if c["inter"]:
        label("intermediate formulas")
    return len(c["forms"]) > 1 or bool(c["inter"])


@suite.sub(case(maxn=2), quick=40, thorough=300, shards=4)
def in_use(c):
    """along simulated paths, and as first guess of time iteration"""
    from dolo import simulate
    from dolo.algos.time_iteration import time_iteration

    m, dr = build(c)
    ref = oracle(c, m)
    sym = c["spec"]["sym"]
    d, n = len(sym["exogenous"]), len(sym["states"])
    r = rs(c["seed"])
    T = 3
    path = r.uniform(0.4, 2, (T, 2, d))
    s0 = r.uniform(0.4, 2, n)
    with np.errstate(all="ignore"):
        sim = simulate(m, dr, driving_process=path, s0=s0, T=T, N=2)
        for t in range(T):
            S = np.stack([np.asarray(sim.sel(T=t, V=k)) for k in sym["states"]], -1)
            X = np.stack([np.asarray(sim.sel(T=t, V=k)) for k in sym["controls"]], -1)
            exp = ref(path[t], S)
            ok = np.isfinite(exp) & (np.abs(exp) < 1e8)
            same(np.where(ok, X, 0), np.where(ok, exp, 0), f"simulated controls at date {t}")
        # no iteration: the result holds the first guess at the nodes of the grids
        try:
            sol = time_iteration(m, dr0=dr, maxit=1, inner_maxit=0, verbose=False, trace=True)
        except ZeroDivisionError:
            return True  # a formula divides by the (conventionally null) node of an i.i.d. shock
        first = sol.trace[0]["dr"]
        s = m.discretize()[0]["endo"].nodes
        dp = sol.dprocess
        for i in range(dp.n_nodes):
            exp = ref(dp.node(i)[None, :], s)
            ok = np.isfinite(exp) & (np.abs(exp) < 1e6)
            if ok.all():
                same(np.asarray(first.eval_is(i, s)), exp, f"initial guess at exogenous node {i}")
                label("initial guess")
    label(c["proc"])
    return len(c["forms"]) > 1 or bool(c["inter"])
