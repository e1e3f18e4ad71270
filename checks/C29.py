"""C29 ergodic distributions"""
import importlib
import numpy as np
from pbt import *
from pbt.gen import *
from pbt.econ import economy, Economy

from dolo.algos.ergodic import ergodic_distribution, trembling_hand
from dolo.numeric.decision_rule import DecisionRule
from dolo.numeric.grids import UniformCartesianGrid
from dolo.numeric.processes import MarkovChain

suite = Suite(
    "C29",
    "Generated economies with one or two states and i.i.d., autoregressive (discretized as chains) or chain shocks, rules on generated uniform"
    " grids with different numbers of points, distributions for the process of the model or another chain, on the grid of the rule or another one (finer, narrower or wider than the range of the"
    " states), and the lottery alone on generated points (interior, at nodes, outside). The operator is recomputed with dense hat functions."
    " Non-trivial = several nodes get mass.",
)


def hat(points, lo, hi, n):
    """weights of each node of a uniform grid (linear interpolation, constant outside)"""
    nodes = np.linspace(lo, hi, n)
    eye = np.eye(n)
    return np.stack([np.interp(points, nodes, eye[j]) for j in range(n)], axis=-1)


def lottery(S, g):
    W = [hat(S[:, k], g.min[k], g.max[k], g.n[k]) for k in range(S.shape[1])]
    if len(W) == 1:
        return W[0]
    return np.einsum("ni,nj->nij", *W).reshape(len(S), -1)


@st.composite
def hand_case(draw):
    d = draw(st.integers(1, 2))
    return dict(n=[draw(st.integers(2, 9)) for _ in range(d)], pts=[draw(vec(d, -0.3, 1.3)) for _ in range(draw(st.integers(1, 12)))], nodes=draw(st.booleans()), w=draw(fl(0.01, 1)), seed=draw(seeds), fill=draw(st.booleans()))


@suite.sub(hand_case(), quick=150, shards=1)
def hand(c):
    """points are allocated to the neighbouring nodes so as to preserve the mean, on top of what is there"""
    x = np.array(c["pts"], dtype=float)
    if c["nodes"]:
        r = rs(c["seed"])
        x = np.stack([r.randint(0, n, len(x)) / (n - 1) for n in c["n"]], axis=1)
    A = np.zeros((len(x),) + tuple(c["n"]))
    if c["fill"]:
        A += rs(c["seed"]).uniform(0, 1, A.shape)
    A0, x0 = A.copy(), x.copy()
    trembling_hand(A, x, c["w"])
    g = UniformCartesianGrid([0.0] * len(c["n"]), [1.0] * len(c["n"]), c["n"])
    want = A0 + c["w"] * lottery(x, g).reshape(A.shape)
    close(A, want, 1e-9, 1e-9, "weights")
    close(x, x0, 0, 0, "argument changed")
    return len(x) > 1


@st.composite
def case(draw):
    return dict(
        e=draw(economy(ns=2, nx=2, procs=("iid", "var1", "mc"), shock=0.15, G=True, quad=(0.0, 0.03), scalar=True)), seed=draw(seeds), n=[draw(st.integers(3, 9)), draw(st.integers(3, 7))], method=draw(st.sampled_from(["cubic", "linear"])),
        other=draw(st.sampled_from(["own", "own", "other", "narrow"])), n2=[draw(st.integers(2, 12)), draw(st.integers(2, 6))], full=draw(st.booleans()), N=draw(st.integers(2, 4)), another=draw(st.integers(0, 2)) == 0,
    )


@suite.sub(case(), quick=66, shards=6)
def distribution(c):
    e = Economy(c["e"])
    model = e.load()
    r = rs(c["seed"])
    d = len(e.S)
    proc = c["e"]["proc"]
    if proc == "mc":
        dp = model.exogenous.discretize()
    elif proc == "iid":
        dp = model.exogenous.discretize(N=c["N"]) if len(e.E) < 3 else model.exogenous.discretize()
    else:
        dp = model.exogenous.discretize(to="mc", N=c["N"])
    if c["another"] and proc == "mc":
        # the process of the rule is not that of the model
        vals = dp.values[: c["N"]] + 0.05 * r.uniform(-1, 1, dp.values[: c["N"]].shape)
        Q = r.uniform(0.05, 1, (len(vals), len(vals)))
        dp = MarkovChain(Q / Q.sum(axis=1)[:, None], vals)
    lo, hi = model.domain.min, model.domain.max
    g = UniformCartesianGrid(lo, hi, c["n"][:d])
    dr = DecisionRule(dp.grid, g, dprocess=dp, interp_method=c["method"])
    iid = proc == "iid"
    n_m = 1 if iid else dp.n_nodes
    nodes = [e.mb] if iid else [dp.node(i) for i in range(n_m)]
    dr.set_values(np.array([e.rule(m, g.nodes) for m in nodes]))
    grid = g
    if c["other"] != "own":
        f = 0.3 if c["other"] == "narrow" else r.uniform(0.7, 1)
        mid = (lo + hi) / 2 + 0.05 * r.uniform(-1, 1, d)
        grid = UniformCartesianGrid(mid - f * (hi - lo) / 2, mid + f * (hi - lo) / 2, c["n2"][:d])
    if c["other"] == "own" and c["full"]:
        P, mu = ergodic_distribution(model, dr)
    else:
        P, mu = ergodic_distribution(model, dr, dp.grid, grid, dp)
    n_s = len(grid.nodes)
    s = grid.nodes
    # reference
    ref = np.zeros((n_m, n_s, n_m, n_s))
    for i, m in enumerate(nodes):
        x = e.rule(m, s)
        mm = np.tile(m, (n_s, 1))
        for j in range(dp.n_inodes(i)):
            w, M = dp.iweight(i, j), np.tile(dp.inode(i, j), (n_s, 1))
            ref[i, :, 0 if iid else j, :] += w * lottery(e.g(mm, s, x, M), grid)
    shape = (n_s, n_s) if iid else (n_m, n_s, n_m, n_s)
    expect(P.shape == shape, f"shape of the operator {P.shape}")
    P2 = np.asarray(P).reshape(n_m * n_s, n_m * n_s)
    expect(P2.min() >= -1e-12, "negative probability")
    close(P2.sum(axis=1), np.ones(len(P2)), 1e-10, 1e-10, "probabilities sum to one")
    close(P2, ref.reshape(P2.shape), 1e-6, 1e-6, "operator")
    # the distribution
    v = np.linalg.eigvals(P2)
    if np.sum(np.abs(v - 1) < 1e-4) > 1:
        reject("several ergodic classes")
    want_shape = (() if iid else (n_m,)) + tuple(int(k) for k in grid.n)
    expect(mu.shape == want_shape, f"shape of the distribution {mu.shape}")
    want_dims = ([] if iid else ["i_m"]) + e.S
    expect(list(mu.dims) == want_dims, f"dimensions {mu.dims}")
    for k, n in enumerate(e.S):
        close(mu.coords[n].data, np.linspace(grid.min[k], grid.max[k], grid.n[k]), 1e-12, 1e-12, "coordinates")
    p = mu.data.ravel()
    expect(p.min() > -1e-8, f"negative mass {p.min()}")
    expect(abs(p.sum() - 1) < 1e-8, "total mass")
    close(p @ P2, p, 1e-8, 1e-8, "invariance")
    only = None
    if c["full"]:
        only = ergodic_distribution(model, dr, dp.grid, grid, dp, compute_μ=False)
        close(np.asarray(only), np.asarray(P), 0, 0, "operator alone")
    label(f"{proc} {c['other']} {d}")
    return int((p > 1e-3).sum()) > 1
