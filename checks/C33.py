"""C33 histories of calls on a model"""
import importlib
import warnings
import numpy as np
import pandas as pd
from pbt import *
from pbt.gen import *
from pbt.econ import economy, Economy

from dolo.algos.results import AlgoResult
from dolo.numeric.decision_rule import DecisionRule, CustomDR, ConstantDecisionRule

mod = lambda n: importlib.import_module("dolo.algos." + n)
sims, vi = mod("simulations"), mod("value_iteration")
perturb, time_iteration, improved = mod("perturbation").perturb, mod("time_iteration").time_iteration, mod("improved_time_iteration").improved_time_iteration
solve, steady, ergodic = mod("perfect_foresight").deterministic_solve, mod("steady_state"), mod("ergodic")

suite = Suite(
    "C33",
    "Generated economies and histories of two to six calls (solutions by four methods, steady states, perfect foresight, simulations,"
    " responses, tabulations, evaluations of rules, value iteration, ergodic distributions, formulas, printing, residuals, changes of the"
    " calibration and back) with generated arguments. Each result is compared with the one of the same call in another order on a model"
    " loaded afresh; the model and the arguments are compared before and after. Non-trivial = calls of different kinds.",
)

OPS = ["perturb", "ti", "ti_guess", "iti", "sim", "sim", "irf", "tab", "pf", "ss", "res", "formula", "evalpol", "vi", "ergo", "print", "discretize"]


@st.composite
def case(draw):
    op = st.tuples(st.sampled_from(OPS), st.integers(0, 3), st.sampled_from([0, 0, 0, 1]))
    return dict(
        e=draw(economy(ns=2, nx=2, ne=2, procs=("iid", "var1", "mc"), shock=0.05, G=True, bounds=("none", "none", "mixed"), fwd=None, val=("target", "lq"))),
        seed=draw(seeds), ops=draw(st.lists(op, min_size=2, max_size=6)), shuffle=draw(seeds),
    )


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def flat(v):
    """numbers of a value"""
    if v is None:
        return np.zeros(0)
    if hasattr(v, "values") and not isinstance(v, dict):
        v = v.values
    if isinstance(v, dict):
        return np.concatenate([np.zeros(0)] + [flat(e) for e in v.values()])
    if isinstance(v, (list, tuple)):
        return np.concatenate([np.zeros(0)] + [flat(e) for e in v])
    return np.array(v, dtype=float).ravel()


class World:
    """a model, test points and arguments"""

    def __init__(self, c):
        self.c, self.e = c, Economy(c["e"])
        e = self.e
        self.m = e.load()
        r = rs(c["seed"])
        self.pts = [z + 0.2 * r.uniform(-1, 1, (5, len(z))) for z in (e.mb, e.sb, e.xb)]
        self.p = [e.p, e.p * np.array([1.1, 0.9] + [1.0] * (len(e.p) - 2))]
        self.now = 0

    def switch(self, k):
        if k != self.now:
            self.m.set_calibration({n: float(v) for n, v in zip(self.e.P, self.p[k])})
            self.now = k

    def at(self, dr):
        """values of a rule"""
        m, s, _ = self.pts
        exo = type(dr.exo_grid).__name__
        if exo == "UnstructuredGrid" and hasattr(dr, "eval_is"):
            return np.stack([dr.eval_is(i, s) for i in range(dr.exo_grid.n_nodes)])
        return dr.eval_ms(m, s)

    def rule(self, k, values=None):
        """a rule over the default grids"""
        e = self.e
        grid, dp = self.m.discretize()
        s = grid["endo"].nodes
        dr = DecisionRule(dp.grid, grid["endo"], dprocess=dp, interp_method=["cubic", "linear"][k % 2])
        n = max(1, dp.n_nodes)
        r = rs(self.c["seed"] + k)
        node = [e.mb if type(dp.grid).__name__ == "EmptyGrid" else dp.node(i) for i in range(n)]
        # nearly the solution
        dr.set_values(np.array([np.clip(e.rule(m, s), e.xb - 1, e.xb + 1) for m in node]) + 0.01 * r.randn(1, 1, len(e.X)))
        return dr, dp

    def state(self):
        """all what describes the model"""
        m, (em, es, ex) = self.m, self.pts
        p = m.calibration["parameters"]
        out = dict(calibration=dict(m.calibration.flat), names=[list(v) for v in m.symbols.values()], equations={k: list(v) for k, v in m.equations.items()}, definitions=dict(m.definitions))
        out["groups"] = {k: flat(v).tolist() for k, v in m.calibration.grouped.items()}
        out["domain"] = {k: list(map(float, v)) for k, v in m.domain.items()}
        out["grid"] = flat(m.endo_grid.nodes).tolist()
        out["process"] = {k: flat(v).tolist() for k, v in vars(m.exogenous).items() if isinstance(v, (int, float, list, np.ndarray))}
        f = m.functions
        out["functions"] = [flat(f["transition"](em, es, ex, em, p)).tolist(), flat(f["arbitrage"](em, es, ex, em, es, ex, p)).tolist(), flat(f["felicity"](em, es, ex, p)).tolist()]
        if self.e.defs:
            out["functions"].append(flat(f["auxiliary"](em, es, ex, p)).tolist())
        out["keys"] = sorted(f.keys())
        return out

    def call(self, op, k):
        """-> numbers, arguments before, arguments after"""
        e, m = self.e, self.m
        r = rs(self.c["seed"] + 17 * k)
        args, before = [], []

        def arg(v):
            args.append(v)
            before.append(flat(self.at(v)) if hasattr(v, "eval_ms") else flat(v))
            return v

        proc = self.c["e"]["proc"]
        out = None
        if op == "perturb":
            if proc == "mc":
                return None
            d = perturb(m, verbose=False, details=bool(k % 2))
            if k % 2:
                d = d.dr
            out = [self.at(d), d.C_s, d.x_bar]
        elif op in ("ti", "ti_guess"):
            kw = dict(verbose=False, maxit=[1, 3, 5, 8][k], details=True, interp_method=["cubic", "linear"][k % 2])
            if op == "ti_guess":
                dr, dp = self.rule(k)
                if k % 2:
                    res = AlgoResult()
                    res.dr = arg(dr)
                    dr = res
                else:
                    arg(dr)
                kw["dr0"] = dr
            s = time_iteration(m, **kw)
            out = [self.at(s.dr), s.err, s.iterations]
        elif op == "iti":
            kw = dict(verbose=False, maxit=[1, 2, 4, 6][k], details=True)
            if k % 2:
                kw["dr0"] = arg(self.rule(0)[0])
            s = improved(m, **kw)
            out = [self.at(s.dr)]
        elif op == "sim":
            dr, dp = self.rule(k)
            kw = dict(T=8, N=3, seed=k)
            if k % 2:
                kw["s0"] = arg(e.sb + 0.1 * r.uniform(-1, 1, len(e.S)))
            if k >= 2:
                chain = type(dr.exo_grid).__name__ == "UnstructuredGrid"
                kw["driving_process"] = arg(r.randint(0, dp.n_nodes, (8, 3)) if chain else e.mb + 0.1 * r.randn(8, 3, len(e.E)))
            out = sims.simulate(m, arg(dr), **kw)
        elif op == "irf":
            if proc == "mc":
                return None
            d = perturb(m, verbose=False, details=False)
            out = sims.response(m, arg(d), e.E[k % len(e.E)], T=10)
        elif op == "tab":
            dr, dp = self.rule(k)
            kw = dict(n_steps=7)
            if k % 2:
                kw["s0"] = arg(e.sb + 0.1 * r.uniform(-1, 1, len(e.S)))
            if k >= 2:
                kw["bounds"] = arg([e.sb[0] - 0.3, e.sb[0] + 0.2])
            out = sims.tabulate(m, arg(dr), e.S[0], **kw)
        elif op == "pf":
            sh = e.mb + np.vstack([0.05 * r.randn(3, len(e.E)), np.zeros((1, len(e.E)))])
            if k in (1, 2):
                # by name: paths of different lengths, for some of the shocks only
                sh = {n: sh[: 4 - i, i].copy() for i, n in enumerate(e.E) if i != (self.c["seed"] + k) % len(e.E)}
                if not sh:
                    sh = {e.E[0]: e.mb[:1] + 0.05 * r.randn(1)}
            kw = dict(verbose=False, T=12, exogenous=arg(sh))
            if k % 2:
                kw["s0"] = arg(e.sb + 0.05 * r.uniform(-1, 1, len(e.S)))
            if k >= 2:
                kw["initial_guess"] = arg(np.tile(np.concatenate([e.sb, e.xb]), (13, 1)))
            out = solve(m, **kw)
        elif op == "ss":
            kw = {} if k % 2 == 0 else dict(m=arg(e.mb + 0.05))
            s = steady.find_steady_state(m, **kw)
            out = [s["states"], s["controls"]]
        elif op == "res":
            out = [flat(v) for v in m.residuals().values()]
        elif op == "formula":
            df = pd.DataFrame(r.randn(6, len(e.S) + len(e.X)), columns=e.S + e.X)
            out = m.eval_formula(f"{e.S[0]}[t] + {e.P[0]}*{e.X[0]}[t+1] - {e.P[1]}", dataframe=arg(df))
        elif op == "evalpol":
            dr, dp = self.rule(0)
            out = self.at(vi.evaluate_policy(m, arg(dr), verbose=False, maxit=[2, 5, 20, 50][k]))
        elif op == "vi":
            if k > 1:
                return None
            s = vi.value_iteration(m, verbose=False, maxit=k + 1, details=True)
            out = [self.at(s.dr), self.at(s.drv)]
        elif op == "ergo":
            if proc == "var1":
                return None
            dr, dp = self.rule(1)
            P, mu = ergodic.ergodic_distribution(m, arg(dr))
            out = [P]
        elif op == "print":
            str(m), repr(m), m._repr_html_()
            return None
        elif op == "discretize":
            grid, dp = m.discretize()
            out = [grid["endo"].nodes] + [dp.inode(0, j) for j in range(dp.n_inodes(0))]
            # results of discretizations belong to the caller
            grid["endo"].nodes[:] = 0
        for a, b in zip(args, before):
            now = flat(self.at(a)) if hasattr(a, "eval_ms") else flat(a)
            if not np.array_equal(now, b, equal_nan=True):
                raise Violation(f"{op}: an argument was modified")
        return flat(out)


def safe(w, op, k):
    try:
        return quiet(w.call, op, k)
    except (Violation, AssertionError, AttributeError, NameError, KeyError, TypeError):
        raise
    except Exception as ex:
        # no convergence and the like: the same whatever the history
        return "failed: " + type(ex).__name__


@suite.sub(case(), quick=40, shards=8)
def histories(c):
    a, b = World(c), World(c)
    ref = {0: a.state()}
    b.switch(1)
    ref[1] = b.state()
    res = []
    for t, (op, k, v) in enumerate(c["ops"]):
        a.switch(v)
        r = safe(a, op, k)
        now = a.state()
        for key in now:
            expect(now[key] == ref[v][key], f"{op} ({t}): {key} of the model changed from {ref[v][key]} to {now[key]}")
        res.append(r)
    order = rs(c["shuffle"]).permutation(len(c["ops"]))[::-1]
    for t in order:
        op, k, v = c["ops"][t]
        b.switch(v)
        r = safe(b, op, k)
        if r is None or isinstance(r, str):
            expect(type(r) is type(res[t]) and r == res[t], f"{op} ({t}): {r} or {res[t]} depending on the history")
            continue
        if isinstance(res[t], str):
            expect(False, f"{op} ({t}): {res[t]} in one history only")
        close(r, res[t], 1e-9, 1e-9, f"{op} ({t}): result depends on the history")
    for t, (op, k, v) in enumerate(c["ops"]):
        label(op)
    return len({o[0] for o in c["ops"]}) > 1
