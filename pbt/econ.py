"""Generated economies whose equations are known in closed form.

`economy` draws a model file with states s, controls x, exogenous variables e:

    s'  = sb + A (s-sb) + B (x-xb) + D (m-mb) + C (M-mb)   [ + quadratic terms ]
    0   = F (x - phi(m,s)) + G (X - phi(M,S))              [ + quadratic terms ]
    phi = xb + K (s-sb) + L (m-mb)

The rule x = phi(m,s) solves the equations exactly when there are no quadratic terms; it is the only stable
solution if the eigenvalues of F^-1 G lie inside the unit circle.
"""
import numpy as np
from . import gen, models
from .core import *
from hypothesis import strategies as st


def num(v):
    v = round(float(v), 10)
    return ["n", v] if v >= 0 else ["neg", ["n", -v]]


def add(terms):
    out = None
    for t in terms:
        out = t if out is None else ["+", out, t]
    return out if out is not None else ["n", 0.0]


def scale(c, t):
    return ["*", num(c), t]


def dev(n, t, c):
    c = round(float(c), 6)
    v = ["v", n, t]
    return v if c == 0 else (["-", v, ["n", c]] if c > 0 else ["+", v, ["n", -c]])


@st.composite
def economy(draw, ns=2, nx=2, ne=2, procs=("iid",), quad=0.0, bounds=("none",), G=True, defs=None, width=1.0, shock=0.05, fwd=False, rads=(0.2, 0.8), grad=0.5, val=None, rare=False, scalar=False, imean=False):
    return dict(
        ns=draw(st.integers(*(ns if isinstance(ns, tuple) else (1, ns)))), nx=draw(st.integers(1, nx)), ne=draw(st.integers(*(ne if isinstance(ne, tuple) else (1, ne)))), seed=draw(gen.seeds),
        proc=draw(st.sampled_from(list(procs))), quad=quad if not isinstance(quad, tuple) else draw(st.sampled_from(quad)),
        bounds=draw(st.sampled_from(list(bounds))), G=G if isinstance(G, bool) else draw(st.sampled_from([True, True, False])),
        defs=draw(st.booleans()) if defs is None else defs, width=width, shock=shock, rad=draw(gen.fl(rads[0], rads[1], 2)),
        fwd=fwd if isinstance(fwd, bool) else draw(st.sampled_from([True, True, False])), grad=grad if not isinstance(grad, tuple) else draw(gen.fl(grad[0], grad[1], 2)),
        val=None if val is None else draw(st.sampled_from(list(val))), beta=draw(gen.fl(0.5, 0.96, 2)), rare=rare and draw(st.booleans()), beta2=draw(gen.fl(0.3, 0.95, 2)), scalar=scalar and draw(st.booleans()), imean=imean and draw(st.booleans()),
        order=draw(st.permutations(["exogenous", "states", "controls", "parameters"])), names=draw(st.permutations(NAMES)),
    )


NAMES = ["k", "z", "c", "n", "i", "a", "ab", "w", "y", "e_z", "eps", "m", "s", "x", "p", "S", "X", "M", "b1", "u", "q", "out0", "out1"]


def r6(a):
    return np.round(a, 6) + 0.0


class Economy:
    def __init__(self, c):
        self.c = c
        r = gen.rs(c["seed"])
        ns, nx, ne = c["ns"], c["nx"], c["ne"]
        names = list(c["names"])
        take = lambda k: [names.pop() for _ in range(k)]
        self.S, self.X, self.E, self.P, self.Y = take(ns), take(nx), take(ne), take(2), take(nx)
        contr = lambda n, k, s: s * r.uniform(-1, 1, (n, k)) / max(k, 1)
        self.sb, self.xb = r6(r.uniform(-1, 2, ns)), r6(r.uniform(-1, 2, nx))
        self.K, self.L = r6(contr(nx, ns, 1.5)), r6(contr(nx, ne, 1.5))
        self.B = r6(contr(ns, nx, 1.0))
        cl = contr(ns, ns, 1.0)
        cl = cl / max(np.abs(cl).sum(axis=1).max(), 1e-6) * c["rad"]
        self.A = r6(cl - self.B @ self.K)
        self.C, self.D = r6(contr(ns, ne, 1.0)), r6(contr(ns, ne, 0.5))
        self.F = r6(np.diag(r.uniform(0.8, 2, nx)) * np.sign(r.randn(nx) if c["bounds"] == "none" else 1))
        if nx > 1 and c["bounds"] == "none":
            self.F = r6(self.F + 0.2 * r.randn(nx, nx))
        self.fwd = bool(c.get("fwd")) and c["G"]
        self.G = r6((self.F @ contr(nx, nx, c.get("grad", 0.5))) if c["G"] else np.zeros((nx, nx)))
        self.p = r6(r.uniform(0.5, 1.5, 2))
        # exogenous process
        self.Sigma = np.eye(ne) * c["shock"] ** 2
        if ne > 1:
            q = max(r.uniform(-0.6, 0.6), -0.8 / (ne - 1) if ne > 2 else -1)
            self.Sigma = c["shock"] ** 2 * ((1 - q) * np.eye(ne) + q * np.ones((ne, ne)))
            sd = np.append(1, gen.rs(c["seed"] + 7).uniform(0.4, 1.2, ne - 1))
            self.Sigma = self.Sigma * np.outer(sd, sd)
        self.Sigma = np.round(self.Sigma, 10)
        self.scalar = bool(c.get("scalar")) and ne == 1 and c["proc"] in ("iid", "var1")
        self.sd = float(np.sqrt(self.Sigma[0, 0]))
        self.rho = float(r6(r.uniform(0.1, 0.9)))
        self.mb = np.zeros(ne)
        if c["proc"] in ("var1", "mc"):
            self.mb = r6(r.uniform(-0.5, 0.5, ne))
        if c["proc"] == "iid" and c.get("imean"):
            self.mb = r6(gen.rs(c["seed"] + 17).uniform(-0.5, 0.5, ne))
        if c["proc"] == "mc":
            self.nmc = 2 + r.randint(2)
            self.P_ = np.round(gen.stochastic_matrix(c["seed"], self.nmc), 4)
            self.P_[:, -1] += 1 - self.P_.sum(axis=1)
            self.P_ = np.round(self.P_, 4)
            self.V_ = r6(self.mb + 2 * c["shock"] * r.uniform(-1, 1, (self.nmc, ne)))
            if c.get("rare"):
                # one of the states is seldom reached, and far from the others
                q = gen.rs(c["seed"] + 13)
                k = q.randint(self.nmc)
                d = np.round(10 ** q.uniform(-3.3, -2), 4)
                for i in range(self.nmc):
                    if i != k:
                        j = [u for u in range(self.nmc) if u not in (i, k)]
                        self.P_[i, i] += self.P_[i, k] - d
                        self.P_[i, k] = d
                        if self.P_[i, i] < 0:
                            self.P_[i, j[0]] += self.P_[i, i]
                            self.P_[i, i] = 0
                self.P_ = np.round(self.P_, 4)
                self.V_[k] = r6(self.mb + 12 * c["shock"] * q.choice([-1, 1], ne) * q.uniform(0.7, 1, ne))
        self.R = np.eye(ne) * (self.rho if c["proc"] == "var1" else 0.0)
        if c["proc"] == "varm":
            q = contr(ne, ne, 1.0)
            self.R = r6(q)
            self.mb = r6(r.uniform(-0.5, 0.5, ne))
        # in forward looking models, the coefficients on current variables make `rule` the solution given expectations of future ones
        self.K0, self.L0 = self.K, self.L
        if self.fwd:
            H = np.linalg.solve(self.F, self.p[1] * self.G)
            self.K0 = self.K + H @ self.K @ (self.A + self.B @ self.K)
            self.L0 = self.L + H @ (self.K @ (self.B @ self.L + self.D + self.p[0] * self.C @ self.R) + self.L @ self.R)
        self.Q = {k: r6(c["quad"] * r.uniform(-1, 1, s)) for k, s in dict(s=(ns, ns), x=(ns, nx), fs=(nx, ns), fx=(nx, nx), fe=(nx, ne)).items()}
        self.w = c["width"]
        self.half = np.round(self.w * gen.rs(c["seed"] + 11).uniform(0.6, 1, ns), 4)
        self.val = c.get("val")
        if self.val:
            self.beta = c["beta"]
            self.P = self.P + ["beta"]
            self.p = np.append(self.p, self.beta)
            # (files saved before `beta2` was drawn)
            self.beta2 = c.get("beta2", 0.5 * self.beta)
            self.nv = 2 if self.val == "linear2" else 1
            self.us, self.ux, self.um = r6(r.uniform(-1, 1, ns)), r6(r.uniform(-1, 1, nx)), r6(r.uniform(-1, 1, ne))
            self.qx, self.qs = r6(r.uniform(0.5, 2, nx)), r6(r.uniform(0.1, 1, ns))
        self.build()

    # -- formulas
    def phi(self, t, j):
        return add([num(self.xb[j])] + [scale(self.K0[j, k], dev(n, t, self.sb[k])) for k, n in enumerate(self.S)] + [scale(self.L0[j, k], dev(n, t, self.mb[k])) for k, n in enumerate(self.E)])

    def phis(self, t, j):
        return ["v", self.Y[j], t] if self.c["defs"] else self.phi(t, j)

    def build(self):
        c = self.c
        S, X, E = self.S, self.X, self.E
        p1, p2 = [["p", n] for n in self.P[:2]]
        sq = lambda t: ["^", t, ["n", 2]]
        tr = []
        for i, n in enumerate(S):
            t = [num(self.sb[i])]
            t += [scale(self.A[i, k], dev(m, -1, self.sb[k])) for k, m in enumerate(S)]
            t += [scale(self.B[i, k], dev(m, -1, self.xb[k])) for k, m in enumerate(X)]
            t += [scale(self.D[i, k], dev(m, -1, self.mb[k])) for k, m in enumerate(E)]
            # a parameter multiplies the effect of shocks
            t += [["*", p1, scale(self.C[i, k], dev(m, 0, self.mb[k]))] for k, m in enumerate(E)]
            if c["quad"]:
                t += [scale(self.Q["s"][i, k], sq(dev(m, -1, self.sb[k]))) for k, m in enumerate(S)]
                t += [scale(self.Q["x"][i, k], sq(dev(m, -1, self.xb[k]))) for k, m in enumerate(X)]
            tr.append(["=", ["v", n, 0], add(t)])
        ar = []
        for i in range(len(X)):
            t = [scale(self.F[i, j], ["-", ["v", X[j], 0], self.phis(0, j)]) for j in range(len(X))]
            if c["G"]:
                t += [["*", p2, scale(self.G[i, j], dev(X[j], 1, self.xb[j]) if self.fwd else ["-", ["v", X[j], 1], self.phis(1, j)])] for j in range(len(X))]
            if c["quad"]:
                t += [scale(self.Q["fs"][i, k], sq(dev(m, k % 2, self.sb[k]))) for k, m in enumerate(S)]
                t += [scale(self.Q["fx"][i, k], sq(dev(m, (k + 1) % 2, self.xb[k]))) for k, m in enumerate(X)]
                t += [scale(self.Q["fe"][i, k], sq(dev(m, k % 2, self.mb[k]))) for k, m in enumerate(E)]
            ar.append(["e", add(t)])
        bnd = [None] * len(X)
        self.lb, self.ub = np.full(len(X), -np.inf), np.full(len(X), np.inf)
        if c["bounds"] != "none":
            bnd = []
            r = gen.rs(c["seed"] + 1)
            for j in range(len(X)):
                half = np.abs(self.K[j]).sum() * self.w
                kind = r.randint(4) if c["bounds"] in ("mixed", "state") else {"loose": 4}[c["bounds"]]
                lo = self.xb[j] - round(half * r.uniform(0.1, 0.6), 4)
                hi = self.xb[j] + round(half * r.uniform(0.1, 0.6), 4)
                if kind == 4:
                    lo, hi = self.xb[j] - 50.0, self.xb[j] + 50.0
                lo, hi = round(lo, 6), round(hi, 6)
                lbe = None if kind == 1 else num(lo)
                ube = None if kind == 2 else num(hi)
                self.lb[j], self.ub[j] = (-np.inf if lbe is None else lo), (np.inf if ube is None else hi)
                if c["bounds"] == "state" and ube is not None:
                    # bounds vary with states and shocks, without crossing
                    ube = [num(hi), scale(round(min(0.3, 0.7 * (hi - lo) / self.w), 6), dev(S[0], 0, self.sb[0]))]
                    ube = add(ube + [scale(-round(min(1.0, 0.01 * (hi - lo) / c["shock"]), 6), dev(E[-1], 0, self.mb[-1]))])
                    self.ub[j] = np.nan
                    if lbe is not None and r.rand() < 0.5:
                        lbe = add([num(lo), scale(round(min(1.0, 0.01 * (hi - lo) / c["shock"]), 6), dev(E[0], 0, self.mb[0]))])
                        self.lb[j] = np.nan
                bnd.append(None if kind == 3 and c["bounds"] == "mixed" else [lbe, ube])
                if bnd[-1] is None:
                    self.lb[j], self.ub[j] = -np.inf, np.inf
        sym = {}
        for g in c["order"]:
            sym[g] = dict(exogenous=E, states=S, controls=X, parameters=self.P)[g]
        more = {}
        if self.val:
            sym["values"], sym["rewards"] = ["V1", "V2"][: self.nv], ["felic"]
            lin = [scale(self.us[k], dev(m, 0, self.sb[k])) for k, m in enumerate(S)] + [scale(self.ux[k], dev(m, 0, self.xb[k])) for k, m in enumerate(X)]
            lin += [scale(self.um[k], dev(m, 0, self.mb[k])) for k, m in enumerate(E)]
            tgt = [scale(-0.5 * self.qx[j], sq(["-", ["v", m, 0], self.phis(0, j)])) for j, m in enumerate(X)]
            if self.val in ("linear", "linear2"):
                t = [num(0.7)] + lin
            elif self.val == "target":
                t = tgt
            else:  # lq
                t = lin[: len(S)] + tgt + [scale(-0.5 * self.qs[k], sq(dev(m, 0, self.sb[k]))) for k, m in enumerate(S)]
            b = ["p", "beta"]
            more["felicity"] = [["=", ["v", "felic", 0], add(t)]]
            v = [["=", ["v", "V1", 0], ["+", add(t), ["*", b, ["v", "V1", 1]]]]]
            if self.nv == 2:
                v.append(["=", ["v", "V2", 0], add([dev(X[0], 1, self.xb[0]), scale(0.3, dev(E[0], 1, self.mb[0])), scale(self.beta2, ["v", "V2", 1]), scale(0.1, ["v", "V1", 1])])])
            more["value"] = v
        self.defs = [[n, self.phi(0, j)] for j, n in enumerate(self.Y)] if c["defs"] else []
        self.spec = dict(sym=sym, defs=self.defs, eqs=dict(arbitrage=ar, transition=tr, **more), bounds=bnd)

    # -- file
    def exogenous(self):
        L = lambda M: "[" + ", ".join("[" + ", ".join(format(float(v), ".12g") for v in row) + "]" for row in np.atleast_2d(M)) + "]"
        V = lambda v: "[" + ", ".join(format(float(u), ".12g") for u in v) + "]"
        k = self.c["proc"]
        if self.scalar:
            # the same processes in one dimension, the first one by its standard deviation, the other one by its variance
            if k == "iid":
                return f"exogenous: !UNormal\n    σ: {self.sd!r}\n" + (f"    μ: {float(self.mb[0])!r}\n" if self.mb.any() else "")
            return f"exogenous: !AR1\n    ρ: {self.rho}\n    σ: {float(self.Sigma[0, 0])!r}\n    μ: {float(self.mb[0])!r}\n"
        if k == "iid":
            return f"exogenous: !Normal\n    Σ: {L(self.Sigma)}\n" + (f"    Μ: {V(self.mb)}\n" if self.mb.any() else "")
        if k == "var1":
            return f"exogenous: !VAR1\n    ρ: {self.rho}\n    Σ: {L(self.Sigma)}\n    μ: {V(self.mb)}\n"
        if k == "varm":
            return f"exogenous: !VAR1\n    ρ: {L(self.R)}\n    Σ: {L(self.Sigma)}\n    μ: {V(self.mb)}\n"
        if k == "mc":
            return f"exogenous: !MarkovChain\n    values: {L(self.V_)}\n    transitions: {L(self.P_)}\n"
        raise HarnessError(k)

    def calib(self):
        out = [[n, float(v)] for n, v in zip(self.S, self.sb)] + [[n, float(v)] for n, v in zip(self.X, self.xb)]
        out += [[n, float(v)] for n, v in zip(self.P, self.p)] + [[n, float(v)] for n, v in zip(self.E, self.mb)]
        if self.val:
            out += [[n, 0.25] for n in self.spec["sym"]["values"]] + [["felic", 0.0]]
        return out

    def text(self, orders=None, calib=None, half=None):
        h = self.half if half is None else half
        dom = "domain:\n" + "".join(f"    {n}: [{round(b-w, 6)}, {round(b+w, 6)}]\n" for n, b, w in zip(self.S, self.sb, h))
        opt = f"options:\n    grid: !Cartesian\n        orders: {list(orders or [4] * len(self.S))}\n"
        return models.render(self.spec, form="list", calib=calib or self.calib(), extra="\n" + dom + "\n" + self.exogenous() + "\n" + opt)

    def load(self, **kw):
        return models.load(self.text(**kw))

    # -- numbers
    def roots(self):
        """moduli of the roots of the linearised system, without those of the shocks"""
        W = self.F + self.p[1] * self.G @ self.K @ self.B if self.fwd else self.F
        with np.errstate(divide="ignore"):
            v = 1 / np.abs(np.linalg.eigvals(np.linalg.solve(W, self.p[1] * self.G)))
        return np.abs(np.linalg.eigvals(self.A + self.B @ self.K)), v

    def rule(self, m, s):
        return self.xb + (s - self.sb) @ self.K.T + (m - self.mb) @ self.L.T

    def clipped(self, m, s):
        return np.clip(self.rule(m, s), self.lb, self.ub)

    def u(self, m, s, x):
        return _stack(models, self.spec, "felicity", self.env(m, s, x))[..., 0]

    def v(self, m, s, x, M, S, X, V):
        e = self.env(m, s, x, M, S, X)
        for k, n in enumerate(self.spec["sym"]["values"]):
            e[(n, 1)] = np.asarray(V)[..., k]
        return _stack(models, self.spec, "value", e)

    def env(self, m=None, s=None, x=None, M=None, S=None, X=None, p=None, t0=0):
        e = {n: float(v) for n, v in zip(self.P, self.p if p is None else p)}
        for names, a, t in ((self.E, m, t0), (self.S, s, t0), (self.X, x, t0), (self.E, M, t0 + 1), (self.S, S, t0 + 1), (self.X, X, t0 + 1)):
            if a is not None:
                for k, n in enumerate(names):
                    e[(n, t)] = np.asarray(a)[..., k]
        return e

    def g(self, m, s, x, M, p=None):
        return _stack(models, self.spec, "transition", self.env(m, s, x, M, p=p, t0=-1))

    def f(self, m, s, x, M, S, X, p=None):
        return _stack(models, self.spec, "arbitrage", self.env(m, s, x, M, S, X, p=p))

    def bnd(self, m, s):
        """values of the bounds, infinite where there are none"""
        e = self.env(m, s)
        shape = np.broadcast_shapes(np.shape(m)[:-1], np.shape(s)[:-1])
        out = []
        for k, v in enumerate((-np.inf, np.inf)):
            cols = [v if b is None or b[k] is None else models.value(b[k], e, dict(self.spec["defs"])) for b in self.spec["bounds"]]
            out.append(np.stack([np.broadcast_to(c, shape) for c in cols], axis=-1))
        return out

    def y(self, m, s, x=None, p=None):
        return _stack(models, self.spec, "auxiliary", self.env(m, s, x, p=p))


def _stack(models, spec, block, env):
    defs = dict(spec["defs"])
    if block == "auxiliary":
        v = [models.value(e, env, defs) for _, e in spec["defs"]]
    else:
        v = [models.value(e[1] if e[0] == "e" else e[2], env, defs) for e in spec["eqs"][block]]
    v = np.broadcast_arrays(*v)
    return np.stack(v, axis=-1)


def dev0(a, b):
    return np.asarray(a, float) - b


class Discrete:
    """rules of an economy when shocks follow a discretized process"""

    def __init__(self, e, dp):
        """exact rule at the nodes of a chain: x = xb + K (s-sb) + l_i (economies without bounds and quadratic terms)"""
        n = dp.n_nodes
        dm = np.array([dev0(dp.node(i), e.mb) for i in range(n)])
        if not e.fwd or type(dp).__name__ == "GDP":
            # linear in shocks, as long as their discretized conditional means are
            self.l = dm @ e.L.T
        else:
            P = np.array([[dp.iweight(i, j) for j in range(dp.n_inodes(i))] for i in range(n)])
            dM = np.array([[dev0(dp.inode(i, j), e.mb) for j in range(dp.n_inodes(i))] for i in range(n)])
            pG, nx = e.p[1] * e.G, len(e.X)
            iid = n == 1
            A = np.zeros((n * nx, n * nx))
            b = np.zeros(n * nx)
            for i in range(n):
                I = slice(i * nx, (i + 1) * nx)
                A[I, I] += e.F + pG @ e.K @ e.B
                b[I] += e.F @ e.L0 @ dm[i] - pG @ e.K @ e.D @ dm[i]
                for j in range(P.shape[1]):
                    J = I if iid else slice(j * nx, (j + 1) * nx)
                    A[I, J] += P[i, j] * pG
                    b[I] -= P[i, j] * pG @ e.K @ (e.p[0] * e.C) @ dM[i, j]
            self.l = np.linalg.solve(A, b).reshape(n, nx)
        self.e = e

    def __call__(self, i, s):
        e = self.e
        return e.xb + (np.asarray(s) - e.sb) @ e.K.T + self.l[i]


def future(dr, dp, i, j, S):
    """tomorrow's controls, from the public ways of evaluating a rule"""
    name = type(dr.exo_grid).__name__
    if name == "EmptyGrid":
        return dr.eval_s(S)
    if name == "UnstructuredGrid":
        return dr.eval_is(j, S)
    return dr.eval_ms(np.tile(dp.inode(i, j), (len(S), 1)), S)


def euler(e, dp, dr, s, x):
    """expected residuals of the arbitrage equations at controls x (n_m, N, n_x) of today, with the rule dr tomorrow"""
    out = np.zeros(x.shape)
    tot = 0
    for i in range(dp.n_nodes):
        m = np.tile(dp.node(i), (len(s), 1))
        for j in range(dp.n_inodes(i)):
            M = np.tile(dp.inode(i, j), (len(s), 1))
            S = e.g(m, s, x[i], M)
            X = future(dr, dp, i, j, S)
            out[i] += dp.iweight(i, j) * e.f(m, s, x[i], M, S, X)
    return out


def mcp(r, x, lb, ub):
    """zero iff x solves the complementarity problem lb <= x <= ub, r"""
    return np.maximum(np.minimum(r, x - lb), x - ub)
