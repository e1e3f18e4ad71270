"""C35 verbosity, traces, details and interruptions"""
import contextlib
import importlib
import io
import re
import warnings
import numpy as np
from pbt import *
from pbt.gen import *
from pbt.econ import economy, Economy, euler, mcp
from checks import C23, C24, C26, C25
from checks.C23 import values

from dolo.algos.results import AlgoResult
from dolo.numeric.decision_rule import DecisionRule

mod = lambda n: importlib.import_module("dolo." + n)
ti, iti = mod("algos.time_iteration").time_iteration, mod("algos.improved_time_iteration").improved_time_iteration
vi, egm = mod("algos.value_iteration"), mod("algos.egm").egm
perturb, psolve = mod("algos.perturbation").perturb, mod("algos.perfect_foresight").deterministic_solve
newton, ncpsolve = mod("numeric.optimize.newton"), mod("numeric.optimize.ncpsolve").ncpsolve
lmmcp = mod("numeric.extern.lmmcp").lmmcp

suite = Suite(
    "C35",
    "The generated economies, guesses and options of the other solution algorithms, limits on the number of iterations, and generated systems"
    " of equations with and without bounds, each solved several times: silently, with the table of iterations, with full verbosity, with and"
    " without trace and details, in one go or interrupted and started again from where it stopped. Non-trivial = several iterations.",
)


def quiet(fun, *a, **k):
    """-> result, lines printed"""
    out = io.StringIO()
    with warnings.catch_warnings(), contextlib.redirect_stdout(out):
        warnings.simplefilter("ignore")
        r = fun(*a, **k)
    return r, out.getvalue().split("\n") if out.getvalue() else []


NUM = r"\s*(\S+)\s*"


def rows(lines):
    """rows of a table of iterations, as lists of numbers"""
    out = []
    for l in lines:
        if re.match(r"^\|\s*\d+ \|", l):
            out.append([float(v) for v in l.strip("|").split("|")])
    return out


def title(lines):
    for l in lines:
        if re.match(r"^\|\s*N\s*\|", l):
            return [w.strip() for w in l.strip("|").split("|")]
    expect(False, f"no headings among {lines[:5]}")


def silent(lines, what):
    expect(not lines, f"{what}: printed {lines[:3]} though not verbose")


def exactly(a, b, msg):
    a, b = np.asarray(a, float), np.asarray(b, float)
    expect(a.shape == b.shape, f"{msg}: shapes {a.shape} {b.shape}")
    # (identical, up to rounding errors which may depend on where arrays lie in memory)
    close(a, b, 1e-9, 1e-11, msg)


def same3(a, b, msg):
    """printed with four significant digits"""
    a, b = float(a), float(b)
    expect((np.isnan(a) and np.isnan(b)) or a == b or abs(a - b) <= 1.01e-3 * abs(b), f"{msg}: {a} printed, {b} expected")


def eco(c):
    e = Economy(c["e"])
    if e.fwd:
        a, v = e.roots()
        if a.max() > 0.95 or v.min() < 1.2:
            reject("roots")
    model = e.load(orders=c["orders"][: len(e.S)])
    return e, model


@st.composite
def case(draw, of):
    return dict(
        c=draw(of(bounds=("none", "mixed", "state"), quad=(0.0, 0.05))), n=draw(st.integers(1, 6)), k=draw(st.integers(1, 4)),
        inner=draw(st.sampled_from([1, 2, 30, 30])), back=draw(st.sampled_from([1, 3, 10, 10])), inv=draw(st.sampled_from([1, 5, 500, 500])),
    )


def attempt(fun, *a, **k):
    try:
        return quiet(fun, *a, **k)
    except Exception as ex:
        if "solving point" in str(ex) or "ingular" in str(ex):
            reject("no solution at a node")
        raise


def start(c, e, kw, s, dp):
    """initial guess at the nodes"""
    n = dp.n_nodes
    if "dr0" not in kw:
        return np.tile(e.xb, (n, len(s), 1))
    d0 = kw["dr0"]
    d0 = d0.dr if isinstance(d0, AlgoResult) else d0
    if isinstance(d0, DecisionRule):
        return values(d0, dp, s)
    return np.array([d0(dp.node(i), s) for i in range(n)])


def guess(c, e, model, kw, s, dp):
    """-> the guess at the nodes, as an interpolated rule, residuals"""
    x = start(c, e, kw, s, dp)
    dr = DecisionRule(dp.grid, model.discretize()[0]["endo"], dprocess=dp, interp_method=c["method"])
    dr.set_values(x)
    return x, dr, euler(e, dp, dr, s, x)


@suite.sub(case(C23.case), quick=36, shards=4)
def time_iterations(q):
    c = q["c"]
    e, model = eco(c)
    kw, s, dp = C23.options(c, e, model)
    kw["maxit"] = q["n"]
    kw["inner_maxit"] = q["inner"]
    res, lines = attempt(ti, model, verbose=False, **kw)
    silent(lines, "time_iteration")
    x = values(res.dr, dp, s)
    if not np.isfinite(x).all() or np.abs(x).max() > 1e3:
        reject("diverges")
    expect(1 <= res.iterations <= q["n"], f"{res.iterations} iterations, at most {q['n']} asked for")
    expect(res.iterations == q["n"] or res.err <= c["tol"], f"stopped after {res.iterations} iterations with error {res.err}")
    expect(bool(res.x_converged) == bool(res.err < c["tol"]), "convergence")
    expect(res.trace is None, "no trace unless there is one")
    # printing
    count = []
    loud, lines = attempt(ti, model, verbose=True, trace=True, hook=lambda: count.append(1), **kw)
    exactly(values(loud.dr, dp, s), x, "rule, when iterations are printed")
    exactly([loud.iterations, loud.err, loud.x_converged, loud.complementarities], [res.iterations, res.err, res.x_converged, res.complementarities], "results, when iterations are printed")
    expect(len(count) == res.iterations, f"hook called {len(count)} times in {res.iterations} iterations")
    expect(len(loud.trace) == res.iterations + 1, f"{len(loud.trace)} rules in the trace of {res.iterations} iterations")
    steps = [values(t["dr"], dp, s) for t in loud.trace]
    exactly(steps[-1], x, "last rule of the trace")
    close(steps[0], start(c, e, kw, s, dp), 0, 1e-8, "iterations start from the given rule")
    err = [np.abs(b - a).max() for a, b in zip(steps, steps[1:])]
    tab, head = rows(lines), title(lines)
    expect([t[0] for t in tab] == list(range(1, res.iterations + 1)), f"rows {[t[0] for t in tab]} for {res.iterations} iterations")
    i, g = head.index("Error"), head.index("Gain")
    nit = [t[head.index("nit")] for t in tab]
    expect(all(0 <= k <= q["inner"] for k in nit), f"{nit} inner iterations, at most {q['inner']} asked for")
    same3(tab[-1][i], res.err, "last error")
    for n, t in enumerate(tab):
        if err[n] > 1e-10:
            expect(abs(t[i] - err[n]) <= 2e-3 * err[n] + 1e-12, f"error of iteration {n+1}: {t[i]} printed, {err[n]} in the trace")
            if n and err[n - 1] > 1e-10:
                expect(abs(t[g] - err[n] / err[n - 1]) <= 2e-3 * err[n] / err[n - 1], f"gain of iteration {n+1}: {t[g]} printed, {err[n] / err[n - 1]} in the trace")
    full, lines = attempt(ti, model, verbose="full", **kw)
    exactly(values(full.dr, dp, s), x, "rule, when everything is printed")
    expect(len(rows(lines)) == res.iterations, "rows, when everything is printed")
    bare, lines = attempt(ti, model, verbose=False, details=False, **kw)
    silent(lines, "time_iteration, no details")
    expect(not isinstance(bare, AlgoResult), "a rule is returned when details are not requested")
    exactly(values(bare, dp, s), x, "rule, without details")
    kw2 = {k: v for k, v in kw.items() if k != "ignore_constraints"}
    old, _ = attempt(ti, model, verbose=False, with_complementarities=not c["ign"], **kw2)
    exactly(values(old.dr, dp, s), x, "rule, with the former option for constraints")
    # interruption
    if res.iterations == q["n"]:
        more = q["k"]
        go, _ = attempt(ti, model, verbose=False, **{**kw, "maxit": q["n"] + more})
        stop, _ = attempt(ti, model, verbose=False, **{**kw, "maxit": more, "dr0": res if q["k"] % 2 else res.dr})
        a, b = values(go.dr, dp, s), values(stop.dr, dp, s)
        if np.isfinite(a).all() and np.abs(a).max() < 1e3 and go.iterations == q["n"] + stop.iterations:
            # (equations are solved up to tolerances at each iteration)
            close(b, a, 1e-6, 1e-5, "interrupted iterations resume where they stopped")
            label("resumed")
    return res.iterations > 1


@suite.sub(case(C24.icase), quick=36, shards=4)
def improved_time_iterations(q):
    c = q["c"]
    e, model, kw, s, dp = C24.setting(c)
    kw.pop("inner_maxit", None)
    kw["maxit"] = q["n"]
    kw["invmethod"] = c["inv"]
    kw["maxbsteps"], kw["smaxit"] = q["back"], q["inv"]
    res, lines = attempt(iti, model, verbose=False, **kw)
    silent(lines, "improved_time_iteration")
    x = values(res.dr, dp, s)
    if not np.isfinite(x).all() or np.abs(x).max() > 1e3:
        reject("diverges")
    expect(0 <= res.N < q["n"], f"{res.N} iterations, at most {q['n']} asked for")
    expect(bool(res.x_converged) == bool(res.f_x < c["tol"]), "convergence")
    expect(res.N == q["n"] - 1 or res.x_converged, "stops before the last iteration only if it has converged")
    bnd = "arbitrage_lb" in model.functions
    expect(bool(res.complementarities) == (bnd and not c["ign"]), "complementarities")
    loud, lines = attempt(iti, model, verbose=True, **kw)
    exactly(values(loud.dr, dp, s), x, "rule, when iterations are printed")
    exactly([loud.N, loud.f_x, loud.d_x, loud.x_converged], [res.N, res.f_x, res.d_x, res.x_converged], "results, when iterations are printed")
    tab, head = rows(lines), title(lines)
    expect([t[0] for t in tab] == list(range(res.N + 1)), f"rows {[t[0] for t in tab]} for {res.N + 1} iterations")
    expect(all(0 <= t[head.index("N_search")] < q["back"] for t in tab), f"at most {q['back']} attempts asked for")
    expect(c["inv"] != "iti" or all(0 <= t[head.index("N_invert")] < q["inv"] for t in tab), f"at most {q['inv']} steps of inversions asked for")
    same3(tab[-1][head.index("f_x")], res.f_x, "last residual")
    same3(tab[-1][head.index("d_x")], res.d_x, "last step")
    full, lines = attempt(iti, model, verbose="full", **kw)
    exactly(values(full.dr, dp, s), x, "rule, when everything is printed")
    tab2 = rows(lines)
    if c["inv"] == "iti":
        n, inner = 0, []
        for l in lines:
            if l.startswith("- "):
                n += 1
            elif re.match(r"^\|\s*\d+ \|", l):
                inner.append(n)
                n = 0
        expect([t[head.index("N_invert")] for t in tab2] == [n - 1 for n in inner], "steps of the inversions")
    bare, lines = attempt(iti, model, verbose=False, details=False, **kw)
    silent(lines, "improved_time_iteration, no details")
    expect(not isinstance(bare, AlgoResult), "a rule is returned when details are not requested")
    exactly(values(bare, dp, s), x, "rule, without details")
    kw2 = {k: v for k, v in kw.items() if k != "ignore_constraints"}
    old, _ = attempt(iti, model, verbose=False, complementarities=not c["ign"], **kw2)
    exactly(values(old.dr, dp, s), x, "rule, with the former option for constraints")
    # residuals of the first row are those of the guess, residuals at each step are those of the previous result
    one, _ = attempt(iti, model, verbose=False, **{**kw, "maxit": 1})
    same3(tab[0][head.index("f_x")], one.f_x, "first residual")
    if not res.complementarities:
        r0 = np.abs(guess(c, e, model, kw, s, dp)[2]).max()
        if np.isfinite(r0):
            close(one.f_x, r0, 1e-6, 1e-6, "first residual is that of the given rule")
            label("first residual")
    if not res.x_converged:
        go, _ = attempt(iti, model, verbose=False, **{**kw, "maxit": q["n"] + q["k"]})
        stop, _ = attempt(iti, model, verbose=False, **{**kw, "maxit": q["k"], "dr0": res if q["k"] % 2 else res.dr})
        a, b = values(go.dr, dp, s), values(stop.dr, dp, s)
        if np.isfinite(a).all() and np.abs(a).max() < 1e3 and go.N == q["n"] + stop.N:
            close(b, a, 1e-5, 1e-5, "interrupted iterations resume where they stopped")
            close(stop.f_x, go.f_x, 1e-3, 1e-5, "interrupted iterations resume where they stopped")
            label("resumed")
    return res.N > 0


@suite.sub(C26.case(val=("linear2", "lq", "target"), bounds=("loose", "mixed")), quick=30, shards=3)
def policy_values(c):
    """evaluation of policies"""
    e, model = eco(c)
    grid, dp = model.discretize()
    s = grid["endo"].nodes
    r = rs(c["seed"])
    dr = DecisionRule(dp.grid, grid["endo"], dprocess=dp, interp_method="linear")
    dr.set_values(np.array([e.rule(dp.node(i), s) for i in range(dp.n_nodes)]) + 0.1 * r.randn(dp.n_nodes, len(s), len(e.X)))
    kw = dict(tol=c["tol"], maxit=[1, 2, 5, 20, 3000][c["seed"] % 5], interp_method=c["method"])
    if c["guess"] == "values":
        d0 = DecisionRule(dp.grid, grid["endo"], dprocess=dp, interp_method=c["method"])
        d0.set_values(r.randn(dp.n_nodes, len(s), e.nv))
        kw["dr0"] = d0
    out, lines = quiet(vi.evaluate_policy, model, dr, verbose=False, details=True, **kw)
    silent(lines, "evaluate_policy")
    v = values(out.solution, dp, s)
    if not np.isfinite(v).all() or np.abs(v).max() > 1e6:
        reject("extrapolation")
    expect(1 <= out.iterations <= kw["maxit"], f"{out.iterations} iterations, at most {kw['maxit']} asked for")
    expect(out.iterations == kw["maxit"] or out.error <= c["tol"], f"stopped after {out.iterations} iterations with error {out.error}")
    expect(out.tol == c["tol"], "tolerance")
    loud, lines = quiet(vi.evaluate_policy, model, dr, verbose=True, details=True, **kw)
    exactly(values(loud.solution, dp, s), v, "values, when iterations are printed")
    exactly([loud.iterations, loud.error], [out.iterations, out.error], "results, when iterations are printed")
    tab, head = rows(lines), title(lines)
    expect([t[0] for t in tab] == list(range(1, out.iterations + 1)), f"rows {[t[0] for t in tab]} for {out.iterations} iterations")
    same3(tab[-1][head.index("Error")], out.error, "last error")
    for a, b in zip(tab, tab[1:]):
        g = b[1] / a[1] if a[1] else np.nan
        if np.isfinite(g) and g < 1e3:
            expect(abs(b[head.index("Gain")] - g) <= 2e-3 * g + 1e-3, f"gain {b[head.index('Gain')]} printed, {g} expected")
    bare, lines = quiet(vi.evaluate_policy, model, dr, verbose=False, **kw)
    silent(lines, "evaluate_policy, no details")
    exactly(values(bare, dp, s), v, "values, without details")
    # the error is the distance between values and the right-hand side of the recursion
    x = values(dr, dp, s)
    w = C26.recursion(e, dp, s, x, dr, out.solution)
    d = np.abs(w - v).max()
    expect(abs(d - out.error) <= 1e-5 * (1 + np.abs(v).max()) + 1e-3 * d, f"error {out.error} reported, {d} recomputed")
    return out.iterations > 2


@suite.sub(C26.case(val=("target", "lq"), bounds=("mixed", "loose")), quick=12, shards=4)
def value_iterations(c):
    c["e"]["beta"] = min(c["e"]["beta"], 0.9)
    e = Economy(c["e"])
    model = e.load(orders=[3] * len(e.S))
    grid, dp = model.discretize()
    s = grid["endo"].nodes
    kw = dict(maxit=1 + c["seed"] % 3, tol=1e-6)
    res, lines = quiet(vi.value_iteration, model, verbose=False, **kw)
    silent(lines, "value_iteration")
    x, v = values(res.dr, dp, s), values(res.drv, dp, s)
    expect(1 <= res.iterations <= kw["maxit"], "iterations")
    loud, lines = quiet(vi.value_iteration, model, verbose=True, **kw)
    exactly(values(loud.dr, dp, s), x, "rule, when iterations are printed")
    exactly(values(loud.drv, dp, s), v, "values, when iterations are printed")
    tab, head = rows(lines), title(lines)
    expect([t[0] for t in tab] == list(range(1, res.iterations + 1)), f"rows {[t[0] for t in tab]} for {res.iterations} iterations")
    same3(tab[-1][head.index("Error_V")], res.v_err, "last error on values")
    same3(tab[-1][head.index("Error_x")], res.x_err, "last error on controls")
    bare, lines = quiet(vi.value_iteration, model, verbose=False, details=False, **kw)
    silent(lines, "value_iteration, no details")
    expect(not isinstance(bare, AlgoResult) and len(bare) == 2, "two rules are returned when details are not requested")
    exactly(values(bare[0], dp, s), x, "rule, without details")
    exactly(values(bare[1], dp, s), v, "values, without details")
    expect(bool(res.x_converged) == bool(res.x_err < res.x_tol) and bool(res.v_converged) == bool(res.v_err < res.v_tol), "convergence")
    return res.iterations > 1


@suite.sub(C25.case(), quick=60, shards=3)
def egm_iterations(c):
    model = C25.model_of(c["kind"], 12)
    model.set_calibration(**{k: c[k] for k in ("beta", "gam", "r", "cbar", "amin", "tau", "kap", "q")})
    grid, dp = model.discretize()
    s = grid["endo"].nodes
    a = c["amin"] + c["amax"] * np.linspace(0, 1, c["na"]) ** c["curve"]
    kw = dict(a_grid=a, maxit=c["maxit"], η_tol=c["tol"])
    iid = "iid" in c["kind"]
    val = lambda dr: np.array([dr.eval_s(s) if iid else dr.eval_is(i, s) for i in range(dp.n_nodes)])
    res, lines = quiet(egm, model, **kw)
    silent(lines, "egm")
    loud, lines = quiet(egm, model, verbose=True, **kw)
    exactly(val(loud.dr), val(res.dr), "rule, when iterations are printed")
    exactly([loud.iterations, loud.err], [res.iterations, res.err], "results, when iterations are printed")
    tab, head = rows(lines), title(lines)
    expect([t[0] for t in tab] == list(range(res.iterations + 1)), f"rows {[t[0] for t in tab]} for {res.iterations} iterations")
    same3(tab[-1][head.index("Error")], res.err, "last error")
    expect(0 <= res.iterations < c["maxit"], "iterations")
    expect(bool(res.a_converged) == bool(res.err < c["tol"]), "convergence")
    expect(res.iterations == c["maxit"] - 1 or res.a_converged, "stops before the last iteration only if it has converged")
    bare, lines = quiet(egm, model, details=False, **kw)
    silent(lines, "egm, no details")
    exactly(val(bare), val(res.dr), "rule, without details")
    return res.iterations > 2


@st.composite
def local(draw):
    return dict(
        e=draw(economy(ns=2, nx=2, ne=2, procs=("iid", "var1"), quad=(0.0, 0.05), bounds=("none", "mixed", "loose"), G=None, shock=0.1)),
        seed=draw(seeds), T=draw(st.integers(2, 20)), maxit=draw(st.integers(1, 10)), solver=draw(st.sampled_from(["ncpsolve", "ncpsolve", "lmmcp"])),
    )


@suite.sub(local(), quick=40, shards=3)
def others(c):
    """perturbation and perfect foresight"""
    e = Economy(c["e"])
    model = e.load()
    r = rs(c["seed"])
    a, v = e.roots()
    if a.max() > 0.95 or v.min() < 1.2:
        reject("roots")
    res, lines = quiet(perturb, model, verbose=False)
    silent(lines, "perturb")
    loud, _ = quiet(perturb, model, verbose=True)
    bare, lines = quiet(perturb, model, verbose=False, details=False)
    silent(lines, "perturb, no details")
    at = (e.mb + 0.1 * r.randn(len(e.E)), e.sb + 0.1 * r.randn(len(e.S)))
    for d in (loud.dr, bare):
        exactly(d(*at), res.dr(*at), "first-order rule")
    T = c["T"] if c["solver"] == "ncpsolve" else min(c["T"], 5)
    kw = dict(T=T, s0=e.sb + 0.2 * r.randn(len(e.S)), tol=1e-6, solver=c["solver"])
    direct = c["solver"] == "ncpsolve" or "arbitrage_lb" not in model.functions
    if direct:
        kw["maxit"] = c["maxit"]
    try:
        one, lines = attempt(psolve, model, verbose=False, **kw)
    except Exception as ex:
        if not direct and "No convergence" in str(ex):
            reject("no convergence")
        raise
    silent(lines, "deterministic_solve")
    two, lines = attempt(psolve, model, verbose=True, **kw)
    exactly(one.values, two.values, "path, when iterations are printed")
    expect(list(one.columns) == list(two.columns) and list(one.index) == list(two.index), "path, when iterations are printed")
    expect(len(lines) > 0, "iterations are printed")
    if direct:
        steps = [l for l in lines if l.startswith("\t>")]
        n = len(steps)
        expect([int(l.split()[1]) for l in steps] == list(range(1, n + 1)) and n <= c["maxit"], f"steps {steps}")
        done = [l for l in lines if "solved" in l]
        if done:
            expect(len(done) == 1 and f"iteration {n}." in done[0], f"{done} after {n} iterations")
            expect(float(done[0].split("=")[1]) < 1e-6, f"{done}, tolerance 1e-6")
        else:
            expect(n == c["maxit"], f"stopped after {n} iterations without success, limit {c['maxit']}")
    label(c["solver"])
    return True


@st.composite
def system(draw):
    return dict(
        N=draw(st.integers(1, 6)), n=draw(st.integers(1, 3)), seed=draw(seeds), kind=draw(st.sampled_from(["newton", "ncpsolve", "lmmcp"])),
        maxit=draw(st.integers(1, 12)), cub=draw(fl(0, 1, 2)), tol=draw(st.sampled_from([1e-4, 1e-6, 1e-8])), jac=draw(st.sampled_from(["serial", "full"])),
    )


@suite.sub(system(), quick=300, shards=2)
def systems(c):
    """solvers of systems"""
    r = rs(c["seed"])
    N, n = (c["N"], c["n"]) if c["jac"] == "serial" and c["kind"] != "lmmcp" else (1, c["N"] * c["n"])
    A = np.eye(n) * 2 + 0.5 * r.randn(N, n, n) / np.sqrt(n)
    y = r.randn(N, n)

    def F(x):
        x = x.reshape(N, n)
        d = x - y
        v = np.einsum("kij,kj->ki", A, d) + c["cub"] * d**3
        J = A + 3 * c["cub"] * np.einsum("ki,ij->kij", d**2, np.eye(n))
        return v, J

    flat = c["jac"] == "full" or c["kind"] == "lmmcp"
    f = (lambda x: (F(x)[0][0], F(x)[1][0])) if flat else F
    x0 = y + r.randn(N, n)
    lb, ub = y - r.choice([0.5, -0.2, 20], (N, n)), y + r.choice([0.5, 20], (N, n))
    if flat:
        x0, lb, ub = x0[0], lb[0], ub[0]
    if c["kind"] == "newton":
        go = lambda verb: newton.newton(f, x0, verbose=verb, tol=c["tol"], maxit=c["maxit"], jactype=c["jac"])
    elif c["kind"] == "ncpsolve":
        go = lambda verb: ncpsolve(f, lb, ub, x0, verbose=verb, tol=c["tol"], maxit=c["maxit"], jactype=c["jac"])
    else:
        go = lambda verb: (lmmcp(lambda x: f(x)[0], lambda x: f(x)[1], x0.copy(), lb, ub, verbose=verb), None)
    keep = x0.copy()
    try:
        (x, it), lines = quiet(go, False)
    except np.linalg.LinAlgError:
        reject("singular")
    silent(lines, c["kind"])
    exactly(x0, keep, "the starting point is left alone")
    (x2, it2), lines = quiet(go, True)
    exactly(x, x2, "solution, when iterations are printed")
    label(c["kind"])
    if c["kind"] == "lmmcp":
        expect(len(lines) > 3, "iterations are printed")
        return True
    expect(it == it2, "number of iterations, when they are printed")
    steps = [l.split() for l in lines if l.startswith("\t>")]
    expect([int(l[1]) for l in steps] == list(range(1, it + 1)), f"steps {[l[1] for l in steps]} printed, {it} reported")
    done = [l for l in lines if "solved" in l]
    if c["kind"] == "newton":
        res = np.abs(f(x)[0]).max()
        if steps:
            close(float(steps[-1][3]), res, 1e-9, 1e-12, "last residual")
        if done:
            close(float(done[0].split("=")[1]), res, 1e-9, 1e-12, "residual at the solution")
    if done:
        expect(len(done) == 1 and f"iteration {it}." in done[0], f"{done} after {it} iterations")
        expect(float(done[0].split("=")[1]) < c["tol"], f"{done}, tolerance {c['tol']}")
    else:
        expect(it == c["maxit"], f"{it} iterations, no success printed, at most {c['maxit']}")
    return it > 1
