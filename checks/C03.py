"""C03 calibration"""
import numpy as np
from pbt import *
from pbt.gen import *
from pbt.models import *
from pbt.models import _leaf

suite = Suite(
    "C03",
    "Model files with random triangular calibrations in random order, then random histories of set_calibration calls"
    " interleaved with reads; every read is compared with a direct evaluation of the current expressions;"
    " non-trivial = a read after a change that affects a symbol through at least one other expression, or an"
    " expression written before the symbols it refers to.",
)


@st.composite
def calibrated(draw, **kw):
    spec = draw(model_spec(depth=1, maxn=2, bounds="none", ndefs=2, **kw))
    sym = spec["sym"]
    names = sum(sym.values(), [])
    defs = dict(spec["defs"])
    extra = ["zz1", "zz2"]
    order = draw(st.permutations(names + extra))
    # positive numbers first, then expressions of what precedes
    nnum = draw(st.integers(2, len(order)))
    entries, pos, seen = [], [], []
    plain = sorted({n for _, e in spec["defs"] for (n, _) in [a for a in atoms(e) if isinstance(a, tuple)]} |
                   {a for _, e in spec["defs"] for a in atoms(e) if isinstance(a, str)})
    order = [n for n in order if n in plain] + [n for n in order if n not in plain]
    nnum = max(nnum, len([n for n in order if n in plain]))
    for k, n in enumerate(order):
        if k < nnum:
            entries.append([n, ["n", draw(st.one_of(fl(0.1, 3, 4), st.integers(1, 4).map(float), st.just(1e-5)))]])
            pos.append(["p", n])
            seen.append(["p", n])
        else:
            e = draw_expr(draw, seen + [["p", d] for d in defs], pos, draw(st.integers(0, 2)))
            entries.append([n, e])
            seen.append(["p", n])
    for d in defs:  # a definition may also be given a calibrated value
        if draw(st.integers(0, 4)) == 0:
            entries.append([d, ["n", draw(fl(0.1, 2, 3))]])
    entries = draw(st.permutations(entries))
    s = sym["states"]
    dom = [[draw_expr(draw, seen, pos, 1), draw_expr(draw, seen, pos, 1)] for _ in s]
    sig = draw(st.sampled_from(pos))
    omitted = draw(st.lists(st.sampled_from(names), max_size=2)) if draw(st.booleans()) else []
    # nobody may refer to an omitted symbol
    used = set().union(*[atoms(e) for _, e in entries] + [set(plain)] + [atoms(e) for d in dom for e in d] + [atoms(sig)])
    omitted = [n for n in omitted if n not in used]
    entries = [e for e in entries if e[0] not in omitted]
    return dict(spec=spec, entries=[list(e) for e in entries], pos=[p[1] for p in pos], dom=dom, sig=sig)


def untimed(e):
    "names only"
    if e[0] == "v":
        return ["p", e[1]]
    return [e[0]] + [untimed(x) if isinstance(x, list) else x for x in e[1:]]


def solve(spec, entries):
    """-> {name: value}"""
    cur = {n: e for n, e in entries}
    for n, e in spec["defs"]:
        cur.setdefault(n, untimed(e))
    for g, ns in spec["sym"].items():
        for n in ns:
            cur.setdefault(n, ["n", 0.0 if g == "exogenous" else float("nan")])
    out = {}

    def get(n):
        if n not in out:
            out[n] = value(cur[n], _Env(get))
        return out[n]

    for n in cur:
        get(n)
    return out


class _Env:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, k):
        return self.f(k)


def check_calibration(m, spec, vals):
    c = m.calibration
    groups = dict(spec["sym"])
    if spec["defs"]:
        groups["auxiliaries"] = [n for n, _ in spec["defs"]]
    for g, ns in groups.items():
        ref = np.array([vals[n] for n in ns])
        close(c[g], ref, 1e-10, 1e-12, f"calibration of {g}")
        for n in ns:
            close(c[n], vals[n], 1e-10, 1e-12, f"calibration of {n}")
        if ns:
            try:
                c[g][0] = 12345.0
            except ValueError:
                pass
            close(c[g], ref, 1e-10, 1e-12, f"calibration of {g} after an attempt to modify a vector")
    flat = c.flat
    for n in sum(groups.values(), []):
        close(flat[n], vals[n], 1e-10, 1e-12, f"calibration of {n} (flat)")
    close(c["actions"], c["controls"], 0, 0, "actions are controls")
    a, b = c["parameters", "states"]
    close(a, [vals[n] for n in groups["parameters"]], 1e-10, 1e-12, "several groups")
    close(b, [vals[n] for n in groups["states"]], 1e-10, 1e-12, "several groups")
    n1, n2 = groups["parameters"][0], groups["states"][-1]
    close(c[n1, n2], [vals[n1], vals[n2]], 1e-10, 1e-12, "several names")


def check_domain(m, c, vals):
    d = m.domain
    for k, n in enumerate(c["spec"]["sym"]["states"]):
        ref = [value(e, vals) for e in c["dom"][k]]
        close(d[n], ref, 1e-10, 1e-12, f"domain of {n}")
    close(d.min, [value(e[0], vals) for e in c["dom"]], 1e-10, 1e-12, "lower bounds")
    close(d.max, [value(e[1], vals) for e in c["dom"]], 1e-10, 1e-12, "upper bounds")


def check_grid(m, c, vals):
    g = m.endo_grid
    close(np.array(g.min), [value(e[0], vals) for e in c["dom"]], 1e-10, 1e-12, "lower bounds of the grid")
    close(np.array(g.max), [value(e[1], vals) for e in c["dom"]], 1e-10, 1e-12, "upper bounds of the grid")


def check_exo(m, c, vals):
    n = len(c["spec"]["sym"]["exogenous"])
    e = m.exogenous
    S = np.array(e.Σ) if n > 1 else np.array([[float(e.σ) ** 2]])
    close(S, np.eye(n) * value(c["sig"], vals) ** 2, 1e-10, 1e-14, "covariance of the shocks")


def check_residuals(m, c, vals):
    spec = c["spec"]
    env = dict(vals)
    for g, ns in spec["sym"].items():
        for n in ns:
            for t in (-1, 0, 1):
                env[(n, t)] = np.float64(vals[n])
    r = m.residuals()
    s = np.array([vals[n] for n in spec["sym"]["states"]])
    with np.errstate(all="ignore"):
        ra, rt = block_value(spec, "arbitrage", env), block_value(spec, "transition", env) - s
    close(r["arbitrage"] / (1 + np.abs(ra)), ra / (1 + np.abs(ra)), 1e-8, 1e-9, "residuals of arbitrage")
    close(r["transition"] / (1 + np.abs(rt)), rt / (1 + np.abs(rt)), 1e-8, 1e-9, "residuals of transition")


CHECKS = dict(
    calibration=lambda m, c, v: check_calibration(m, c["spec"], v),
    domain=check_domain, grid=check_grid, exogenous=check_exo,
)


def text_of(c):
    spec = c["spec"]
    cal = [[n, show(e) if e[0] != "n" else e[1]] for n, e in c["entries"]]
    sg = show(c["sig"])
    n = len(spec["sym"]["exogenous"])
    if n == 1:
        exo = f"exogenous: !UNormal\n    sigma: {sg}\n"
    else:
        rows = ", ".join("[" + ", ".join(f"{sg}^2" if i == j else "0" for j in range(n)) + "]" for i in range(n))
        exo = f"exogenous: !Normal\n    Sigma: [{rows}]\n"
    dom = "domain:\n" + "".join(
        f"    {s}: [{show(a)}, {show(b)}]\n" for s, (a, b) in zip(spec["sym"]["states"], c["dom"]))
    opt = f"options:\n    grid: !Cartesian\n        orders: {[3] * len(spec['sym']['states'])}\n"
    return render(spec, calib=cal, extra=exo + "\n" + dom + "\n" + opt)


def forward_reference(c):
    seen = set()
    for n, e in c["entries"]:
        if any(a not in seen for a in atoms(e)):
            return True
        seen.add(n)
    return False


@suite.sub(calibrated(optional=["value", "expectation", "felicity"]), quick=160, thorough=2000, shards=4)
def resolution(c):
    m = load(text_of(c), check=False)
    vals = solve(c["spec"], c["entries"])
    for f in CHECKS.values():
        f(m, c, vals)
    return forward_reference(c)


@st.composite
def history(draw):
    c = draw(calibrated())
    ops = []
    ent = [n for n, _ in c["entries"]]
    num = [n for n in ent if n in c["pos"]]
    # symbols which the file does not calibrate may be given a value too
    every = ent + [n for n in sum(c["spec"]["sym"].values(), []) + [d for d, _ in c["spec"]["defs"]] if n not in ent]
    for _ in range(draw(st.integers(1, 8))):
        if draw(st.booleans()):
            ops.append(["read", draw(st.sampled_from(sorted(CHECKS) + ["residuals"]))])
        else:
            ch = []
            for n in draw(st.lists(st.sampled_from(every), min_size=1, max_size=3, unique=True)):
                if n not in c["pos"] and draw(st.booleans()):
                    # another expression of the constants of the file
                    ch.append([n, draw_expr(draw, [["p", q] for q in num if q != n] or [["n", 1.0]],
                                            [["p", q] for q in num if q != n], 2)])
                else:
                    ch.append([n, ["n", draw(st.one_of(fl(0.1, 3, 4), st.integers(1, 3)))]])
            ops.append(["set", draw(st.sampled_from(["kw", "dict", "numpy", "both"])), ch])
    return dict(c=c, ops=ops)


def write(m, entries, how, changes):
    for n, e in changes:
        if n not in [k[0] for k in entries]:
            entries.append([n, e])
        for k in entries:
            if k[0] == n:
                k[1] = e
    new = {}
    for n, e in changes:
        v = show(e) if e[0] != "n" else e[1]
        if how == "numpy" and isinstance(v, float):
            v = np.float64(v)
        new[n] = v
    if how == "dict":
        m.set_calibration(new)
    elif how == "both":
        # a dictionary and keywords in the same call
        k = (len(new) + 1) // 2
        first, rest = dict(list(new.items())[:k]), dict(list(new.items())[k:])
        if not rest:
            first, rest = {}, first
        m.set_calibration(first, **rest)
    else:
        m.set_calibration(**new)


@suite.sub(history(), quick=120, thorough=1500, shards=8)
def histories(c):
    ops, c = c["ops"], c["c"]
    compiled = ["read", "residuals"] in ops
    m = load(text_of(c), check=compiled)
    entries = [list(e) for e in c["entries"]]
    changed = set()
    old = m.calibration
    before = solve(c["spec"], entries)
    effective = False
    for op in ops:
        if op[0] == "set":
            write(m, entries, op[1], op[2])
            changed.update(n for n, _ in op[2])
        else:
            vals = solve(c["spec"], entries)
            if op[1] == "residuals":
                check_residuals(m, c, vals)
            else:
                CHECKS[op[1]](m, c, vals)
            label("read " + op[1] + (" after a change" if changed else ""))
            effective |= any(
                not np.isclose(vals[n], before[n], equal_nan=True) and n not in changed for n in vals)
    vals = solve(c["spec"], entries)
    for f in CHECKS.values():
        f(m, c, vals)
    # calibrations read earlier are not changed retroactively
    for g, ns in c["spec"]["sym"].items():
        close(old[g], [before[n] for n in ns], 1e-10, 1e-12, f"{g} in a calibration read before the changes")
    effective |= any(not np.isclose(vals[n], before[n], equal_nan=True) and n not in changed for n in vals)
    return effective
