"""Generated models: expression trees, their independent evaluation, and model files.

An expression is a JSON list
    ["n", x]  ["p", name]  ["v", name, date]
    ["+"|"-"|"*"|"/"|"^", a, b]   ["neg", a]   ["f", function, a]
Divisors, powers and logarithms are only applied to leaves; leaves are positive
(variables and parameters are given positive values), except definitions.
"""
import json, os, tempfile
import numpy as np
from .core import *
from . import gen
from hypothesis import strategies as st

FUNS = {"exp": np.exp, "log": np.log, "sin": np.sin, "cos": np.cos}

# dates are relative to t
BLOCKS = {
    # block: (target group or None, [(argument group, date)], date of the definitions available, recursive)
    "arbitrage": (None, [("exogenous", 0), ("states", 0), ("controls", 0), ("exogenous", 1), ("states", 1), ("controls", 1)], [0, 1], False),
    "transition": ("states", [("exogenous", -1), ("states", -1), ("controls", -1), ("exogenous", 0)], [-1], False),
    "value": ("values", [("exogenous", 0), ("states", 0), ("controls", 0), ("values", 0), ("exogenous", 1), ("states", 1), ("controls", 1), ("values", 1)], [0, 1], False),
    "expectation": ("expectations", [("exogenous", 1), ("states", 1), ("controls", 1)], [1], False),
    "half_transition": ("states", [("exogenous", -1), ("poststates", -1), ("exogenous", 0)], [], False),
    "direct_response_egm": ("controls", [("exogenous", 0), ("poststates", 0), ("expectations", 0)], [], True),
    "reverse_state": ("states", [("exogenous", 0), ("poststates", 0), ("controls", 0)], [], True),
    "direct_response": ("controls", [("exogenous", 0), ("states", 0), ("expectations", 0)], [], True),
    "felicity": ("rewards", [("exogenous", 0), ("states", 0), ("controls", 0)], [0], False),
}
BOUND_ARGS = [("exogenous", 0), ("states", 0)]
AUX_ARGS = [("exogenous", 0), ("states", 0), ("controls", 0)]

NAMES = ["k", "z", "c", "n", "i", "a", "aa", "ab", "a_b", "w", "y", "lam", "theta", "K", "C", "e_z", "eps",
         "m", "s", "x", "p", "S", "X", "M", "b1", "b2", "rk", "mu_", "α", "β", "σ", "Δ", "u", "v0", "V", "q", "r", "h", "g", "d",
         "expo", "logz", "sinx", "tt", "kk", "k2", "J", "N", "O", "pi_", "l", "ll", "out0", "out1"]


# -- expressions ---------------------------------------------------------------
def _leaf(draw, leaves):
    k = draw(st.integers(0, 9))
    if k == 0 or not leaves:
        return ["n", draw(gen.fl(0.1, 3, 3))]
    return list(draw(st.sampled_from(leaves)))


def draw_expr(draw, leaves, safe, depth):
    """leaves: every leaf; safe: those known to be positive"""
    safe = safe or [["n", 1.5]]
    op = draw(st.sampled_from(["leaf", "+", "-", "*", "+", "-", "*", "/", "^", "neg", "f"])) if depth > 0 else "leaf"
    if op == "leaf":
        return _leaf(draw, leaves)
    if op in "+-*":
        return [op, draw_expr(draw, leaves, safe, depth - 1), draw_expr(draw, leaves, safe, depth - 1)]
    if op == "/":
        return ["/", draw_expr(draw, leaves, safe, depth - 1), _leaf(draw, safe)]
    if op == "^":
        if draw(st.booleans()):
            return ["^", _leaf(draw, safe), draw(st.sampled_from([["n", 2], ["n", 3], ["neg", ["n", 1]], ["n", 0.5]]))]
        return ["^", _leaf(draw, safe), _leaf(draw, safe)]
    if op == "neg":
        return ["neg", draw_expr(draw, leaves, safe, depth - 1)]
    f = draw(st.sampled_from(sorted(FUNS)))
    if f in ("exp", "log"):
        return ["f", f, _leaf(draw, safe)]
    return ["f", f, draw_expr(draw, leaves, safe, depth - 1)]


def show(e, style="new", names=None, prec=0):
    """Text of an expression with the usual priorities.
    styles: new k[t+1]; old k(1), k when date is 0; mixed k[t+1], k"""
    nm = (lambda s: names.get(s, s)) if names else (lambda s: s)
    o = e[0]
    if o == "n":
        return repr(e[1])
    if o == "p":
        return nm(e[1])
    if o == "v":
        n, t = nm(e[1]), e[2]
        if style == "untimed":
            return n
        if style == "new":
            return f"{n}[t]" if t == 0 else f"{n}[t{t:+d}]"
        if style == "dated":
            return f"{n}({t})"
        if style == "brackets":
            return f"{n}[t{t:+d}]" if t else f"{n}(0)"
        if style == "old":
            return n if t == 0 else f"{n}({t})"
        return n if t == 0 else f"{n}[t{t:+d}]"
    if o == "neg":
        return "(-" + show(e[1], style, names, 3) + ")"
    if o == "f":
        return f"{e[1]}({show(e[2], style, names, 0)})"
    p = {"+": 1, "-": 1, "*": 2, "/": 2, "^": 3}[o]
    a = show(e[1], style, names, 4 if o == "^" else p)
    b = show(e[2], style, names, 4 if o == "^" else p + 1)
    s = f"{a}{o}{b}" if o in "*/^" else f"{a} {o} {b}"
    return f"({s})" if p < prec else s


def value(e, env, defs=None):
    """env: {(name, date): number, name: number}; defs: {name: expression at date 0}"""
    o = e[0]
    if o == "n":
        return e[1]
    if o == "p":
        return env[e[1]]
    if o == "v":
        if defs and e[1] in defs:
            return value(shift(defs[e[1]], e[2]), env, defs)
        return env[(e[1], e[2])]
    if o == "neg":
        return -value(e[1], env, defs)
    if o == "f":
        return FUNS[e[1]](value(e[2], env, defs))
    a, b = value(e[1], env, defs), value(e[2], env, defs)
    if o == "+":
        return a + b
    if o == "-":
        return a - b
    if o == "*":
        return a * b
    if o == "/":
        return a / b
    if o == "^":
        return a ** b
    raise HarnessError(o)


def shift(e, k):
    if e[0] == "v":
        return ["v", e[1], e[2] + k]
    return [e[0]] + [shift(x, k) if isinstance(x, list) else x for x in e[1:]]


def steady(e):
    if e[0] == "v":
        return ["v", e[1], 0]
    return [e[0]] + [steady(x) if isinstance(x, list) else x for x in e[1:]]


def atoms(e):
    if e[0] in ("v", "p"):
        return {(e[1], e[2]) if e[0] == "v" else e[1]}
    return set().union(*([atoms(x) for x in e[1:] if isinstance(x, list)] or [set()]))


# -- models --------------------------------------------------------------------
@st.composite
def model_spec(draw, blocks=("arbitrage", "transition"), optional=(), depth=3, maxn=3, bounds=None, ndefs=3):
    """A random model: symbols, definitions, equations. Values for evaluation are positive."""
    names = draw(st.permutations(NAMES))
    names = [n for n in names]
    sym = {}

    def take(k):
        out = names[:k]
        del names[:k]
        return out

    blocks = list(blocks) + [b for b in optional if draw(st.booleans())]
    needed = {"exogenous", "states", "controls", "parameters"}
    for b in blocks:
        tgt, args, _, _ = BLOCKS[b]
        needed.update(g for g, _ in args)
        if tgt:
            needed.add(tgt)
    order = draw(st.permutations(["exogenous", "states", "controls", "values", "rewards", "expectations", "poststates", "parameters"]))
    for g in order:
        if g in needed:
            sym[g] = take(draw(st.integers(1, maxn if g in ("exogenous", "states", "controls", "parameters") else 2)))
    params = [["p", n] for n in sym["parameters"]]
    defs = []
    base = [["v", n, 0] for g in ("exogenous", "states", "controls") for n in sym[g]] + params
    leaves = list(base)
    for n in take(draw(st.integers(0, ndefs))):
        e = draw_expr(draw, leaves, base, draw(st.integers(1, 2)))
        defs.append([n, e])
        leaves = leaves + [["v", n, 0]] * 4
    eqs = {}
    for b in blocks:
        tgt, args, auxd, rec = BLOCKS[b]
        # (a value block reading the values of the current date is not specified: argument or just computed?)
        lv = [["v", n, t] for g, t in args for n in sym[g] if (b, g, t) != ("value", "values", 0)] + params
        safe = list(lv)
        lv = lv + [["v", n, t] for t in auxd for n, _ in defs] * 2
        l = []
        if tgt is None:
            for _ in range(draw(st.integers(1, 3)) if b != "arbitrage" else len(sym["controls"])):
                if draw(st.integers(0, 3)) == 0:
                    l.append(["=", draw_expr(draw, lv, safe, 2), draw_expr(draw, lv, safe, 2)])
                else:
                    l.append(["e", draw_expr(draw, lv, safe, depth)])
        else:
            for k, n in enumerate(sym[tgt]):
                extra = [["v", q, 0] for q in sym[tgt][:k]] * 3 if rec else []
                l.append(["=", ["v", n, 0], draw_expr(draw, lv + extra, safe, depth)])
        eqs[b] = l
    bnds = []
    lv = [["v", n, t] for g, t in BOUND_ARGS for n in sym[g]] + params
    kind = bounds or draw(st.sampled_from(["none", "all", "some"]))
    for i, n in enumerate(sym["controls"]):
        with_b = kind == "all" or (kind == "some" and draw(st.booleans()))
        if not with_b or eqs["arbitrage"][i][0] == "=":
            bnds.append(None)
            continue
        lb = draw(st.sampled_from([None, "e", "c"]))
        ub = draw(st.sampled_from([None, "e", "c"]))
        mk = lambda s: None if s is None else (["n", draw(gen.fl(0.1, 3, 3))] if s == "c" else draw_expr(draw, lv, lv, 2))
        bnds.append([mk(lb), mk(ub)])
    return dict(sym=sym, defs=defs, eqs=eqs, bounds=bnds)


def eq_text(eq, style, names=None):
    if eq[0] == "e":
        return show(eq[1], style, names)
    return show(eq[1], style if eq[1][0] == "v" and style != "old" else style, names) + " = " + show(eq[2], style, names)


def bound_text(b, c, style, names=None):
    lo = "-inf" if b[0] is None else show(b[0], style, names)
    hi = "inf" if b[1] is None else show(b[1], style, names)
    cc = show(["v", c, 0], style, names)
    return f"{lo} <= {cc} <= {hi}"


def render(spec, form="block", style="new", names=None, perp="⟂", calib=None, extra="", comments=False, symorder=None, defkey="timed"):
    """Text of the model file. form: block (literal scalars) or list (old style)"""
    nm = (lambda s: names.get(s, s)) if names else (lambda s: s)
    out = ["name: generated", "", "symbols:"]
    for g in symorder or spec["sym"]:
        out.append(f"    {g}: [{', '.join(nm(n) for n in spec['sym'][g])}]")
    if spec["defs"]:
        if form == "block":
            out += ["", "definitions: |"]
            for n, e in spec["defs"]:
                out.append(f"    {nm(n)}[t] = {show(e, style, names)}")
        else:
            out += ["", "definitions:"]
            for n, e in spec["defs"]:
                if comments:
                    out.append("    # a comment")
                out.append(f"    {nm(n) if defkey == 'bare' else nm(n) + '[t]'}: {show(e, style, names)}")
    out += ["", "equations:"]
    form0 = form
    for b, l in spec["eqs"].items():
        # the grammar of literal arbitrage blocks has no equal sign
        form = "list" if b == "arbitrage" and any(eq[0] == "=" for eq in l) else form0
        out += ["", f"    {b}: |" if form == "block" else f"    {b}:"]
        for i, eq in enumerate(l):
            t = eq_text(eq, style, names)
            if b == "arbitrage" and spec["bounds"] and spec["bounds"][i] is not None:
                t += f" {perp} " + bound_text(spec["bounds"][i], spec["sym"]["controls"][i], style, names)
            if form == "block":
                out.append("        " + t)
            else:
                if comments:
                    out.append("        # " + t)
                out.append("        - " + t)
    if calib:
        out += ["", "calibration:"]
        for k, v in calib:
            out.append(f"    {nm(k)}: {v if isinstance(v, str) else repr(v)}")
    out.append(extra)
    return "\n".join(out) + "\n"


def load(text, check=True):
    from dolo import yaml_import

    fd, path = tempfile.mkstemp(suffix=".yaml")
    with os.fdopen(fd, "w", encoding="utf-8") as f:
        f.write(text)
    try:
        return yaml_import(path, check=check)
    finally:
        os.unlink(path)


def point(spec, seed, size=(), lo=0.4, hi=2.0):
    """positive random values for every (variable, date in -1..1) and parameter"""
    r = gen.rs(seed)
    env = {}
    for g, ns in spec["sym"].items():
        for n in ns:
            if g == "parameters":
                env[n] = float(r.uniform(lo, hi))
            else:
                for t in (-1, 0, 1):
                    env[(n, t)] = r.uniform(lo, hi, size=size)
    return env


def flat_calib(spec, v=1.2):
    return [[n, round(v + 0.01 * i, 3)] for i, n in enumerate(sum(spec["sym"].values(), []))]


def args_of(spec, block, env):
    lst = {"auxiliary": AUX_ARGS, "bounds": BOUND_ARGS}.get(block) or BLOCKS[block][1]
    a = [np.stack([np.asarray(env[(n, t)]) for n in spec["sym"][g]], axis=-1) for g, t in lst]
    return a + [np.array([env[n] for n in spec["sym"]["parameters"]])]


def block_value(spec, block, env):
    """the written equations of the block at env (values stacked on the last axis)"""
    defs = dict(spec["defs"])
    size = np.shape(env[next(k for k in env if isinstance(k, tuple))])
    if block == "auxiliary":
        vals = [value(["v", n, 0], env, defs) for n, _ in spec["defs"]]
    else:
        vals = []
        tgt, _, _, rec = BLOCKS[block]
        env = dict(env)
        for eq in spec["eqs"][block]:
            if eq[0] == "e":
                vals.append(value(eq[1], env, defs))
            elif tgt is None:
                vals.append(value(eq[2], env, defs) - value(eq[1], env, defs))
            else:
                v = value(eq[2], env, defs)
                vals.append(v)
                if rec:
                    env[(eq[1][1], 0)] = v
    return np.stack([np.broadcast_to(v, size) for v in vals], axis=-1)
