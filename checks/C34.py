"""C34 printed models"""
import os
import re
import tempfile
import numpy as np
from pbt import *
from pbt.gen import *
from pbt import models as md
from pbt.econ import economy, Economy
from dolo import yaml_import

suite = Suite(
    "C34",
    "Generated model files (expression grammar, definitions, bounds, old and new notations, other blocks) at arbitrary calibrations, and generated"
    " economies at their steady state or off it, printed before and after changes of calibration. The printed equations are parsed again and"
    " evaluated at random points against the expression trees, and the printed residuals compared with those of the trees."
    " Non-trivial = several equations, some residuals which are not zero.",
)


def load(text, fname):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, fname)
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)
        return yaml_import(p), p


ATOM = re.compile(r"([^\W\d]\w*)\[t([+-]\d+)?\]")


def evaluate(text, env, defs):
    """value of a printed expression"""
    look = {}

    def sub(m):
        k = f"_{len(look)}_"
        look[k] = md.value(["v", m.group(1), int(m.group(2) or 0)], env, defs)
        return k

    t = ATOM.sub(sub, text).replace("^", "**")
    names = {k: v for k, v in env.items() if isinstance(k, str)}
    return eval(t, {"__builtins__": {}}, {**md.FUNS, **names, **look})


def parse(text):
    """blocks of the printed model: [(number, residual text or None, highlighted, equation)]"""
    head, body = text.split("Equations:\n----------\n")
    blocks, cur = {}, None
    for l in body.split("\n"):
        if not l.strip():
            cur = None
            continue
        if cur is None:
            cur = l.strip()
            expect(cur not in blocks, f"block {cur} printed twice")
            blocks[cur] = []
            continue
        m = re.fullmatch(r" (\d+) +: (.*)", l)
        expect(m is not None, f"line {l!r}")
        n, rest = int(m.group(1)), m.group(2)
        if cur == "definitions":
            blocks[cur].append((n, None, False, rest))
            continue
        v, eq = rest.split(" : ", 1)
        red = "\033[31m" in v
        blocks[cur].append((n, re.sub(r"\033\[\d+m", "", v), red, eq))
    return head, blocks


def figures(text, red, want, digits, msg):
    """a printed residual"""
    v = float(text)
    if not np.isfinite(want):
        return
    w = 0.0 if abs(want) < 1e-8 else want
    expect(abs(v - w) <= 0.5001 * 10.0**-digits + 1e-9 * abs(w), f"{msg}: printed {text}, residual {want}")
    if not (0.3e-8 < abs(want) < 3e-8):
        expect(red == (abs(want) > 1e-8), f"{msg}: highlighted={red}, residual {want}")


def residuals(spec, cal):
    env = {}
    for g, ns in spec["sym"].items():
        for n in ns:
            env[n] = cal[n]
            for t in (-1, 0, 1):
                env[(n, t)] = np.float64(cal[n])
    with np.errstate(all="ignore"):
        fa, ft = md.block_value(spec, "arbitrage", env), md.block_value(spec, "transition", env) - np.array([cal[n] for n in spec["sym"]["states"]])
    return dict(arbitrage=fa, transition=ft)


def check_text(text, m, spec, cal, name, path, seed, msg):
    head, blocks = parse(text)
    for what in (f'name: "{name}"', f'file: "{path}"'):
        expect(what in head, f"{msg}: {what} is not in {head!r}")
    expect(set(blocks) <= {"transition", "arbitrage", "definitions"}, f"{msg}: blocks {list(blocks)}")
    expect({"transition", "arbitrage"} <= set(blocks) and ("definitions" in blocks or not spec["defs"]), f"{msg}: blocks {list(blocks)}")
    res = residuals(spec, cal)
    env = md.point(spec, seed)
    defs = dict(spec["defs"])
    some = False
    for b in ("transition", "arbitrage"):
        eqs = spec["eqs"][b]
        expect([l[0] for l in blocks[b]] == list(range(1, len(eqs) + 1)), f"{msg}: numbers of {b}")
        for k, (eq, (_, v, red, shown)) in enumerate(zip(eqs, blocks[b])):
            figures(v, red, res[b][k], 4, f"{msg}: {b} {k}")
            some |= abs(res[b][k]) > 1e-8
            with np.errstate(all="ignore"):
                if eq[0] == "e":
                    got, want = evaluate(shown, env, defs), md.value(eq[1], env, defs)
                else:
                    l, r = shown.split(" = ")
                    got, want = [evaluate(l, env, defs), evaluate(r, env, defs)], [md.value(eq[1], env, defs), md.value(eq[2], env, defs)]
            if np.all(np.abs(want) < 1e8):
                close(got, want, 1e-9, 1e-9, f"{msg}: printed equation {shown!r} of {b}")
    for k, (n, e) in enumerate(spec["defs"]):
        i, _, _, shown = blocks["definitions"][k]
        expect(i == k + 1, f"{msg}: number of definition")
        l, r = shown.split(" = ")
        expect(l == f"{n}[t]", f"{msg}: definition of {n} printed as {shown!r}")
        with np.errstate(all="ignore"):
            want = md.value(e, env, defs)
            if np.abs(want) < 1e8:
                close(evaluate(r, env, defs), want, 1e-9, 1e-9, f"{msg}: printed definition {shown!r}")
    expect(len(blocks.get("definitions", [])) == len(spec["defs"]), f"{msg}: number of definitions")
    return some


ROW = re.compile(r"<tr><td>(\w*)</td><td>\$(.*?)\$</td><td>(.*?)</td></tr>", re.S)


def check_html(html, spec, cal, name, msg):
    expect(f"<td>{name}</td>" in html, f"{msg}: name")
    res = residuals(spec, cal)
    blocks, cur = {}, None
    for h, eq, v in ROW.findall(html):
        if h:
            cur = h
            expect(cur not in blocks, f"{msg}: block {cur} shown twice")
            blocks[cur] = []
        blocks[cur].append((eq, v))
    for b, eqs in spec["eqs"].items():
        expect(b in blocks and len(blocks[b]) == len(eqs), f"{msg}: {b} has {len(blocks.get(b, []))} rows for {len(eqs)} equations")
    expect(len(blocks.get("definitions", [])) == len(spec["defs"]), f"{msg}: definitions")
    for b in res:
        for k, (_, v) in enumerate(blocks[b]):
            red = "red" in v
            figures(re.sub("<.*?>", "", v), red, res[b][k], 4 if red else 3, f"{msg}: {b} {k}")


@st.composite
def generic(draw):
    form = draw(st.sampled_from(["list", "list", "block"]))
    return dict(
        spec=draw(md.model_spec(depth=2, maxn=3, ndefs=2, optional=("value", "felicity", "expectation"))), form=form, style=draw(st.sampled_from(["new", "mixed", "old"])) if form == "list" else "new",
        seed=draw(seeds), name=draw(st.one_of(st.none(), st.text("abcXYZ 019_", min_size=1, max_size=12).map(lambda s: "M" + s.strip()))), change=draw(st.integers(0, 2)),
    )


@suite.sub(generic(), quick=48, shards=4)
def equations(c):
    """equations and residuals of any model"""
    spec = c["spec"]
    r = rs(c["seed"])
    names = sum(spec["sym"].values(), [])
    cal = {n: round(float(r.uniform(0.5, 2)), 4) for n in names}
    text = md.render(spec, form=c["form"], style=c["style"], calib=[[n, cal[n]] for n in names])
    text = text.replace("name: generated", "" if c["name"] is None else f"name: {c['name']}")
    name = c["name"] or "Anonymous"
    m, path = load(text, "model.yaml")
    some = False
    for t in range(c["change"] + 1):
        if t:
            new = {n: round(float(r.uniform(0.5, 2)), 4) for n in names if r.rand() < 0.4}
            m.set_calibration(**new)
            cal.update(new)
        if any(not np.isfinite(v).all() for v in residuals(spec, cal).values()):
            reject()
        s = str(m)
        expect(repr(m) == s, "repr and str differ")
        some |= check_text(s, m, spec, cal, name, path, c["seed"] + 1, f"change {t}")
        check_html(m._repr_html_(), spec, cal, name, f"change {t}, html")
    expect(m.infos["name"] == name and m.infos["filename"] == path and m.name == name and m.filename == path, f"infos {m.infos}")
    return some


@st.composite
def eco(draw):
    return dict(e=draw(economy(ns=3, nx=3, bounds=("none", "mixed"), G=True, procs=("iid", "var1"))), seed=draw(seeds), off=draw(st.lists(st.tuples(st.integers(0, 9), st.sampled_from([1e-3, 0.1, -2.0, 1e-6])), max_size=2)))


@suite.sub(eco(), quick=32, shards=2)
def zeros(c):
    """residuals which vanish or not"""
    e = Economy(c["e"])
    text = e.text()
    m, path = load(text, "économie.yaml")
    cal = {n: v for n, v in e.calib()}
    names = e.S + e.X
    new = {names[i % len(names)]: cal[names[i % len(names)]] + d for i, d in c["off"]}
    m.set_calibration(**new)
    cal.update(new)
    some = check_text(str(m), m, e.spec, cal, "generated", path, c["seed"], "economy")
    check_html(m._repr_html_(), e.spec, cal, "generated", "economy, html")
    return some


ANSI = re.compile("\x1b\\[[0-9;]*m")


def printed(f, *a, **k):
    import contextlib, io

    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f(*a, **k)
    return ANSI.sub("", out.getvalue())


@suite.sub(st.tuples(st.integers(-(10**9), 10**9), st.lists(fl(-5, 5), max_size=3), st.text(alphabet="abc \u03bb", max_size=5)), quick=60)
def expressions(c):
    """dprint shows an expression and its value"""
    from dolo import dprint

    number, items, word = c
    items = list(items)

    def by_value():
        dprint(number)
        dprint(items + [word])

    out = printed(by_value)
    expect(f"number:  {number}\n" in out, f"{out!r}")
    expect(f"items + [word]:  {items + [word]}\n" in out, f"{out!r}")

    def local(number, items):
        dprint("number")
        dprint("items*2")

    out = printed(local, number, items)
    expect(f"number:  {number}\n" in out and f"items*2:  {items * 2}\n" in out, f"{out!r}")
    expect(items == list(c[1]), "values left alone")
    return len(items) > 1
