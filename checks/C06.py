"""C06 equivalent presentations, malformed files"""
import json
import os
import shutil
import tempfile
import numpy as np
from pbt import *
from pbt.gen import *
from pbt.models import *
from checks import C05, C04

suite = Suite(
    "C06",
    "Generated models are written in equivalent ways (forms, timing notations, renaming, order of sections and entries,"
    " comments) and must give the same functions and calibration, or are corrupted in one place and must be refused;"
    " non-trivial = the rewriting changes the text of an equation or the corruption concerns a symbol that is used.",
)
OPT = ["value", "expectation", "half_transition", "direct_response_egm", "reverse_state", "direct_response", "felicity"]


def same_functions(spec, m, seed):
    for b in list(spec["eqs"]) + (["auxiliary"] if spec["defs"] else []):
        env = point(spec, seed, (3,))
        ref = block_value(spec, b, env)
        sc = 1 + np.abs(ref)
        got = m.functions[b](*args_of(spec, b, env))
        close(got / sc, ref / sc, 1e-9, 1e-9, f"{b}")


NEWNAMES = ["xi", "kappa", "q_1", "w_", "Zed", "B", "foo", "bar", "tau", "ρ", "τ", "ω", "y1", "y2", "F", "f", "inv", "one", "R",
            "j", "jj", "nn", "cc", "sig", "sigma", "nu", "exog", "DD", "alpha", "beta", "gamma", "eta", "o", "I", "U", "Ω", "t1", "out0", "out1"]


@st.composite
def presentation(draw):
    spec = draw(model_spec(optional=OPT, depth=2))
    syms = sum(spec["sym"].values(), []) + [n for n, _ in spec["defs"]]
    names = dict(zip(syms, draw(st.permutations(NEWNAMES)))) if draw(st.booleans()) and len(syms) <= len(NEWNAMES) else {}
    form = draw(st.sampled_from(["block", "list"]))
    cal = flat_calib(spec)
    return dict(
        spec=spec, names=names, form=form,
        style=draw(st.sampled_from(["new"] if form == "block" else ["old", "mixed", "new"])),
        perp=draw(st.sampled_from(["|", "⟂"])),
        calib=draw(st.permutations(cal)), symorder=draw(st.permutations(list(spec["sym"]))),
        blockorder=draw(st.permutations(list(spec["eqs"]))),
        comments=draw(st.booleans()), spaces=draw(st.booleans()), defkey=draw(st.sampled_from(["timed", "bare"])), seed=draw(seeds),
    )


def renamed(spec, names):
    if not names:
        return spec

    def go(e):
        if e[0] == "v":
            return ["v", names[e[1]], e[2]]
        if e[0] == "p":
            return ["p", names[e[1]]]
        return [e[0]] + [go(x) if isinstance(x, list) else x for x in e[1:]]

    return dict(
        sym={g: [names[n] for n in ns] for g, ns in spec["sym"].items()},
        defs=[[names[n], go(e)] for n, e in spec["defs"]],
        eqs={b: [[q[0]] + [go(x) for x in q[1:]] for q in l] for b, l in spec["eqs"].items()},
        bounds=[b if b is None else [None if e is None else go(e) for e in b] for b in spec["bounds"]],
    )


@suite.sub(presentation(), quick=128, thorough=1200, shards=8)
def presentations(c):
    spec = c["spec"]
    spec2 = renamed(dict(spec, eqs={b: spec["eqs"][b] for b in c["blockorder"]}), c["names"])
    nm = lambda n: c["names"].get(n, n)
    text = render(spec2, form=c["form"], style=c["style"], perp=c["perp"], calib=[[nm(n), v] for n, v in c["calib"]],
                  comments=c["comments"], symorder=c["symorder"], defkey=c["defkey"] if c["form"] == "list" else "timed")
    if c["spaces"]:
        text = text.replace(" + ", "  +   ").replace("*", " * ").replace("[t+1]", "[ t+1 ]" if False else "[t+1]").replace("\n\n", "\n\n\n")
    m = load(text)
    # semantics of the original model, under the new names
    same_functions(spec2, m, c["seed"])
    vals = dict((n, v) for n, v in c["calib"])
    for g, ns in spec["sym"].items():
        expect(list(m.symbols[g]) == [nm(n) for n in ns], f"symbols of {g}")
        close(m.calibration[g], [vals[n] for n in ns], 1e-12, 1e-12, f"calibration of {g}")
    label(c["form"], c["style"], "renamed" if c["names"] else "same names")
    return bool(c["names"]) or c["form"] == "list" or c["style"] != "new"


# -- files -------------------------------------------------------------------------------------------
PIECES = ["model", "http", "https", "http:", "www.site.org", "a b", "modèle", "ρ", "x.y", ".hidden", "#1", "%20", "yaml", "{}", "é'", "~", "(2)", "-o", "$HOME", "ftp"]


@st.composite
def place(draw):
    part = st.lists(st.sampled_from(PIECES), min_size=1, max_size=3).map("_".join)
    return dict(
        spec=draw(model_spec(depth=1)), dirs=draw(st.lists(part, max_size=3)), file=draw(part), ext=draw(st.sampled_from([".yaml", ".yml", "", ".mod"])),
        relative=draw(st.sampled_from(["no", "no", "yes", "dot"])), eol=draw(st.sampled_from(["\n", "\n", "\r\n"])), check=draw(st.booleans()),
        name=draw(st.sampled_from(["absent", "Real business cycles", "modèle ρ", "42", "a_b"])), given=draw(st.sampled_from(["no", "no", "yes"])),
        seed=draw(seeds), string=draw(st.sampled_from([False, False, False, True])),
    )


@suite.sub(place(), quick=80, thorough=800, shards=2)
def files(c):
    """the same text is the same model wherever the file is, which is reported along with the name of the model"""
    import yaml
    from dolo import yaml_import
    from dolo.compiler.model import Model

    spec = c["spec"]
    text = render(spec, calib=flat_calib(spec))
    if not text.startswith("name: generated"):
        raise HarnessError("the name comes first")
    text = text.replace("name: generated", "" if c["name"] == "absent" else f"name: {c['name']}", 1)
    if c["given"] == "yes":
        text += "\nfilename: elsewhere.yaml\n"
    if c["string"]:
        m = Model(yaml.compose(text), check=c["check"])
        fname = "elsewhere.yaml" if c["given"] == "yes" else "<string>"
    else:
        here = os.getcwd()
        root = tempfile.mkdtemp()
        try:
            os.chdir(root)
            d = os.path.join(*c["dirs"]) if c["dirs"] else "."
            os.makedirs(os.path.join(root, d), exist_ok=True)
            if os.path.isdir(os.path.join(root, d, c["file"] + c["ext"])):
                reject()
            fname = os.path.normpath(os.path.join(d, c["file"] + c["ext"]))
            if c["relative"] == "dot":
                fname = os.path.join(".", fname)
            elif c["relative"] == "no":
                fname = os.path.join(root, fname)
            if fname.startswith(("http://", "https://")) or "://" in fname:
                raise HarnessError("an address")
            with open(fname, "w", encoding="utf8", newline="") as f:
                f.write(text.replace("\n", c["eol"]))
            m = yaml_import(fname, check=c["check"])
        finally:
            os.chdir(here)
            shutil.rmtree(root)
    expect(m.filename == fname, f"name of the file {m.filename!r}, expected {fname!r}")
    name = "Anonymous" if c["name"] == "absent" else c["name"]
    expect(m.name == name, f"name of the model {m.name!r}, expected {name!r}")
    expect(m.infos["name"] == name and m.infos["filename"] == fname, f"informations {m.infos}")
    expect(name in repr(m) or name in str(m), "the name of the model is printed")
    same_functions(spec, m, c["seed"])
    for g, ns in spec["sym"].items():
        close(m.calibration[g], [dict(flat_calib(spec))[n] for n in ns], 1e-12, 1e-12, f"calibration of {g}")
    label("string" if c["string"] else "http" if "http" in fname else "relative" if c["relative"] != "no" else "absolute")
    return len(c["dirs"]) > 0 or c["string"] or c["given"] == "yes"


# -- malformed files -----------------------------------------------------------
def replace_leaf(e, k, new):
    "replace the k-th leaf (depth first) by new; -> (expression, leaves left to skip)"
    if e[0] in ("v", "p", "n"):
        return (new, -1) if k == 0 else (e, k - 1)
    out = [e[0]]
    for x in e[1:]:
        if isinstance(x, list) and k >= 0:
            x, k = replace_leaf(x, k, new)
        out.append(x)
    return out, k


def nleaves(e):
    return 1 if e[0] in ("v", "p", "n") else sum(nleaves(x) for x in e[1:] if isinstance(x, list))


FAULTS = ["undeclared symbol", "undeclared variable", "undeclared parameter in definition", "undeclared variable in definition",
          "date", "date of definition", "definition shadows", "circular definitions", "circular calibration", "syntax",
          "dated parameter", "forward definition"]


@st.composite
def corrupted(draw):
    spec = draw(model_spec(optional=["felicity", "expectation"], depth=2, bounds="none"))
    return dict(spec=spec, fault=draw(st.sampled_from(FAULTS)), form=draw(st.sampled_from(["block", "list"])),
                i=draw(st.integers(0, 1000)), j=draw(st.integers(0, 1000)), k=draw(st.integers(0, 1000)), seed=draw(seeds))


@suite.sub(corrupted(), quick=240, thorough=2000, shards=8)
def malformed(c):
    spec = json.loads(json.dumps(c["spec"]))
    f = c["fault"]
    form = c["form"]
    calib = flat_calib(spec)
    blocks = sorted(spec["eqs"])
    b = blocks[c["i"] % len(blocks)]
    q = spec["eqs"][b][c["j"] % len(spec["eqs"][b])]
    d = spec["defs"][c["j"] % len(spec["defs"])] if spec["defs"] else None
    allvars = [n for g, ns in spec["sym"].items() if g != "parameters" for n in ns]

    def damage_eq(new):
        q[-1], _ = replace_leaf(q[-1], c["k"] % nleaves(q[-1]), new)

    def damage_def(new):
        d[1], _ = replace_leaf(d[1], c["k"] % nleaves(d[1]), new)

    text = None
    if f == "undeclared symbol":
        damage_eq(["p", "undeclared"])
    elif f == "undeclared variable":
        damage_eq(["v", "undeclared", [-1, 0, 1][c["k"] % 3]])
    elif f in ("undeclared parameter in definition", "undeclared variable in definition"):
        if d is None:
            reject()
        damage_def(["p", "undeclared"] if "parameter" in f else ["v", "undeclared", 0])
    elif f == "dated parameter":
        ps = spec["sym"]["parameters"]
        damage_eq(["v", ps[c["k"] % len(ps)], [-1, 0, 1][c["k"] % 3]])
    elif f == "date":
        # a variable at a date the block does not know
        avail = {(n, t) for g, t in BLOCKS[b][1] for n in spec["sym"][g]}
        tgt = BLOCKS[b][0]
        if tgt:
            avail |= {(n, 0) for n in spec["sym"][tgt]}
        bad = sorted((n, t) for n in spec["sym"]["states"] + spec["sym"]["controls"] for t in (-2, -1, 0, 1, 2) if (n, t) not in avail)
        n, t = bad[c["k"] % len(bad)]
        damage_eq(["v", n, t])
    elif f == "date of definition":
        if d is None:
            reject()
        text = render(spec, form=form, calib=calib)
        a = f"    {d[0]}[t] =" if form == "block" else f"    {d[0]}[t]:"
        if a not in text:
            raise HarnessError("definition not found")
        text = text.replace(a, a.replace("[t]", ["[t+1]", "[t-1]", "[t-2]"][c["k"] % 3]))
    elif f == "definition shadows":
        if d is None:
            reject()
        form = "block"
        d[0] = allvars[c["k"] % len(allvars)]
        used = {d[0]}
    elif f == "circular definitions":
        if len(spec["defs"]) < 2:
            reject()
        a, z = spec["defs"][0], spec["defs"][-1]
        a[1] = ["+", a[1], ["v", z[0], 0]]
        z[1] = ["*", z[1], ["v", a[0], 0]]
    elif f == "forward definition":
        # (the block form requires definitions to refer to preceding ones)
        if len(spec["defs"]) < 2:
            reject()
        form = "block"
        a, z = spec["defs"][0], spec["defs"][-1]
        a[1] = ["+", a[1], ["v", z[0], 0]]
    elif f == "circular calibration":
        if len(calib) < 2:
            reject()
        i, j = c["i"] % len(calib), c["j"] % len(calib)
        calib[i][1] = f"1 + {calib[j][0]}"
        calib[j][1] = f"2*{calib[i][0]}"
    elif f == "syntax":
        text = render(spec, form=form, calib=calib)
        lines = text.split("\n")
        eq = [k for k, l in enumerate(lines) if (l.startswith("        ") and l.strip())]
        k = eq[c["j"] % len(eq)]
        lines[k] += [" +", " *", " ^", ")", " 3 3", " $"][c["k"] % 6]
        text = "\n".join(lines)
    if text is None:
        text = render(spec, form=form, calib=calib)
    label(f)
    # the model without the corruption is fine
    try:
        load(text)
    except Exception:
        return True
    expect(False, f"accepted in spite of: {f}\n{text}")


suite.sub(C05.misordered(), quick=60, thorough=600)(C05.misordered_shocks)


@suite.sub(C05.dom_case().filter(lambda c: len(c["states"]) > 1), quick=60, thorough=600)
def incomplete_domain(c):
    return C05.suite.subs["domain_and_grid"].fn(dict(c, missing=0))
