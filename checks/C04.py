"""C04 complementarity bounds"""
import numpy as np
from pbt import *
from pbt.gen import *
from pbt.models import *

suite = Suite(
    "C04",
    "Generated models with no, partial or full complementarity conditions (constant, infinite or depending on shocks,"
    " states and parameters); bounds and residuals are compared with the evaluation of the written expressions;"
    " non-trivial = at least one finite bound.",
)


def mk(kind):
    return st.fixed_dictionaries(
        dict(spec=model_spec(bounds=kind, depth=2), form=st.sampled_from(["block", "list"]),
             perp=st.sampled_from(["⟂", "|"]), seed=seeds)
    )


def bound_values(spec, env, k, size):
    out = []
    for b in spec["bounds"]:
        if b is None or b[k] is None:
            v = [-np.inf, np.inf][k]
        else:
            v = value(b[k], env)
        out.append(np.broadcast_to(v, size))
    return np.stack(out, axis=-1)


@suite.sub(st.one_of(mk("all"), mk("some")), quick=96, thorough=1000, shards=8)
def bounds(c):
    spec = c["spec"]
    m = load(render(spec, form=c["form"], perp=c["perp"], calib=flat_calib(spec)))
    env = point(spec, c["seed"], (3,))
    some = any(b is not None for b in spec["bounds"])
    xb = m.x_bounds
    if not some:
        expect(xb is None, "bounds reported for a model without complementarity conditions")
    else:
        expect(xb is not None and len(xb) == 2, "no bounds")
        args = args_of(spec, "bounds", env)
        for k, name in enumerate(("lower", "upper")):
            ref = bound_values(spec, env, k, (3,))
            got = xb[k](*args)
            close(got, ref, 1e-9, 1e-9, f"{name} bounds")
            one = xb[k](*[a[1] if a.ndim == 2 else a for a in args])
            close(one, ref[1], 1e-9, 1e-9, f"{name} bounds at one point")
    # residuals do not depend on the conditions
    ref = block_value(spec, "arbitrage", env)
    got = m.functions["arbitrage"](*args_of(spec, "arbitrage", env))
    sc = 1 + np.abs(ref)
    close(got / sc, ref / sc, 1e-9, 1e-9, "residuals of equations with complementarity conditions")
    got = m.functions["equilibrium"](*args_of(spec, "arbitrage", env))
    close(got / sc, ref / sc, 1e-9, 1e-9, "residuals")
    label(*["finite" if b and any(b) else "none" for b in spec["bounds"]])
    return any(b is not None and any(e is not None for e in b) for b in spec["bounds"])


@suite.sub(st.tuples(mk("all"), st.integers(0, 5), st.integers(0, 5), st.integers(0, 3)), quick=72, thorough=600, shards=4)
def wrong_variable(c):
    c, i, j, how = c
    spec = c["spec"]
    x = spec["sym"]["controls"]
    cand = [k for k in range(len(x)) if spec["bounds"][k] is not None]
    if not cand:
        reject()
    i = cand[i % len(cand)]
    others = {0: [n for n in x if n != x[i]], 1: spec["sym"]["states"], 2: spec["sym"]["exogenous"], 3: [x[i]]}[how]
    if not others:
        reject()
    wrong = others[j % len(others)]
    text = render(spec, form=c["form"], perp=c["perp"], calib=flat_calib(spec))
    right = f" {c['perp']} " + bound_text(spec["bounds"][i], x[i], "new")
    bad = f" {c['perp']} " + bound_text(spec["bounds"][i], wrong, "new")
    if how == 3:
        # the right control, at another date
        bad = bad.replace(f"<= {wrong}[t] <=", f"<= {wrong}[{['t+1', 't-1'][j % 2]}] <=")
        expect(bad != right, "harness: date")
    lines = text.split("\n")
    start = next(k for k, l in enumerate(lines) if l.startswith("    arbitrage:"))
    for k in range(start, len(lines)):
        if lines[k].endswith(right):
            lines[k] = lines[k][: -len(right)] + bad
            break
    else:
        raise HarnessError("condition not found")
    try:
        load("\n".join(lines))
    except Exception:
        return True
    expect(False, f"a condition on {wrong}{' at another date' if how == 3 else ''} was accepted for control {x[i]}")
