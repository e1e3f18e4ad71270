"""C02 derivatives of compiled functions"""
import numpy as np
from pbt import *
from pbt.gen import *
from pbt.models import *

suite = Suite(
    "C02",
    "For generated models every compiled block is called with diff=True on one point and on stacks of points; Jacobians"
    " are compared with complex-step derivatives of the expression trees (tolerance: truncation and cancellation errors"
    " of the forward differences); non-trivial = a block depending on a definition or on three groups of arguments.",
)

OPT = ["value", "expectation", "half_transition", "direct_response_egm", "reverse_state", "direct_response", "felicity"]


def cstep(spec, b, env, key):
    h = 1e-40
    e = dict(env)
    e[key] = env[key] + 1j * h
    return np.imag(block_value(spec, b, e)) / h


def second(spec, b, env, key, d=1e-5):
    e = dict(env)
    e[key] = env[key] + d
    e2 = dict(env)
    e2[key] = env[key] - d
    return np.abs(cstep(spec, b, e, key) - cstep(spec, b, e2, key)) / (2 * d)


def args_list(spec, b):
    return {"auxiliary": AUX_ARGS}.get(b) or BLOCKS[b][1]


def compare(spec, m, b, env, stacked):
    f = m.functions[b]
    args = args_of(spec, b, env)
    ref = block_value(spec, b, env)
    out = f(*args, diff=True)
    al = args_list(spec, b)
    expect(len(out) == len(al) + 1, f"{b}: {len(out)} arrays returned for {len(al)} differentiated arguments")
    sc = 1 + np.abs(ref)
    close(out[0] / sc, ref / sc, 1e-9, 1e-9, f"{b}: values returned along derivatives")
    for (g, t), J in zip(al, out[1:]):
        names = spec["sym"][g]
        want = np.stack([cstep(spec, b, env, (n, t)) for n in names], axis=-1)
        expect(J.shape == want.shape, f"{b}: derivative with respect to {g}({t}) has shape {J.shape}, not {want.shape}")
        f2 = np.stack([second(spec, b, env, (n, t)) for n in names], axis=-1)
        # forward differences of step 1e-8: truncation + cancellation (intermediate terms are larger than the result)
        tol = 3e-8 * f2 + 2e-6 * (1 + np.abs(ref)[..., None]) + 1e-6 * np.abs(want)
        bad = np.abs(J - want) > tol
        expect(not bad.any(), lambda: f"{b}: derivative with respect to {g}({t}): {J.tolist()} instead of {want.tolist()}")


def interesting(spec):
    d = {n for n, _ in spec["defs"]}
    for b, l in spec["eqs"].items():
        at = set().union(*[atoms(e) for eq in l for e in eq[1:]])
        if any(isinstance(a, tuple) and a[0] in d for a in at):
            return True
        if sum(any((n, t) in at for n in spec["sym"][g]) for g, t in BLOCKS[b][1]) >= 3:
            return True
    return False


strat = st.fixed_dictionaries(
    dict(spec=model_spec(optional=OPT, depth=2), form=st.sampled_from(["block", "list"]), seed=seeds, n=st.integers(1, 4))
)


@suite.sub(strat, quick=96, thorough=1000, shards=8)
def derivatives(c):
    spec = c["spec"]
    m = load(render(spec, form=c["form"], calib=flat_calib(spec)))
    for b in list(spec["eqs"]) + (["auxiliary"] if spec["defs"] else []):
        label(b)
        compare(spec, m, b, point(spec, c["seed"], ()), False)
        compare(spec, m, b, point(spec, c["seed"], (c["n"],)), True)
    return interesting(spec)
