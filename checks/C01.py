"""C01 compiled functions = written equations"""
import numpy as np
from pbt import *
from pbt.gen import *
from pbt.models import *

suite = Suite(
    "C01",
    "Models are drawn from a grammar (names, symbol counts, chained definitions, equations of every block type) and"
    " every compiled block is compared with an independent evaluation of the expression trees at random points;"
    " non-trivial = the model has a definition used by an equation at some date, or at least 4 blocks.",
)

OPT = ["value", "expectation", "half_transition", "direct_response_egm", "reverse_state", "direct_response", "felicity"]


def agree(spec, m, seed, N=4):
    f = m.functions
    for b in list(spec["eqs"]) + (["auxiliary"] if spec["defs"] else []):
        env = point(spec, seed, (N,))
        args = args_of(spec, b, env)
        ref = block_value(spec, b, env)
        sc = 1 + np.abs(ref)
        got = f[b](*args)
        close(got / sc, ref / sc, 1e-9, 1e-9, f"{b}, {N} points")
        # one by one
        for k in (0, N - 1):
            got1 = f[b](*[a[k] if a.ndim == 2 else a for a in args])
            close(got1 / sc[k], ref[k] / sc[k], 1e-9, 1e-9, f"{b}, one point")
        # first argument shared by all points, parameters stacked
        args2 = [args[0][0]] + args[1:]
        env2 = dict(env)
        g, t = (AUX_ARGS if b == "auxiliary" else BLOCKS[b][1])[0]
        for n in spec["sym"][g]:
            env2[(n, t)] = np.repeat(env[(n, t)][:1], N)
        ref2 = block_value(spec, b, env2)
        sc = 1 + np.abs(ref2)
        close(f[b](*args2) / sc, ref2 / sc, 1e-9, 1e-9, f"{b}, first argument shared")
        ps = np.array([args[-1] * (1 + 0.1 * k) for k in range(N)])
        env3 = dict(env)
        for j, n in enumerate(spec["sym"]["parameters"]):
            env3[n] = ps[:, j]
        ref3 = block_value(spec, b, env3)
        sc = 1 + np.abs(ref3)
        close(f[b](*args[:-1], ps) / sc, ref3 / sc, 1e-9, 1e-9, f"{b}, stacked parameters")
        # two dimensional stacks
        args4 = [a.reshape((2, N // 2) + a.shape[1:]) if a.ndim == 2 else a for a in args]
        close(f[b](*args4) / (1 + np.abs(ref)).reshape((2, N // 2, -1)), (ref / (1 + np.abs(ref))).reshape((2, N // 2, -1)), 1e-9, 1e-9, f"{b}, two dimensional stack")


def uses_defs(spec):
    d = {n for n, _ in spec["defs"]}
    return any(
        isinstance(a, tuple) and a[0] in d
        for b, l in spec["eqs"].items() for eq in l for e in eq[1:] for a in atoms(e)
    )


def decide(c):
    spec = c["spec"]
    m = load(render(spec, form=c["form"], style="new", calib=flat_calib(spec)))
    for g, ns in spec["sym"].items():
        expect(list(m.symbols[g]) == ns, f"symbols of group {g}")
    if spec["defs"]:
        expect(list(m.symbols["auxiliaries"]) == [n for n, _ in spec["defs"]], "definitions")
    agree(spec, m, c["seed"])
    args = args_of(spec, "arbitrage", point(spec, c["seed"], (2,)))
    for n in ("equilibrium", "optimality"):
        close(m.functions[n](*args), m.functions["arbitrage"](*args), 0, 0, f"{n} is another name for arbitrage")
    for b in spec["eqs"]:
        label(b)
    if any(atoms(e) & {(n, 0) for n, _ in spec["defs"]} for _, e in spec["defs"]):
        label("chained definitions")
    return uses_defs(spec) or len(spec["eqs"]) >= 4


core = st.fixed_dictionaries(dict(spec=model_spec(), form=st.sampled_from(["block", "list"]), seed=seeds))
full = st.fixed_dictionaries(dict(spec=model_spec(optional=OPT, bounds="none"), form=st.sampled_from(["block", "list"]), seed=seeds))


@suite.sub(core, quick=96, thorough=600, shards=4)
def core_blocks(c):
    return decide(c)


@suite.sub(full, quick=64, thorough=600, shards=4)
def all_blocks(c):
    return decide(c)
