"""C31 filters"""
import numpy as np
from pbt import *
from pbt.gen import *

from dolo.numeric.filters import hp_filter, bandpass_filter

suite = Suite(
    "C31",
    "Generated series (random walks, noise, trends, cycles, integers; lengths 4 to 80; one or several; arrays or lists), smoothing parameters from"
    " 0 to 1e6, orders and bands. The trend is compared with the solution of the dense normal equations, the band-pass filter with its"
    " definition as a sum. Non-trivial = the series is not constant.",
)


def series(c, T, n):
    r = rs(c["seed"])
    t = np.arange(T)
    z = {
        "walk": lambda: r.standard_normal((n, T)).cumsum(axis=1),
        "noise": lambda: r.standard_normal((n, T)),
        "trend": lambda: r.uniform(-2, 2, (n, 1)) + r.uniform(-1, 1, (n, 1)) * t,
        "cycle": lambda: np.sin(t * r.uniform(0.1, 3, (n, 1)) + r.uniform(0, 6, (n, 1))) + 0.05 * t,
        "integers": lambda: r.randint(-5, 6, (n, T)),
    }[c["kind"]]()
    return z if c["kind"] == "integers" else z * c["scale"]


def common(draw):
    return dict(seed=draw(seeds), kind=draw(st.sampled_from(["walk", "noise", "trend", "cycle", "integers"])), scale=draw(st.sampled_from([1.0, 1e-3, 100.0])))


@st.composite
def hp_case(draw):
    return dict(**common(draw), T=draw(st.integers(4, 80)), n=draw(st.integers(1, 4)), lam=draw(st.sampled_from([None, 0, 1, 6.25, 100, 1600, 14400.0, 129600, 1e6])), flat=draw(st.booleans()), lists=draw(st.booleans()))


@suite.sub(hp_case(), quick=250, shards=2)
def hp(c):
    y = series(c, c["T"], c["n"])
    n, T = y.shape
    lam = 1600 if c["lam"] is None else c["lam"]
    D = np.zeros((T - 2, T))
    for i in range(T - 2):
        D[i, i : i + 3] = [1, -2, 1]
    want = np.linalg.solve(np.eye(T) + lam * D.T @ D, y.T).T
    one = n == 1 and c["flat"]
    data = y[0] if one else y
    keep = data.copy()
    arg = data.tolist() if c["lists"] else data
    kw = {} if c["lam"] is None else dict(lam=c["lam"])
    trend, cycle = hp_filter(arg, **kw)
    sc = np.abs(y).max() + 1e-12
    close(trend, want[0] if one else want, 0, 1e-6 * sc, "trend")
    close(np.asarray(trend) + cycle, data, 0, 1e-10 * sc, "trend and cycle add up")
    close(data, keep, 0, 0, "data changed")
    if c["kind"] == "trend":
        close(trend, data, 0, 1e-6 * sc, "linear trends are left unchanged")
    label(f"{'one' if one else 'several'} {c['lam']}")
    return bool(np.ptp(y) > 0)


@st.composite
def bp_case(draw):
    k = draw(st.integers(1, 15))
    w1 = draw(fl(2, 12))
    return dict(**common(draw), k=k, T=2 * k + 1 + draw(st.integers(0, 60)), w1=w1, w2=w1 + draw(fl(0.5, 40)), lists=draw(st.booleans()))


@suite.sub(bp_case(), quick=250, shards=2)
def bandpass(c):
    y = series(c, c["T"], 1)[0]
    k, T = c["k"], c["T"]
    lo, hi = 2 * np.pi / c["w2"], 2 * np.pi / c["w1"]
    b = np.array([(hi - lo) / np.pi if j == 0 else (np.sin(hi * j) - np.sin(lo * j)) / (np.pi * j) for j in range(-k, k + 1)])
    b = b - b.mean()
    keep = y.copy()
    f = bandpass_filter(y.tolist() if c["lists"] else y, k, c["w1"], c["w2"])
    want = np.array([sum(b[k + j] * y[t + j] for j in range(-k, k + 1)) for t in range(k, T - k)])
    sc = np.abs(y).max() + 1e-12
    close(f, want, 0, 1e-9 * sc, "filtered series")
    if c["kind"] == "trend":
        close(f, np.zeros(T - 2 * k), 0, 1e-8 * sc, "linear trends are filtered out")
    close(y, keep, 0, 0, "data changed")
    return bool(np.ptp(y) > 0)
