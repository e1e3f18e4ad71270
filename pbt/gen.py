"""Shared strategies. Everything produced here is plain JSON data."""
import numpy as np
from hypothesis import strategies as st


def fl(lo, hi, digits=6):
    "finite floats in [lo, hi], rounded (keeps shrunk cases readable)"
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False).map(
        lambda x: min(hi, max(lo, round(x, digits))) + 0.0
    )


seeds = st.integers(0, 2**31 - 1)


def vec(n, lo, hi):
    return st.lists(fl(lo, hi), min_size=n, max_size=n)


@st.composite
def uniform_grid(draw, d=None, dmax=3, nmin=2, nmax=6, span=5.0):
    d = d or draw(st.integers(1, dmax))
    a = [draw(fl(-span, span)) for _ in range(d)]
    w = [draw(fl(0.01, span)) for _ in range(d)]
    n = [draw(st.integers(nmin, nmax)) for _ in range(d)]
    return dict(min=a, max=[x + y for x, y in zip(a, w)], n=n)


@st.composite
def axes(draw, d=None, dmax=3, nmin=2, nmax=6):
    "increasing, unevenly spaced axes"
    d = d or draw(st.integers(1, dmax))
    out = []
    for _ in range(d):
        n = draw(st.integers(nmin, nmax))
        a = draw(fl(-5, 5))
        steps = [draw(fl(0.05, 3)) for _ in range(n - 1)]
        out.append([a] + [round(a + sum(steps[: k + 1]), 6) for k in range(n - 1)])
    return out


def rs(seed):
    return np.random.RandomState(seed)


def stochastic_matrix(seed, n, sparse=False):
    r = rs(seed)
    P = r.rand(n, n) + 0.02
    if sparse:
        P = P * (r.rand(n, n) > 0.4) + 0.3 * np.eye(n)[:, r.permutation(n)]
    return P / P.sum(axis=1)[:, None]
