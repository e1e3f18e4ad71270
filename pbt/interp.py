"""Reference interpolation: multilinear by explicit corner sums, cubic by tensor
products of one-dimensional natural splines (scipy)."""
import itertools
import numpy as np


def multilinear(axes, V, x):
    "axes: list of increasing lists; V: array (n1..nd, k); x: one point inside the box"
    d = len(axes)
    cells = []
    for a, t in zip(axes, x):
        i = 0
        while i < len(a) - 2 and t > a[i + 1]:
            i += 1
        lam = (t - a[i]) / (a[i + 1] - a[i])
        cells.append((i, lam))
    out = np.zeros(V.shape[-1])
    for corner in itertools.product((0, 1), repeat=d):
        w = 1.0
        idx = []
        for (i, lam), c in zip(cells, corner):
            w *= lam if c else 1 - lam
            idx.append(i + c)
        out += w * V[tuple(idx)]
    return out


def natural_cubic(axes, V, x):
    from scipy.interpolate import CubicSpline

    W = V
    for a, t in zip(axes, x):
        if len(a) == 2:
            lam = (t - a[0]) / (a[1] - a[0])
            W = (1 - lam) * W[0] + lam * W[1]
        else:
            W = CubicSpline(a, W, axis=0, bc_type="natural")(t)
    return W


def linaxes(g):
    return [list(np.linspace(a, b, n)) for a, b, n in zip(g["min"], g["max"], g["n"])]
