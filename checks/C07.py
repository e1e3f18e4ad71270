"""C07 grids"""
import itertools
import numpy as np
from pbt import *
from pbt.gen import *
from dolo.numeric.grids import (
    UniformCartesianGrid, NonUniformCartesianGrid, UnstructuredGrid, EmptyGrid, SmolyakGrid,
)
import dolo.numeric.grids as G
from dolo.numeric.misc import cartesian, mlinspace, MyJacobian
from dolo.compiler.objects import CartesianDomain

suite = Suite(
    "C07",
    "Grids are generated from bounds/orders, uneven axes or free node lists (1 to 4 dimensions) and compared with"
    " a plain itertools.product enumeration; non-trivial = at least two dimensions (or two summed grids) with"
    " distinct sizes or bounds.",
)


def axis(a, b, n):
    return [a] if n == 1 else [a + (b - a) * k / (n - 1) for k in range(n)]


def enum(axs):
    return np.array([list(t) for t in itertools.product(*axs)], dtype=float)


def same_grid(g, expected, lo, hi, d, n=None):
    close(g.nodes, expected, 1e-10, 1e-10, "nodes")
    expect(g.n_nodes == len(expected), f"n_nodes is {g.n_nodes}, there are {len(expected)} nodes")
    expect(G.n_nodes(g) == len(expected), "n_nodes()")
    close(G.nodes(g), expected, 1e-10, 1e-10, "nodes()")
    for i in range(len(expected)):
        close(g.node(i), expected[i], 1e-10, 1e-10, f"node({i})")
    close(G.node(g, len(expected) - 1), expected[-1], 1e-10, 1e-10, "node()")
    close(np.array(g.min, dtype=float), lo, 1e-12, 1e-12, "min")
    close(np.array(g.max, dtype=float), hi, 1e-12, 1e-12, "max")
    if n is not None:
        expect([int(k) for k in g.n] == list(n), f"orders {g.n} instead of {n}")


@suite.sub(uniform_grid(dmax=4, nmin=1, nmax=6), quick=400)
def uniform(c):
    g = UniformCartesianGrid(c["min"], c["max"], c["n"])
    ref = enum([axis(a, b, n) for a, b, n in zip(c["min"], c["max"], c["n"])])
    same_grid(g, ref, c["min"], c["max"], len(c["n"]), c["n"])
    expect(g.d == len(c["n"]), "dimension")
    # the bounds are not aliased to the caller's data
    return len(c["n"]) > 1 and len(set(c["n"])) > 1


@suite.sub(uniform_grid(dmax=3), quick=60)
def uniform_default_order(c):
    if len(c["n"]) > 2:
        c = {k: v[:2] for k, v in c.items()}
    g = UniformCartesianGrid(c["min"], c["max"])
    ref = enum([axis(a, b, 20) for a, b in zip(c["min"], c["max"])])
    same_grid(g, ref, c["min"], c["max"], len(c["min"]), [20] * len(c["min"]))
    return len(c["min"]) > 1


@suite.sub(axes(dmax=4, nmin=1), quick=300)
def nonuniform(c):
    g = NonUniformCartesianGrid(c)
    same_grid(g, enum(c), [min(a) for a in c], [max(a) for a in c], len(c), [len(a) for a in c])
    return len(c) > 1


@suite.sub(st.tuples(uniform_grid(dmax=2, nmax=5), uniform_grid(dmax=2, nmax=5), st.booleans()), quick=300)
def sum_uniform(c):
    a, b, star = c
    g1 = UniformCartesianGrid(a["min"], a["max"], a["n"])
    g2 = UniformCartesianGrid(b["min"], b["max"], b["n"])
    g = g1 * g2 if star else g1 + g2
    m, M, n = (a[k] + b[k] for k in ("min", "max", "n"))
    same_grid(g, enum([axis(*t) for t in zip(m, M, n)]), m, M, len(n), n)
    # the joint grid enumerates the first grid slowest
    n2 = g2.n_nodes
    for i in range(g1.n_nodes):
        for j in (0, n2 - 1):
            close(g.node(i * n2 + j), np.concatenate([g1.node(i), g2.node(j)]), 1e-10, 1e-10, "joint node")
    # operands are left alone
    same_grid(g1, enum([axis(*t) for t in zip(a["min"], a["max"], a["n"])]), a["min"], a["max"], 0, a["n"])
    same_grid(g2, enum([axis(*t) for t in zip(b["min"], b["max"], b["n"])]), b["min"], b["max"], 0, b["n"])
    return a != b


@suite.sub(st.tuples(axes(dmax=2, nmax=4), axes(dmax=2, nmax=4), st.booleans()), quick=200)
def sum_nonuniform(c):
    a, b, star = c
    g1, g2 = NonUniformCartesianGrid(a), NonUniformCartesianGrid(b)
    g = g1 * g2 if star else g1 + g2
    ab = a + b
    same_grid(g, enum(ab), [min(x) for x in ab], [max(x) for x in ab], len(ab), [len(x) for x in ab])
    return True


@suite.sub(st.tuples(uniform_grid(dmax=2), axes(dmax=2), st.booleans()), quick=50)
def empty_is_neutral(c):
    a, b, star = c
    for g in (UniformCartesianGrid(a["min"], a["max"], a["n"]), NonUniformCartesianGrid(b)):
        h = EmptyGrid() * g if star else EmptyGrid() + g
        close(h.nodes, g.nodes, 0, 0, "empty + grid")
        expect(h.n_nodes == g.n_nodes, "empty + grid")
    e = EmptyGrid()
    expect(e.nodes is None and e.n_nodes == 0 and e.node(0) is None, "the empty grid has no node")
    return True


@suite.sub(st.integers(1, 4).flatmap(lambda d: st.lists(vec(d, -10, 10), min_size=1, max_size=8)), quick=200)
def unstructured(c):
    g = UnstructuredGrid(c)
    a = np.array(c)
    same_grid(g, a, a.min(axis=0), a.max(axis=0), a.shape[1])
    expect(g.d == a.shape[1], "dimension")
    return len(c) > 1


@suite.sub(st.tuples(axes(dmax=4, nmin=1), uniform_grid(dmax=4, nmin=1), st.booleans()), quick=300)
def product_helpers(c):
    axs, u, with_out = c
    ref = enum(axs)
    if with_out:
        out = np.full(ref.shape, np.nan)
        cartesian(axs, out)
    else:
        out = cartesian(axs)
    close(out, ref, 1e-12, 1e-12, "cartesian product")
    ref = enum([axis(*t) for t in zip(u["min"], u["max"], u["n"])])
    if with_out:
        out = np.full(ref.shape, np.nan)
        mlinspace(u["min"], u["max"], u["n"], out)
    else:
        out = mlinspace(u["min"], u["max"], u["n"])
    close(out, ref, 1e-10, 1e-10, "mlinspace")
    return len(axs) > 1


@suite.sub(st.tuples(uniform_grid(dmax=3), st.booleans(), st.permutations(["k", "z", "A"])), quick=200)
def domain(c):
    u, default, names = c
    d = len(u["n"])
    names = names[:d]
    dom = CartesianDomain(**{s: [a, b] for s, a, b in zip(names, u["min"], u["max"])})
    expect(list(dom.states) == names, "order of the states")
    close(dom.min, u["min"], 0, 0, "domain min")
    close(dom.max, u["max"], 0, 0, "domain max")
    for s, a, b in zip(names, u["min"], u["max"]):
        close(dom[s], [a, b], 0, 0, "bounds of " + s)
    if default and d <= 3:
        n = [10] * d
        g = dom.discretize()
    else:
        n = u["n"]
        g = dom.discretize(n=n)
    same_grid(g, enum([axis(*t) for t in zip(u["min"], u["max"], n)]), u["min"], u["max"], d, n)
    return d > 1


@suite.sub(st.tuples(uniform_grid(dmax=3), st.integers(1, 3)), quick=40)
def smolyak(c):
    u, mu = c
    d = len(u["n"])
    if d == 1:
        reject()
    g = SmolyakGrid(u["min"], u["max"], mu)
    lo, hi = np.array(u["min"]), np.array(u["max"])
    nodes = g.nodes
    # size of a Smolyak grid of order mu (nested Chebychev extrema, m(1)=1, m(i)=2^(i-1)+1)
    def new(i):
        return 1 if i == 1 else (2 if i == 2 else 2 ** (i - 2))
    count = sum(
        int(np.prod([new(i) for i in idx]))
        for idx in itertools.product(range(1, mu + 2), repeat=d) if sum(idx) <= d + mu
    )
    expect(nodes.shape == (count, d), f"{nodes.shape} nodes instead of {(count, d)}")
    expect(g.n_nodes == count and g.d == d, "size")
    close(g.min, lo, 0, 0, "min"); close(g.max, hi, 0, 0, "max")
    u01 = (nodes - lo) / (hi - lo)
    expect((u01 > -1e-9).all() and (u01 < 1 + 1e-9).all(), "nodes inside the bounds")
    expect(len({tuple(np.round(r, 7)) for r in u01}) == count, "distinct nodes")
    close(u01.min(axis=0), np.zeros(d), 0, 1e-9, "bounds are reached")
    close(u01.max(axis=0), np.ones(d), 0, 1e-9, "bounds are reached")
    pts = {tuple(np.round(r, 6) + 0.0) for r in u01}
    expect(tuple([0.5] * d) in pts, "the centre is a node")
    expect(pts == {tuple(np.round(1 - r, 6) + 0.0) for r in u01}, "symmetric around the centre")
    close(g.node(count - 1), nodes[-1], 0, 0, "node")
    return True


@suite.sub(st.tuples(st.integers(1, 4), st.integers(1, 4), seeds), quick=100)
def jacobian(c):
    n, p, s = c
    r = rs(s)
    A, B, x = r.randn(p, n), r.randn(p, n), r.randn(n)
    x0 = x.copy()
    J = MyJacobian(lambda x: A @ x + B @ x**2)(x)
    close(J, A + 2 * B * x, 1e-5, 1e-5, "jacobian of a quadratic function")
    close(x, x0, 0, 0, "the point is left alone")
    return n > 1
