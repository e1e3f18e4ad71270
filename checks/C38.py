"""C38 small tools"""
import os
import shutil
import tempfile
import warnings
import numpy as np
from pbt import *
from pbt.gen import *

from dolo.misc.groot import groot
from dolo.misc.decorators import deprecated
from dolo.compiler.misc import CalibrationDict, LoosyDict, calibration_to_dict, calibration_to_vector

suite = Suite(
    "C38",
    "Generated directory trees with readme files at several levels (or none), visited from any directory and with any relative destination,"
    " in a scratch directory; generated histories of reads of dictionaries with equivalent names; generated groups of symbols and values, written"
    " as numbers or as expressions of each other; functions called through their deprecation. Non-trivial = several levels, names or groups.",
)


@st.composite
def tree(draw):
    depth = draw(st.integers(0, 5))
    return dict(
        depth=depth, marks=draw(st.lists(st.tuples(st.integers(0, depth), st.sampled_from(["README.md", "README", "README.txt", "readme.md", "notes.md"])), max_size=4)),
        path=draw(st.sampled_from(["", "", "examples", "examples/models", ".", "examples/.."])), name=draw(st.sampled_from(["d", "a b", "é", "README_dir"])), as_dir=draw(st.booleans()),
    )


@suite.sub(tree(), quick=200, shards=1)
def root(c):
    """groot goes to the nearest directory with a readme"""
    base = os.path.realpath(tempfile.mkdtemp())
    old = os.getcwd()
    try:
        dirs = [base]
        for k in range(c["depth"]):
            dirs.append(os.path.join(dirs[-1], f"{c['name']}{k}"))
            os.mkdir(dirs[-1])
        for k, n in c["marks"]:
            open(os.path.join(dirs[k], n), "w").close()
        for d in dirs:
            os.makedirs(os.path.join(d, "examples", "models"), exist_ok=True)
        found = [k for k in range(len(dirs)) if any(j == k and n in ("README", "README.md") for j, n in c["marks"])]
        before = sorted(os.walk(base))
        os.chdir(dirs[-1])
        if found:
            groot(c["path"]) if c["path"] else groot()
            want = os.path.normpath(os.path.join(dirs[found[-1]], c["path"]))
        else:
            # directories above the scratch one may hold a readme
            up, want = base, None
            while want is None:
                if any(os.path.exists(os.path.join(up, n)) for n in ("README", "README.md")):
                    reject("readme above the scratch directory")
                if up == os.path.dirname(up):
                    break
                up = os.path.dirname(up)
            want = dirs[-1]
            try:
                groot(c["path"])
            except Exception:
                pass
            else:
                expect(False, "no root, no exception")
        expect(os.getcwd() == want, f"moved to {os.path.relpath(os.getcwd(), base)}, expected {os.path.relpath(want, base)}")
        expect(sorted(os.walk(base)) == before, "files changed")
        return bool(found) and found[-1] < len(dirs) - 1
    finally:
        os.chdir(old)
        shutil.rmtree(base)


NAMES = ["arbitrage", "transition", "value", "equilibrium", "optimality", "x"]


@st.composite
def names(draw):
    eq = draw(st.dictionaries(st.sampled_from(NAMES), st.sampled_from(NAMES), max_size=4))
    return dict(eq=sorted(map(list, eq.items())), init=draw(st.lists(st.sampled_from(NAMES), unique=True)), ops=draw(st.lists(st.tuples(st.sampled_from(["get", "get", "set", "in", "del"]), st.sampled_from(NAMES), st.integers(0, 9)), min_size=1, max_size=15)))


@suite.sub(names(), quick=200, shards=1)
def equivalent_names(c):
    """reading a name reads the one it is equivalent to"""
    eq = dict(c["eq"])
    ref = {n: i for i, n in enumerate(c["init"])}
    d = LoosyDict(equivalences=eq, **ref)
    hits = 0
    for t, (op, n, v) in enumerate(c["ops"]):
        if op == "get":
            k = eq.get(n, n)
            hits += k != n and k in ref
            try:
                got = d[n]
            except KeyError:
                expect(k not in ref, f"operation {t}: {n} not found")
            else:
                expect(k in ref and got == ref[k], f"operation {t}: {n} reads {got}")
        elif op == "set":
            d[n] = ref[n] = v
        elif op == "in":
            # (names which stand for others are not specified)
            expect(n in eq or (n in d) == (n in ref), f"operation {t}: {n} in the dictionary")
        elif n in ref:
            del d[n], ref[n]
        expect(dict(d) == ref, f"operation {t}: content {dict(d)}")
    return hits > 0


GROUPS = ["exogenous", "states", "controls", "parameters", "values"]


@st.composite
def groups(draw):
    gs = draw(st.lists(st.sampled_from(GROUPS), min_size=1, unique=True))
    n, out = 0, []
    for g in gs:
        k = draw(st.integers(0, 3))
        out.append([g, [f"v{n + i}" for i in range(k)]])
        n += k
    return dict(groups=out, vals=draw(vec(n, -5, 5)), given=[draw(st.integers(0, 5)) for _ in range(n)], order=draw(st.permutations(list(range(n)))))


@suite.sub(groups(), quick=200, shards=1)
def calibrations(c):
    """vectors of each group, in order, from values or expressions in any order; and back"""
    sy = {g: list(ns) for g, ns in c["groups"]}
    flat = sum(sy.values(), [])
    vals, written = {}, {}
    for i, n in enumerate(flat):
        kind = c["given"][i]
        if kind == 0:
            vals[n] = float("nan")  # not calibrated
        elif kind == 1 and i > 0 and flat[i - 1] in written:
            vals[n] = 2 * vals[flat[i - 1]] + c["vals"][i]
            written[n] = f"2*{flat[i - 1]} + ({c['vals'][i]!r})"
        else:
            vals[n] = written[n] = c["vals"][i]
    given = {flat[i]: written[flat[i]] for i in c["order"] if flat[i] in written}
    copy = dict(given)
    vectors = calibration_to_vector(sy, given)
    expect(given == copy, "values changed")
    expect(list(vectors) == list(sy), f"groups {list(vectors)}")
    for g, ns in sy.items():
        expect(vectors[g].shape == (len(ns),), f"shape of {g}")
        if ns:
            close(vectors[g], [vals[n] for n in ns], 1e-10, 1e-12, f"vector of {g}")
    back = calibration_to_dict(sy, vectors)
    expect(sorted(back) == sorted(flat), "names")
    q = CalibrationDict(sy, vectors)
    for n in flat:
        close(back[n], vals[n], 1e-10, 1e-12, n)
        close(q[n], vals[n], 1e-10, 1e-12, n)
        close(q[n, flat[0]], [vals[n], vals[flat[0]]], 1e-10, 1e-12, "two names")
    for g, ns in sy.items():
        if ns:
            # the calibration does not share memory with what it was made from, nor can be written
            vectors[g][0] += 1.0
            close(q[g], [vals[n] for n in ns], 1e-10, 1e-12, f"{g} after its vector is modified")
            try:
                q[g][0] = 1000.0
            except ValueError:
                pass
            close(q[g], [vals[n] for n in ns], 1e-10, 1e-12, f"{g} after an attempt to modify it")
    if "controls" in sy and sy["controls"]:
        close(q["actions"], q["controls"], 0, 0, "actions")
    return len(flat) > 2 and len(sy) > 1


@st.composite
def call(draw):
    return dict(args=draw(st.lists(st.integers(-5, 5), max_size=3)), kw=draw(st.dictionaries(st.sampled_from(["u", "v"]), st.integers(-5, 5))), n=draw(st.integers(1, 3)), fail=draw(st.integers(0, 4)) == 0)


@suite.sub(call(), quick=80, shards=1)
def deprecation(c):
    """deprecated functions warn, and do what they did"""
    log = []

    def fun(*args, **kw):
        """text"""
        log.append((args, kw))
        if c["fail"]:
            raise KeyError("fun")
        return [args, kw]

    f = deprecated(fun)
    expect(f.__name__ == "fun" and f.__doc__ == "text", "name and documentation")
    for k in range(c["n"]):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                r = f(*c["args"], **c["kw"])
            except KeyError as e:
                expect(c["fail"] and e.args == ("fun",), "exception")
            else:
                expect(not c["fail"] and r == [tuple(c["args"]), c["kw"]], f"result {r}")
        expect(len(w) == 1 and "fun" in str(w[0].message), f"warnings {[str(x.message) for x in w]}")
        expect(len(log) == k + 1 and log[-1] == (tuple(c["args"]), c["kw"]), f"calls {log}")
    return len(c["args"]) > 0 and len(c["kw"]) > 0
