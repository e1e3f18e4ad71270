"""C32 caches"""
import functools
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import numpy as np
from pbt import *
from pbt.gen import *

from dolo.misc import caching

REPO = os.environ.get("VERIF_REPO", "/repo")

suite = Suite(
    "C32",
    "Generated histories of calls of functions with numbers, strings, None, tuples, lists, dictionaries, sets and arrays (nested, of any shape),"
    " returning any of these (zeros and empty ones included) or raising exceptions,"
    " positional or by name, several functions and objects with methods, interleaved with new processes for caches on disk (with different"
    " hash seeds). Results and numbers of evaluations are compared with those of the function and a list of the arguments seen."
    " Non-trivial = arguments are repeated and differ.",
)

# -- arguments: JSON descriptions and their values

leaf = st.one_of(
    st.integers(-3, 3).map(lambda v: ["int", v]), st.sampled_from([0.5, -1.0, 2.0, 1e-300, 1.0000000000000002]).map(lambda v: ["float", v]),
    st.sampled_from(["", "a", "b", "ab", "1", "0.5"]).map(lambda v: ["str", v]), st.just(["none"]), st.booleans().map(lambda v: ["bool", v]),
)
array = st.tuples(st.sampled_from([[1], [2], [3], [4], [1, 4], [4, 1], [2, 2], [2, 1, 2], [0], [0, 2]]), st.sampled_from(["float", "int"]), st.integers(0, 2)).map(lambda t: ["array", *t])
arg = st.recursive(
    st.one_of(leaf, array),
    lambda s: st.one_of(
        st.lists(s, max_size=3).map(lambda v: ["tuple", v]), st.lists(s, max_size=3).map(lambda v: ["list", v]),
        st.dictionaries(st.sampled_from(["a", "b", "c"]), s, max_size=3).map(lambda v: ["dict", sorted(map(list, v.items()))]),
        st.lists(leaf, max_size=4).map(lambda v: ["set", v]),
    ),
    max_leaves=4,
)
# a small pool makes repetitions and near misses likely
calls = st.tuples(st.integers(0, 5), st.integers(0, 5), st.sampled_from(["", "", "b", "ab", "ba"]))


def val(a):
    k = a[0]
    if k == "none":
        return None
    if k in ("int", "float", "str", "bool"):
        return a[1]
    if k == "tuple":
        return tuple(val(e) for e in a[1])
    if k == "list":
        return [val(e) for e in a[1]]
    if k == "set":
        return {val(e) for e in a[1]}
    if k == "dict":
        return {n: val(e) for n, e in a[1]}
    shape, kind, seed = a[1:]
    return np.arange(int(np.prod(shape)), dtype=kind).reshape(shape) + seed


def ident(v):
    """description of a value; equal numbers have the same"""
    if isinstance(v, np.ndarray):
        return f"array{v.shape}{v.dtype}{v.tolist()}"
    if isinstance(v, (list, tuple)):
        return type(v).__name__ + "(" + ",".join(ident(e) for e in v) + ")"
    if isinstance(v, (set, frozenset)):
        return "set(" + ",".join(sorted(ident(e) for e in v)) + ")"
    if isinstance(v, dict):
        return "dict(" + ",".join(sorted(repr(k) + ":" + ident(e) for k, e in v.items())) + ")"
    if isinstance(v, (bool, int, float)):
        return repr(float(v))
    return repr(v)


class Body:
    """functions of two arguments counting evaluations"""

    def __init__(self):
        self.n = 0

    def make(self, name, odd=None, first=None):
        def fun(a, b=0):
            self.n += 1
            if odd is not None and ident(a) == ident(val(first)):
                if odd[0] == "raise":
                    raise {"KeyError": KeyError, "TypeError": TypeError, "OSError": OSError, "ValueError": ValueError}[odd[1]](name)
                return val(odd)
            return [name, ident(a), ident(b)]

        fun.__name__ = name
        return fun


def call(f, pool, c):
    """the call and what identifies it"""
    i, j, how = c
    a, b = val(pool[i % len(pool)]), val(pool[j % len(pool)])
    before = ident(a), ident(b)
    key = {"": ("1", ident(a)), "b": ("k", ident(a), ident(b)), "ab": ("2", ident(a), ident(b)), "ba": ("kk", ident(a), ident(b))}[how]
    try:
        r = f(a) if how == "" else f(a, b=b) if how == "b" else f(a, b) if how == "ab" else f(b=b, a=a)
    except (KeyError, TypeError, OSError, ValueError) as e:
        r = e
    expect((ident(a), ident(b)) == before, "arguments changed")
    return r, key, (before[0], before[1] if how else ident(0))


@st.composite
def two_names(draw):
    """names of functions which are alike"""
    base = draw(st.one_of(st.text("abcdefg_", max_size=24), st.just("solution_")))
    ends = draw(st.sampled_from([("low", "high"), ("", "2"), ("_x", ""), ("A", "a")]))
    return ["f" + base + ends[0], "f" + base + ends[1]] if draw(st.booleans()) else ["f" + ends[0] + base, "g" + ends[1] + base]


# values returned for the first argument of the pool
odd = st.one_of(
    st.none(), st.none(), st.none(), arg, arg, st.sampled_from([["none"], ["int", 0], ["float", 0.0], ["bool", False], ["str", ""], ["list", []], ["dict", []], ["tuple", []], ["array", [0], "float", 0], ["array", [1], "float", 0], ["array", [2, 2], "int", 0]]),
    st.sampled_from(["KeyError", "TypeError", "OSError", "ValueError"]).map(lambda e: ["raise", e]),
)


@st.composite
def history(draw, **kw):
    return dict(names=draw(two_names()), odd=draw(odd), pool=draw(st.lists(arg, min_size=2, max_size=6)), calls=draw(st.lists(calls, min_size=2, max_size=20)), two=draw(st.booleans()))


def run(c, deco, exact=True):
    body = Body()
    names = c["names"] if c["two"] else c["names"][:1]
    odd, first = c["odd"], c["pool"][0]
    fs = {n: deco(body.make(n, odd, first)) for n in names}
    seen, rep = set(), 0
    for t, q in enumerate(c["calls"]):
        n = names[t % len(names)]
        k = body.n
        r, key, want = call(fs[n], c["pool"], q)
        special = odd is not None and want[0] == ident(val(first))
        if special and odd[0] == "raise":
            expect(type(r).__name__ == odd[1] and r.args == (n,), f"call {t}: got {r!r}, expected {odd[1]}")
        elif special:
            want = val(odd)
            expect(type(r) is type(want) and ident(r) == ident(want), f"call {t}: got {r!r}, expected {want!r}")
        else:
            expect(r == [n, *want], f"call {t}: got {r!r}, expected {[n, *want]}")
        # None stands for errors, which are not stored
        none = special and odd[0] in ("raise", "none")
        new = (n, key) not in seen
        rep += not new
        seen.add((n, key))
        if new:
            # equal numbers of different types may be told apart or not
            pass
        elif exact and not none:
            expect(body.n == k, f"call {t}: evaluated again")
        expect(body.n <= k + 1, "evaluated several times")
    return rep > 0 and len(seen) > 1


@suite.sub(history(), quick=300, shards=2)
def memory(c):
    return run(c, caching.memoized)


class place:
    """a scratch working directory"""

    def __enter__(self):
        self.old = os.getcwd()
        self.d = tempfile.mkdtemp()
        os.chdir(self.d)

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d)


def same_types(c):
    """numbers of one type only: whether 1 and 1.0 share files is not specified"""
    types = set()

    def walk(a):
        if a[0] in ("int", "float", "bool"):
            types.add(a[0])
        elif a[0] in ("tuple", "list", "set"):
            for e in a[1]:
                walk(e)
        elif a[0] == "dict":
            for e in a[1]:
                walk(e[1])

    for a in c["pool"]:
        walk(a)
    return len(types) <= 1


@suite.sub(history(), quick=250, shards=2)
def disk(c):
    with place():
        return run(c, caching.cachedondisk, exact=same_types(c))


def harmless(command):
    """stand-in for os.system: only removals in the cache of the scratch directory are done"""
    import glob
    import shlex

    words = shlex.split(command)
    targets = [w for w in words[1:] if not w.startswith("-")]
    ok = words[:1] == ["rm"] and all(w.startswith(".cache/") and ".." not in w for w in targets)
    expect(ok, f"command {command!r} is run")
    for w in targets:
        for f in glob.glob(w):
            os.remove(f)
    return 0


@st.composite
def clear_history(draw):
    pool = st.sampled_from([["int", 0], ["int", -1], ["int", -2], ["str", ""], ["str", "b"]])
    op = st.one_of(st.tuples(st.sampled_from(["fun", "fun2", "afun"]), pool), st.tuples(st.sampled_from(["fun", "fun2", "afun", "all"]), st.just(["clear"])))
    return dict(ops=draw(st.lists(op, min_size=3, max_size=20)))


@suite.sub(clear_history(), quick=150, shards=1)
def clearing(c):
    """clearing the cache on disk forgets the given function only"""
    body = Body()
    seen, cleared = set(), 0
    old = os.system
    with place():
        fs = {n: caching.cachedondisk(body.make(n)) for n in ("fun", "fun2", "afun")}
        os.system = harmless
        try:
            for t, (n, a) in enumerate(c["ops"]):
                if a[0] == "clear":
                    caching.clear_cache() if n == "all" else caching.clear_cache(n)
                    cleared += bool(seen)
                    seen = {(m, k) for m, k in seen if n != "all" and m != n}
                    continue
                k = body.n
                r = fs[n](val(a))
                expect(r == [n, ident(val(a)), ident(0)], f"call {t}: got {r}")
                expect(body.n - k == ((n, ident(val(a))) not in seen), f"call {t}: {body.n - k} evaluations")
                seen.add((n, ident(val(a))))
        finally:
            os.system = old
    return cleared > 0


@st.composite
def dict_history(draw):
    return dict(pool=draw(st.lists(arg, min_size=2, max_size=5)), ops=draw(st.lists(st.tuples(st.sampled_from(["set", "set", "get", "get", "other"]), st.integers(0, 4), st.integers(0, 4), st.integers(0, 9)), min_size=2, max_size=20)))


@suite.sub(dict_history(), quick=200, shards=1)
def dictionary(c):
    """a dictionary on disk against a dictionary"""
    if not same_types(c):
        reject("types of numbers")
    hit = 0
    with place():
        d = {n: caching.DiskDictionary(directory="store", funname=n) for n in ("fun", "gun")}
        ref = {}
        n = "fun"
        for t, (op, i, j, v) in enumerate(c["ops"]):
            key = (val(c["pool"][i % len(c["pool"])]), val(c["pool"][j % len(c["pool"])]))
            if op == "other":
                n = "gun" if n == "fun" else "fun"
            elif op == "set":
                value = [v, np.arange(v)] if v % 2 else v
                d[n][key] = value
                ref[n, ident(key)] = value
            else:
                got = d[n].get(key)
                want = ref.get((n, ident(key)))
                hit += want is not None
                same = got is want is None or (pickle.dumps(got) == pickle.dumps(want))
                expect(same, f"operation {t}: got {got}, expected {want}")
    return hit > 0


@st.composite
def process_history(draw):
    return dict(history=draw(history()), seeds=draw(st.lists(st.integers(1, 1000), min_size=2, max_size=3)))


SCRIPT = """
import json, sys
sys.path.insert(0, {verif!r})
sys.path.insert(0, {repo!r})
import importlib.util
spec = importlib.util.spec_from_file_location("caching", {repo!r} + "/dolo/misc/caching.py")
caching = importlib.util.module_from_spec(spec)
spec.loader.exec_module(caching)
import numpy as np
{source}
c = json.loads(sys.argv[1])
body = Body()
f = caching.cachedondisk(body.make("fun"))
def expect(ok, msg):
    assert ok, msg
out = []
for q in c["calls"]:
    k = body.n
    r, key, want = call(f, c["pool"], q)
    out.append([r == ["fun", *want], body.n - k])
d = caching.DiskDictionary(directory="store")
old = [d.get((val(a),)) for a in c["pool"]]
for i, a in enumerate(c["pool"]):
    d[(val(a),)] = ident(val(a))
print("RESULT" + json.dumps([out, old, [ident(val(a)) for a in c["pool"]]]))
"""


@suite.sub(process_history(), quick=16, shards=4)
def processes(c):
    """what one process stores is found by the next ones"""
    import inspect

    h = c["history"]
    source = "\n".join(inspect.getsource(o) for o in (val, ident, Body, call))
    script = SCRIPT.format(verif="", repo=REPO, source=source)
    with place():
        for t, s in enumerate(c["seeds"]):
            env = dict(os.environ, PYTHONHASHSEED=str(s))
            p = subprocess.run([sys.executable, "-c", script, json.dumps(h)], env=env, capture_output=True, text=True)
            expect(p.returncode == 0, "process failed: " + p.stderr[-2000:])
            out, old, ids = json.loads(p.stdout.split("RESULT")[1])
            expect(all(ok for ok, _ in out), f"process {t}: wrong result")
            if t > 0:
                expect(old == ids, f"process {t}: values of the dictionary {old}, expected {ids}")
                expect(not any(n for _, n in out), f"process {t} evaluates again calls {[i for i, (_, n) in enumerate(out) if n]}")
    return True


class Thing:
    def __init__(self, name, log):
        self.name, self.log = name, log

    @caching.memoized
    def method(self, a, b=0):
        self.log.append(1)
        return [self.name, ident(a), ident(b)]


@suite.sub(history(), quick=100, shards=1)
def methods(c):
    """methods of several objects do not share results"""
    log = []
    things = [Thing("x", log), Thing("y", log)]
    seen = set()
    for t, q in enumerate(c["calls"]):
        o = things[t % 2]
        k = len(log)
        r, key, want = call(o.method, c["pool"], q)
        expect(r == [o.name, *want], f"call {t}: got {r}, expected {[o.name, *want]}")
        if (o.name, key) in seen:
            expect(len(log) == k, f"call {t}: evaluated again")
        seen.add((o.name, key))
    return len(seen) > 2
