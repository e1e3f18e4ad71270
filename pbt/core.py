"""The vocabulary the checks are written in.

A check is a `Suite` of sub-checks.  A sub-check is a pair
    (strategy producing a JSON-able *case*,  function(case) deciding the case)
The function raises Violation (through `expect`/`close`) when the property is
broken on that case and returns True when the case was non-trivial.  All the
randomness lives in the strategy, so a case is a complete, replayable
reproduction.
"""
import numpy as np


class Violation(Exception):
    "The property does not hold on the current case."


class HarnessError(Exception):
    "Something the harness relies on is not there: no verdict."


class Rejected(Exception):
    "The case is outside of the property's domain (counted, not a verdict)."


_labels = []


def label(*names):
    "Classify the current case (shown in the evidence file)."
    _labels.extend(str(n) for n in names)


def expect(cond, msg="property does not hold"):
    if not cond:
        raise Violation(msg if isinstance(msg, str) else str(msg()))


def reject(msg=""):
    raise Rejected(msg)


def close(a, b, rtol=1e-8, atol=1e-8, msg=""):
    a = np.asarray(a, dtype=complex if np.iscomplexobj(a) else float)
    b = np.asarray(b, dtype=complex if np.iscomplexobj(b) else float)
    if a.shape != b.shape:
        raise Violation(f"{msg}: shape {a.shape} instead of {b.shape}")
    if a.size == 0:
        return
    ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    if not ok.all():
        i = np.unravel_index(np.argmin(ok), ok.shape)
        err = np.nanmax(np.abs(a - b)) if np.isfinite(a - b).any() else float("nan")
        raise Violation(
            f"{msg}: got {a[i]!r}, expected {b[i]!r} at {tuple(int(k) for k in i)}"
            f" ({(~ok).sum()} of {ok.size} entries differ, max abs difference {err:.3g})"
        )


class Sub:
    def __init__(self, name, fn, strategy, quick, thorough, shards, setup, crash):
        self.name, self.fn, self.strategy = name, fn, strategy
        self.quick, self.thorough, self.shards = quick, thorough, shards
        self.setup, self.crash = setup, crash


class Suite:
    def __init__(self, prop, rule):
        self.prop, self.rule = prop, rule
        self.subs = {}

    def sub(self, strategy, quick=100, thorough=None, shards=1, setup=None, crash=True):
        """Register a sub-check. `quick`/`thorough`: number of generated cases.
        `shards`: number of processes the cases are spread over."""

        def deco(fn):
            self.subs[fn.__name__] = Sub(
                fn.__name__, fn, strategy, quick, thorough or quick * 10, shards, setup, crash
            )
            return fn

        return deco
