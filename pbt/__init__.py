from .core import Suite, expect, close, reject, label, HarnessError, Violation
from hypothesis import strategies as st
