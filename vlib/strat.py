"""Hypothesis strategies shared by the checks (every case is a JSON-able dict)."""
from . import core
from hypothesis import strategies as st

seeds = st.integers(0, 2**31 - 1)
dtypes = st.sampled_from(["float64", "complex128", "float32", "complex64"])
dtypes_mostly_double = st.sampled_from(["float64", "complex128", "float64", "complex128", "float64", "complex128", "float32", "complex64"])
double = st.sampled_from(["float64", "complex128"])


def case(**kw):
    return st.fixed_dictionaries(kw)
