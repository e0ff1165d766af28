"""Shared Hypothesis strategies (everything drawn is JSON-able)."""
from hypothesis import strategies as st

seeds = st.integers(0, 2**31 - 1)


def fd(**kw):
    return st.fixed_dictionaries(kw)


def size(lo, hi, small=4, rare=0):
    """Sizes biased to small values, reaching hi; one in twenty up to rare."""
    if not rare and hi <= small:
        return st.integers(lo, hi)
    if not rare:
        return st.one_of(st.integers(lo, min(small, hi)), st.integers(lo, hi))
    return st.integers(0, 19).flatmap(
        lambda k: st.integers(hi, rare) if k == 19
        else st.integers(lo, hi if k % 2 else min(small, hi)))


def choice(*xs):
    return st.sampled_from(list(xs))


def fl(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=64)


precision = st.sampled_from(["d", "f"])
