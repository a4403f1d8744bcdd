"""Shared Hypothesis strategies (imported after boot)."""
from hypothesis import strategies as st

INF = float('inf')
seeds = st.integers(0, 2**31 - 1)


def logls(lo=-1e6, hi=1e6, inf=False):
    """log-likelihoods with many ties and several magnitudes"""
    base = [st.integers(-5, 5).map(float),
            st.floats(-50, 50, allow_nan=False),
            st.floats(lo, hi, allow_nan=False),
            st.integers(-40, 40).map(lambda k: k / 8.0)]
    if inf:
        base.append(st.sampled_from([-INF, INF, 0.0, -0.0]))
    return st.one_of(base)


any_double = st.floats(allow_nan=False, allow_infinity=True, width=64)
finite = st.floats(allow_nan=False, allow_infinity=False, width=64)
moderate = st.one_of(st.floats(-1e3, 1e3, allow_nan=False), st.floats(-1e12, 1e12, allow_nan=False),
                     st.integers(-10, 10).map(float))
ident = st.from_regex(r'\A[A-Za-z][A-Za-z0-9_]{0,6}\Z').filter(lambda s: s not in ('logL', 'logPrior'))
names = lambda lo=1, hi=5: st.lists(ident, min_size=lo, max_size=hi, unique=True)

_PN = ['m', 'b2', 'z', 'a1', 'Q', 'x_', 'c', 'B', 'k10', 'k9']


def parnames(d):
    """parameter names in no particular order"""
    return (_PN + ['y%d' % (99 - i) for i in range(d)])[:d]
