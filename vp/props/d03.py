"""D03: expectation, variance and moments."""
import numpy as np
from hypothesis import strategies as st

from vp.core import Skip, check, check_close, close, fail, subcheck
from vp.dists import *
from vp.plf import *

from jpt.distributions.univariate import Numeric, NumericType

ASSUMPTIONS = ['Moment orders 0 to 5; numeric moments are compared against Gauss-Legendre quadrature over the pieces of the CDF plus its jumps.']

_nodes, _weights = np.polynomial.legendre.leggauss(8)


def integral(segs, f):
    """integral of f against the CDF -> (value, integral of |f|)"""
    v = a = 0.
    for lo, up, _, _, c in segs[1:-1]:
        if len(c) > 1:
            x = lo + (up - lo) * (_nodes + 1) / 2
            y = f(x) * _weights / 2 * c[1] * (up - lo)
            v += y.sum()
            a += np.abs(y).sum()
    for k, h in jumps(segs):
        v += h * f(k)
        a += h * abs(f(k))
    return v, a


center = st.one_of(st.sampled_from([0., 0., 1., -2.5]), st.floats(-20, 20).map(lambda x: round(x, 3)), st.just('mean'))
ncase = st.fixed_dictionaries({'d': numspec(2), 'scaler': st.one_of(st.none(), st.tuples(st.sampled_from([1., .1, 3., 50.]), st.sampled_from([0., 5., -100.])).map(list)),
                               'mo': st.lists(st.tuples(st.integers(0, 5), center).map(list), min_size=1, max_size=4)})


@subcheck('D03', 'numeric', ncase, quick=5000, thorough=100000, shards=4, rule='a distribution with three or more segments or jumps')
def numeric(ctx, case):
    if case['scaler']:
        s, m = case['scaler']
        T = NumericType('T', np.array([m - s, m + s]))      # standard deviation s, mean m
        lab = lambda x: x * s + m
    else:
        T, lab = Numeric, lambda x: x
    d = mk_numeric(case['d'], T)
    segs = read_plf(d.cdf)
    ctx.nontrivial(len(segs) > 2)
    ctx.label('with jumps', bool(jumps(segs)))
    ctx.label('scaled', bool(case['scaler']))
    acc = 1e-9 + sum(slope_tol(segs, x) for x in support(segs))

    def cmp(got, f, what, *args):
        v, a = integral(segs, f)
        t = (1e-7 + 100 * acc) * (a + 1e-3) + 1e-9 * max(np.abs(f(np.array(support(segs)))))
        check(abs(got - v) <= t, '%s = %r, expected %r\n%s', what % args, got, v, d.cdf)
        return v
    e, _ = integral(segs, lab)
    ev, _ = integral(segs, lambda x: x)
    cmp(d.expectation(), lab, 'expectation')
    cmp(d._expectation(), lambda x: x, 'expectation in value space')
    cmp(d.variance(), lambda x: (lab(x) - e) ** 2, 'variance')
    cmp(d._variance(), lambda x: (x - ev) ** 2, 'variance in value space')
    check(d.variance() >= -1e-9 * max(1, e * e), 'negative variance %r', d.variance())
    for k, c in case['mo']:
        cl, cv = (e, ev) if c == 'mean' else (c, c)
        cmp(d.moment(k, cl), lambda x: (lab(x) - cl) ** k, 'moment of order %d around %r', k, cl)
        cmp(d._moment(k, cv), lambda x: (x - cv) ** k, 'moment of order %d around %r in value space', k, cv)
    check(read_plf(d.cdf) == segs, 'the distribution was modified')


@subcheck('D03', 'integer', st.fixed_dictionaries({'dom': domain(('int',)), 'w': params(8), 'mo': st.lists(st.tuples(st.integers(0, 5), center).map(list), min_size=1, max_size=4)}),
          quick=2000, thorough=40000, shards=1, rule='two or more values of positive probability')
def integer(ctx, case):
    T = mk_domain(case['dom'])
    ls = dlabels(case['dom'])
    w = case['w'][:len(ls)]
    if not any(w):
        raise Skip()
    w = normw(w)
    d = T().set(w)
    ctx.nontrivial(sum(x > 0 for x in w) > 1)
    lo = case['dom']['lo']
    e = sum(p * l for p, l in zip(w, ls))
    check_close(d.expectation(), e, 'expectation')
    check_close(d._expectation(), e - lo, 'expectation in value space')
    v = sum(p * (l - e) ** 2 for p, l in zip(w, ls))
    check_close(d.variance(), v, 'variance')
    check_close(d._variance(), v, 'variance in value space')
    for k, c in case['mo']:
        c = e if c == 'mean' else c
        check_close(d.moment(k, c), sum(p * (l - c) ** k for p, l in zip(w, ls)), 'moment of order %d around %r', k, c, atol=1e-9 * 30 ** k)
    check_close(d.moment(), e, 'first raw moment')
    check(list(d.probabilities) == w, 'the distribution was modified')
