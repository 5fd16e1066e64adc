"""D01: probabilities, densities and quantiles of numeric distributions."""
import math

import numpy as np
from hypothesis import strategies as st

from vp.core import Skip, check, check_close, close, fail, subcheck
from vp.dists import *
from vp.plf import *
from vp.sets import EXC, INC, INF, nxt, prv

from jpt.base.intervals import ContinuousSet, RealSet, EMPTY, R
from jpt.base.utils import list2interval
from jpt.distributions.quantile.quantiles import QuantileDistribution
from jpt.distributions.univariate import Numeric, NumericType

ASSUMPTIONS = ['The cumulative distribution of the object is the reference (its own correctness is decided by Q01 and Q02).',
               'In scaled label space, query bounds closer than 1e-9 to a point mass are not compared (rounding of the scaling).']

spec2 = numspec(2)


def near_jump(segs, x):
    return abs(x) != INF and any(abs(k - x) <= 1e-9 * max(1., abs(x)) and h > 1e-9 for k, h in jumps(segs))


@subcheck('D01', 'probability', st.fixed_dictionaries({'d': spec2, 'ivs': st.lists(ivspec(), min_size=1, max_size=4), 'u': ivunion()}),
          quick=6000, thorough=100000, shards=4, rule='an interval with a probability strictly between 0 and 1')
def probability(ctx, case):
    d = mk_numeric(case['d'])
    segs = read_plf(d.cdf)
    lo, hi = support(segs)
    tol = 1e-8 + 4 * (slope_tol(segs, lo) + slope_tol(segs, hi))
    ctx.label('with point mass', bool(jumps(segs)))
    for iv in case['ivs']:
        a, b, l, r = mk_iv(iv, segs)
        s = ContinuousSet(a, b, l, r)
        e = set_mass(segs, a, b, l, r)
        ctx.nontrivial(1e-6 < e < 1 - 1e-6)
        p = d._p(s)
        check(0 <= p <= 1, 'P(%r) = %r', s, p)
        check_close(p, e, 'P(%r)\n%s', s, d.cdf, atol=tol)
        check(d.p(s) == p and d[s] == p, 'p, [] and _p differ without scaling')
        # complement, and additivity at a cut
        c = s.complement()
        check_close(d._p(c), 1 - e, 'P of the complement of %r', s, atol=2 * tol)
        if a < b:
            m = resolve([.5, False], segs)
            if a < m < b:
                for m in (m, resolve([.5, True], segs)):
                    if a < m < b:
                        for k in ((EXC, INC), (INC, EXC)):
                            p1, p2 = d._p(ContinuousSet(a, m, l, k[0])), d._p(ContinuousSet(m, b, k[1], r))
                            check_close(p1 + p2, p, 'additivity of P(%r) at %r', s, m, atol=2 * tol)
        if a > -INF:
            x = set_mass(segs, a, a, INC, INC)
            check_close(d._p(a), x, 'P({%r})', a, atol=tol)
            check_close(d.p(ContinuousSet(a, a)), x, 'P([%r])', a, atol=tol)
        q = ContinuousSet(a, b, l, r)
        check((q.lower, q.upper, q.left, q.right) == (s.lower, s.upper, s.left, s.right), 'the query was modified')
    us = [mk_iv(iv, segs) for iv in case['u']]
    s = RealSet([ContinuousSet(*u) for u in us])
    e = 0.
    cur = None
    # exact union by elementary pieces
    pts = sorted({x for u in us for x in u[:2] if abs(x) != INF})
    cells = [(-INF, pts[0], EXC, EXC)] if pts else [(-INF, INF, EXC, EXC)]
    for x, y in zip(pts, pts[1:] + [INF]):
        cells += [(x, x, INC, INC), (x, y, EXC, EXC)]
    for c in cells:
        x = c[0] if c[0] == c[1] else None
        if any((u[0] < x < u[1] or x == u[0] and u[2] == INC and x <= u[1] or x == u[1] and u[3] == INC and x >= u[0]) and
               not (u[0] == u[1] and EXC in u[2:]) if x is not None else u[0] <= c[0] and c[1] <= u[1] for u in us):
            e += set_mass(segs, *c)
    p = d._p(s)
    check(0 <= p <= 1, 'P(%r) = %r', s, p)
    check_close(p, e, 'P(%r)\n%s', s, d.cdf, atol=4 * tol)
    check(d._p(R) == 1, 'P(R) = %r', d._p(R))
    check(d._p(ContinuousSet(1, 1, EXC, EXC)) == 0 and d._p(RealSet([])) == 0, 'P of the empty set')
    check(read_plf(d.cdf) == segs, 'asking for probabilities modified the distribution')
    try:
        d._p('x')
    except TypeError:
        pass
    else:
        fail('a string was accepted as a query')


@subcheck('D01', 'density_quantile', st.fixed_dictionaries({'d': spec2, 'qs': st.lists(st.floats(0, 1), min_size=1, max_size=6)}),
          quick=3000, thorough=60000, shards=3, rule='three or more segments')
def density_quantile(ctx, case):
    d = mk_numeric(case['d'])
    segs = read_plf(d.cdf)
    dens = read_plf(d.pdf)
    ctx.nontrivial(len(segs) > 3)
    lo, hi = support(segs)
    span = hi - lo
    if len(segs) == 2:
        check(d.is_dirac_impulse(), 'point mass not recognised')
        check(d.pdf.eval(lo) == INF and d.pdf.eval(prv(lo)) == 0 and d.pdf.eval(lo + 1e-3) == 0, 'density of a point mass: %s', d.pdf)
        check(d.ppf.eval(1.) == lo == d.quantile(1.), 'quantile of a point mass')
        return
    check(not d.is_dirac_impulse(), 'taken for a point mass: %s', d.cdf)
    for x in cprobes(segs):
        s = [c for a, b, _, _, c in segs if a <= x < b]
        check_close(d.pdf.eval(x), (s[0] + [0.])[1], 'density at %r', x, rtol=1e-9, atol=1e-12)
    for a, b, _, _, c in segs[1:-1]:
        p = d._p(ContinuousSet(a, b, EXC, EXC))
        check_close(p, d.pdf.eval((a + b) / 2) * (b - a), 'mass of (%r, %r)', a, b, atol=1e-9 + 4 * slope_tol(segs, a) + 4 * slope_tol(segs, b))
    ppf = d.ppf
    tol = 1e-7 + slope_tol(segs, lo) + slope_tol(segs, hi)
    for g in case['qs'] + [.5, 1.] + [peval(segs, s[0]) for s in segs[1:]]:
        if g <= 1e-9 or g > 1:
            continue
        x = ppf.eval(g)
        check(d.quantile(g) == x, 'quantile differs from ppf')
        check(not math.isnan(x), 'quantile(%r) is undefined\n%s\n%s', g, d.cdf, ppf)
        check(lo - 1e-7 * span <= x <= hi + 1e-7 * span, 'quantile(%r) = %r outside of the support\n%s', g, x, d.cdf)
        e = 1e-7 * span + 1e-12 * abs(x)
        check(peval(segs, x + e) >= g - tol and left_limit(segs, x - e) <= g + tol, 'CDF(quantile(%r) = %r) = %r\n%s', g, x, peval(segs, x), d.cdf)
    if not jumps(segs):
        # the CDF is determined by the density
        q = QuantileDistribution.from_pdf(d.pdf)
        r = read_plf(q.cdf)
        for x in cprobes(segs):
            check_close(peval(r, x), peval(segs, x), 'CDF recovered from the density at %r' % x, atol=1e-6 + 10 * slope_tol(segs, lo) + 10 * slope_tol(segs, hi))
    check(read_plf(d.cdf) == segs, 'the distribution was modified')


labels = st.lists(st.one_of(st.integers(-50, 50).map(float), st.floats(-1e3, 1e3).map(lambda x: round(x, 4))), min_size=2, max_size=12).filter(
    lambda xs: len(set(xs)) > 1)


@subcheck('D01', 'label_space', st.fixed_dictionaries({
    'type': labels, 'x': st.one_of(st.none(), labels), 'eps': EPS, 'm': st.one_of(st.none(), st.tuples(labels, wvec(2)).map(list)),
    'ivs': st.lists(ivspec(), min_size=1, max_size=4)}), quick=3000, thorough=60000, shards=2, rule='an interval with a probability strictly between 0 and 1')
def label_space(ctx, case):
    """a scaled distribution answers queries in original units like an unscaled one fitted to the same data"""
    T = NumericType('T', case['type'])
    mean, scale = float(np.mean(case['type'])), float(np.std(case['type']))
    xs = case['x'] or case['type']
    u = np.unique(xs)
    if len(u) > 1 and np.diff(u).min() < 1e-3 or scale < 1e-2:
        raise Skip()
    vals = [T.label2value(x) for x in xs]
    for x, v in zip(xs, vals):
        check_close(v, (x - mean) / scale, 'value of label %r', x, atol=1e-9)
        check_close(T.value2label(v), x, 'label of value %r', v, atol=1e-9)
    mk = lambda ys: T(precision=case['eps'])._fit(np.array([T.label2value(y) for y in ys]).reshape(-1, 1))
    d = mk(xs)
    if case['m']:
        if np.diff(np.unique(case['m'][0])).min() < 1e-3:
            raise Skip()
        d = T.merge([d, mk(case['m'][0])], normw(case['m'][1]))
        check(isinstance(d, T), 'mixture lost its type')
    segs = read_plf(d.cdf)
    lo, hi = support(segs)
    tol = 1e-7 + 1e3 * (slope_tol(segs, lo) + slope_tol(segs, hi))
    for iv in case['ivs']:
        a, b, l, r = mk_iv(iv, segs)
        if near_jump(segs, a) or near_jump(segs, b):
            a = a if abs(a) == INF else a - 1e-4
            b = b if abs(b) == INF else b + 1e-4
        e = set_mass(segs, a, b, l, r)
        ctx.nontrivial(1e-6 < e < 1 - 1e-6)
        la, lb = (x if abs(x) == INF else x * scale + mean for x in (a, b))
        s = ContinuousSet(la, lb, l, r)
        check_close(d.p(s), e, 'P(%r) in label space', s, atol=tol)
        check_close(d.p(RealSet([s])), e, 'P(RealSet %r) in label space', s, atol=tol)
        check_close(d._p(ContinuousSet(a, b, l, r)), e, 'P of %r in value space', (a, b), atol=tol)
        v = T.label2value(s)
        check(close(v.lower, a, 1e-9, 1e-9) and close(v.upper, b, 1e-9, 1e-9) and (v.left, v.right) == (s.left, s.right), 'value space form of %r: %r', s, v)
        if e > 1e-3 and a < b:
            c = d.crop(s)
            check(isinstance(c, T), 'restriction lost its type')
            cs = read_plf(c.cdf)
            m = (max(a, lo) + min(b, hi)) / 2
            if not near_jump(segs, m):
                check_close(c.p(ContinuousSet(-INF, m * scale + mean)), set_mass(segs, a, m, l, INC) / e, 'restricted to %r: P(<= %r)' % (s, m), atol=tol / e)
    check(d.p(R) == 1, 'P(R)')
