"""Q02: mixtures and restrictions of numeric distributions."""
import math

import numpy as np
from hypothesis import strategies as st

from vp.core import Skip, check, check_close, close, fail, subcheck
from vp.dists import *
from vp.plf import *
from vp.sets import EXC, INC, INF, nxt, prv

from jpt.base.errors import Unsatisfiability
from jpt.base.intervals import ContinuousSet, RealSet
from jpt.distributions.quantile.quantiles import QuantileDistribution
from jpt.distributions.univariate import Numeric

ASSUMPTIONS = ['Samples spread over at most about 1e4 units and neighbouring values differ by at least 1e-7; mixing drops slopes below 1e-8 by design.',
               'Restrictions with a probability strictly between 0 and 1e-6 are not compared (rounding).']


def same_cdf(got, exp, pts, what, atol):
    """got: segments; exp: x -> (left limit, value)"""
    for x in pts:
        l, v = exp(x)
        check_close(peval(got, x), v, '%s: CDF(%r)', what, x, atol=atol, rtol=0)
        check_close(left_limit(got, x), l, '%s: left limit of the CDF at %r', what, x, atol=atol, rtol=0)


def valid(segs, what):
    check(segs[0][0] == -INF and segs[-1][1] == INF and segs[0][4] == [0.] and segs[-1][4] == [1.], '%s: CDF does not run from 0 to 1: %r', what, segs)
    last = 0.
    for s1, s2 in zip(segs, segs[1:]):
        check(s1[1] == s2[0] and s1[3] == EXC and s2[2] == INC, '%s: gap or overlap at %r', what, s1[1])
    for x in cprobes(segs):
        y = peval(segs, x)
        check(y >= last - 1e-7 - slope_tol(segs, x) and -1e-7 <= y <= 1 + 1e-7, '%s: CDF(%r) = %r after %r', what, x, y, last)
        last = y


@st.composite
def merge_case(draw):
    n = draw(st.integers(1, 5))
    pool = [draw(numspec(1, xs=sample_values(max_size=15, scaled=False))) for _ in range(n)]
    if n > 1 and draw(st.integers(0, 3)) == 0:
        pool[-1] = pool[0]
    return dict(ds=pool, w=draw(wvec(n)), s=draw(st.sampled_from([1., 1., 1., 10., .01, 1000.])))


def scale_spec(spec, s):
    if spec['t'] == 'fit':
        return dict(spec, x=[v * s for v in spec['x']])
    if spec['t'] == 'dirac':
        return dict(spec, x=spec['x'] * s)
    if spec['t'] == 'merge':
        return dict(spec, ds=[scale_spec(d, s) for d in spec['ds']])
    return dict(spec, d=scale_spec(spec['d'], s))


@subcheck('Q02', 'merge', merge_case(), quick=4000, thorough=80000, shards=4, rule='two or more components with positive weight')
def merge(ctx, case):
    ds = [mk_numeric(scale_spec(d, case['s'])) for d in case['ds']]
    w = normw(case['w'])
    for d in ds:
        d.settings = {'precision': .125}
    ctx.nontrivial(sum(x > 0 for x in w) >= 2)
    ctx.label('point masses', sum(len(d.cdf) == 2 for d in ds))
    segs = [read_plf(d.cdf) for d in ds]
    m = Numeric.merge(ds, w)
    check([read_plf(d.cdf) for d in ds] == segs, 'merging modified a component')
    got = read_plf(m.cdf)
    valid(got, 'mixture')
    lo, hi = min(support(s)[0] for s in segs), max(support(s)[1] for s in segs)
    atol = 1e-7 + 1e-8 * (hi - lo) + sum(slope_tol(s, x) for s in segs for x in (lo, hi))
    same_cdf(got, lambda x: (sum(a * left_limit(s, x) for a, s in zip(w, segs)), sum(a * peval(s, x) for a, s in zip(w, segs))),
             cprobes(*segs, got), 'mixture', atol)
    check(type(m) is Numeric, 'type of a mixture: %r', type(m))
    check(m.settings == ds[0].settings, 'settings of a mixture of distributions with %r: %r', ds[0].settings, m.settings)
    q = QuantileDistribution.merge([QuantileDistribution.from_cdf(d.cdf.copy()) for d in ds], w)
    check(read_plf(q.cdf) == got, 'QuantileDistribution.merge differs from Numeric.merge')
    if len(set(case['w'])) == 1:
        q = QuantileDistribution.merge([QuantileDistribution.from_cdf(d.cdf.copy()) for d in ds])
        same_cdf(read_plf(q.cdf), lambda x: (left_limit(got, x), peval(got, x)), cprobes(got), 'default weights', atol)
    try:
        Numeric.merge(ds, [x * 1.01 for x in w])
    except ValueError:
        pass
    else:
        fail('weights %r were accepted', [x * 1.01 for x in w])


@subcheck('Q02', 'update', st.fixed_dictionaries({'a': numspec(1), 'b': numspec(1), 'w': st.sampled_from([0., .1, .5, 1.])}),
          quick=1000, thorough=20000, shards=1, rule='positive weight')
def update(ctx, case):
    """updating with weight w mixes one part of the original with w parts of the other"""
    a, b, w = mk_numeric(case['a']), mk_numeric(case['b']), case['w']
    sa, sb = read_plf(a.cdf), read_plf(b.cdf)
    ctx.nontrivial(w > 0)
    r = a.update(b, w)
    check(r is a, 'update does not return the distribution')
    check(read_plf(b.cdf) == sb, 'update modified its argument')
    f = lambda g: lambda x: (g(sa, x) + w * g(sb, x)) / (1 + w)
    span = max(support(sa)[1], support(sb)[1]) - min(support(sa)[0], support(sb)[0])
    same_cdf(read_plf(a.cdf), lambda x: (f(left_limit)(x), f(peval)(x)), cprobes(sa, sb), 'update', 1e-6 + 1e-8 * span)
    for bad in (-.1, 1.1):
        try:
            a.update(b, bad)
        except ValueError:
            continue
        fail('update accepted weight %r', bad)


def cond(segs, ivs, total):
    """left limit and value of the conditional CDF"""
    def f(x):
        le, lt = 0., 0.
        for a, b, l, r in ivs:
            if a < x:
                lt += set_mass(segs, a, min(b, x), l, r if b < x else EXC)
            if a <= x:
                le += set_mass(segs, a, min(b, x), l, r if b <= x else INC)
        return lt / total, le / total
    return f


def disjoint_ivs(specs, segs):
    """resolves interval specs to a sorted list of non-empty disjoint intervals (dropping overlapping ones)"""
    out = []
    for a, b, l, r in sorted(mk_iv(iv, segs) for iv in specs):
        if a == b and (l, r) != (INC, INC) or b < INF and prv(b) <= a < b and EXC in (l, r):
            continue
        if out and (a < out[-1][1] or a == out[-1][1] and l == INC == out[-1][3]):
            continue
        out.append((a, b, l, r))
    return out


def flat(segs, iv):
    """no mass and no density in the interval, its ends included"""
    cs = [c for lo, up, _, _, c in segs if lo <= iv[1] and iv[0] <= up and not (lo == iv[1] and iv[3] == EXC and lo > -INF)]
    return all(len(c) == 1 and c == cs[0] for c in cs)


def restricted(ctx, d, segs, ivs, run, what):
    d.settings = {'precision': .375}
    total = mass_of(segs, ivs)
    if all(flat(segs, iv) for iv in ivs):
        ctx.label('no mass')
        try:
            c = run()
        except Unsatisfiability:
            return
        fail('%s: a restriction without probability is accepted: %r\n%s', what, ivs, c.cdf)
    if total < 1e-6:
        ctx.label('no relevant mass')
        return
    c = run()
    check(read_plf(d.cdf) == segs, '%s modified the original', what)
    check(c.settings == d.settings == {'precision': .375} and c.settings is not d.settings, '%s of a distribution with %r has %r', what, d.settings, c.settings)
    got = read_plf(c.cdf)
    valid(got, what)
    lo, hi = support(segs)
    atol = (1e-9 + slope_tol(segs, lo) + slope_tol(segs, hi)) / total + slope_tol(got, lo) + slope_tol(got, hi) + (
        1e-8 * (hi - lo) + 1e-7 if len(ivs) > 1 else 0) + 1e-8
    f = cond(segs, ivs, total)
    pts = {x for x in cprobes(segs, got)} | {x for iv in ivs for x in iv[:2] if abs(x) != INF}
    for x in sorted(pts):
        if any(0 < abs(x - e) < 1e-9 * max(1., abs(e)) for iv in ivs for e in iv[:2]):
            continue
        l, v = f(x)
        if any(a == x and e == EXC or b == x and e == EXC for a, b, e in [(iv[0], None, iv[2]) for iv in ivs] + [(None, iv[1], iv[3]) for iv in ivs]):
            # at an open end, the implementation works with the neighbouring double
            check(close(peval(got, x), v, 0, atol), '%s: CDF(%r) = %r, expected %r\n%s', what, x, peval(got, x), v, c.cdf)
            continue
        check(close(peval(got, x), v, 0, atol), '%s: CDF(%r) = %r, expected %r\n%s', what, x, peval(got, x), v, c.cdf)
        check(close(left_limit(got, x), l, 0, atol), '%s: left limit at %r = %r, expected %r\n%s', what, x, left_limit(got, x), l, c.cdf)
    # no mass outside
    for a, b in zip([-INF] + [iv[1] for iv in ivs], [iv[0] for iv in ivs] + [INF]):
        if a < b:
            check(close(set_mass(got, a, b, EXC, EXC), 0, 0, atol), '%s: mass in the excluded (%r, %r)', what, a, b)
    return c


@subcheck('Q02', 'crop', st.fixed_dictionaries({'d': numspec(2), 'iv': ivspec()}), quick=8000, thorough=80000, shards=3,
          rule='the restriction has positive probability less than one')
def crop(ctx, case):
    d = mk_numeric(case['d'])
    segs = read_plf(d.cdf)
    a, b, l, r = mk_iv(case['iv'], segs)
    if a == b and (l, r) != (INC, INC) or a < b and b != INF and nxt(a) >= b:
        raise Skip()
    ctx.nontrivial(1e-6 < set_mass(segs, a, b, l, r) < 1 - 1e-6)
    s = ContinuousSet(a, b, l, r)
    if a == b:
        # a single value: all mass there, if the density allows for it
        c = d._crop(s)
        check(read_plf(c.cdf) == [[-INF, a, EXC, EXC, [0.]], [a, INF, INC, EXC, [1.]]], 'restriction to %r: %s', a, c.cdf)
        c = d._crop(a)
        check(read_plf(c.cdf) == [[-INF, a, EXC, EXC, [0.]], [a, INF, INC, EXC, [1.]]], 'restriction to %r: %s', a, c.cdf)
        check(read_plf(d.cdf) == segs, 'restriction to a single value modified the original')
        return
    c = restricted(ctx, d, segs, [(a, b, l, r)], lambda: d._crop(s), 'crop to %r' % s)
    if c is not None:
        check(read_plf(d.crop(s).cdf) == read_plf(c.cdf), 'crop and _crop differ without scaling')
        q = QuantileDistribution.from_cdf(d.cdf.copy()).crop(s)
        check(read_plf(q.cdf) == read_plf(c.cdf), 'the restricted quantile distribution differs')
        e = c._crop(s)
        same_cdf(read_plf(e.cdf), lambda x: (left_limit(read_plf(c.cdf), x), peval(read_plf(c.cdf), x)),
                 [x for x in cprobes(segs) if x not in (a, b)], 'restricting twice', 1e-7 + 10 * slope_tol(read_plf(c.cdf), b if b < INF else 0))


@subcheck('Q02', 'crop_union', st.fixed_dictionaries({'d': numspec(1), 'ivs': ivunion()}), quick=3000, thorough=60000,
          shards=3, rule='two or more pieces with probability')
def crop_union(ctx, case):
    d = mk_numeric(case['d'])
    segs = read_plf(d.cdf)
    ivs = disjoint_ivs(case['ivs'], segs)
    if not ivs:
        raise Skip()
    ctx.nontrivial(sum(set_mass(segs, *iv) > 1e-6 for iv in ivs) >= 2)
    s = RealSet([ContinuousSet(*iv) for iv in ivs])
    restricted(ctx, d, segs, ivs, lambda: d._crop(s), 'crop to %r' % s)
