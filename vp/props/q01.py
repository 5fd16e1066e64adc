"""Q01: a fitted quantile distribution is a valid and faithful CDF of its data."""
import math

import numpy as np
from hypothesis import strategies as st

from vp.core import Skip, check, check_close, close, fail, subcheck
from vp.dists import *
from vp.plf import *
from vp.sets import *

from jpt.distributions.quantile.quantiles import QuantileDistribution
from jpt.distributions.univariate import Numeric

ASSUMPTIONS = ['Samples of up to 300 values; distinct values differ by at least 1e-9 of their magnitude.',
               'Empirical distribution of n values: (number of values <= x, minus one) / (n - 1) at the data, as the learner defines it.',
               'Faithfulness: the root mean squared deviation at the data is at most (up to 25 %) the tolerance, or that of the best '
               'approximation with a single inner knot (the regression is greedy and stops when no single knot helps).']

fcase = st.fixed_dictionaries({'x': st.one_of(sample_values(), sample_values(), sample_values(min_size=40, max_size=300)), 'eps': EPS,
                               'seed': st.integers(0, 1000), 'qs': st.lists(st.floats(0, 1), min_size=1, max_size=6)})


def empirical(xs):
    u = np.unique(np.array(xs))
    n = len(xs)
    y = np.array([(np.array(xs) <= v).sum() - 1. for v in u]) / max(1, n - 1)
    return u, y


def valid_cdf(segs, what='CDF'):
    check(segs[0][0] == -INF and segs[-1][1] == INF, '%s does not cover the reals: %r', what, segs)
    for s1, s2 in zip(segs, segs[1:]):
        check(s1[1] == s2[0] and s1[3] == EXC and s2[2] == INC, '%s: gap, overlap or not right-continuous at %r', what, s1[1])
    check(segs[0][4] == [0.], '%s does not start with 0', what)
    check(close(segs[-1][4][0], 1., 1e-9) and len(segs[-1][4]) == 1, '%s does not end with 1: %r', what, segs[-1])
    last = 0.
    for s in segs:
        for x in s[:2]:
            if abs(x) != INF:
                y = poly(s[4], x)
                check(y >= last - 1e-9 - slope_tol(segs, x), '%s decreases at %r: %r < %r', what, x, y, last)
                check(-1e-9 <= y <= 1 + 1e-9 + slope_tol(segs, x), '%s(%r) = %r', what, x, y)
                last = y


@subcheck('Q01', 'fit', fcase, quick=5000, thorough=100000, shards=4, rule='four or more distinct values')
def fit(ctx, case):
    xs, eps = case['x'], case['eps']
    u, y = empirical(xs)
    if len(u) > 1 and np.diff(u).min() < 1e-9 * max(1e-3, np.abs(u).max()):
        raise Skip()
    ctx.nontrivial(len(u) >= 4)
    ctx.label('ties', len(u) < len(xs))
    ctx.label('tie at the minimum', len(u) > 1 and y[0] > 0)
    q = mk_quantile(case)
    segs = read_plf(q.cdf)
    valid_cdf(segs)
    lo, hi = float(u[0]), float(u[-1])
    check(peval(segs, prv(lo)) == 0, 'mass below the smallest sample')
    if len(u) == 1:
        check(peval(segs, lo) == 1, 'point mass expected at %r: %r', lo, segs)
    else:
        check(close(peval(segs, hi), 1, 1e-9, slope_tol(segs, hi)) and peval(segs, nxt(hi)) == 1, 'CDF(max) = %r', peval(segs, hi))
        # knots are data points with their empirical quantile
        ks = [s[0] for s in segs[1:-1]] + [hi]
        check(ks[0] == lo, 'first knot %r, smallest sample %r', ks[0], lo)
        emp = dict(zip(u.tolist(), y.tolist()))
        for k in ks:
            check(k in emp, 'knot %r is not a sample', k)
            check(close(peval(segs, k), emp[k], 1e-8, 1e-9 + slope_tol(segs, k)), 'CDF(%r) = %r, empirical value %r', k, peval(segs, k), emp[k])
        r = np.array([peval(segs, v) for v in u.tolist()]) - y
        rms = math.sqrt((r ** 2).mean())
        if len(u) > 2:
            best = min(math.sqrt(((np.interp(u, [lo, u[k], hi], [y[0], y[k], 1.]) - y) ** 2).mean()) for k in range(1, len(u) - 1))
            check(rms <= 1.25 * max(eps, best) + 1e-7, 'rms deviation %r from the data, tolerance %r, best single-knot fit %r\n%s', rms, eps, best, q.cdf)
            ctx.label('several inner knots', len(ks) > 3)
        # array evaluation
        for a, b in zip(np.asarray(q.cdf.multi_eval(u)), u.tolist()):
            check(close(a, peval(segs, b), 1e-12, 1e-12 + slope_tol(segs, b)), 'multi_eval differs at %r', b)
    # density
    dsegs = read_plf(q.pdf)
    if len(u) > 1:
        check([s[:4] for s in dsegs] == [s[:4] for s in segs], 'density has other pieces than the CDF')
        for s, d in zip(segs, dsegs):
            check(close(d[4][0], (s[4] + [0.])[1], 1e-12, 0) and d[4][0] >= 0, 'density on %r', s)
        total = sum(d[4][0] * (d[1] - d[0]) for d in dsegs[1:-1])
        jump = sum(j for _, j in jumps(segs))
        check_close(total + jump, 1, 'density integrates to %r, jumps %r', total, jump, rtol=1e-6, atol=1e-6 + 10 * slope_tol(segs, hi) * len(segs))
        check_close(q.pdf.integrate(), total, 'integral of the density', rtol=1e-6)
    else:
        check(q.pdf.eval(lo) == INF and q.pdf.eval(prv(lo)) == 0 and q.pdf.eval(lo + 1e-3) == 0, 'density of a point mass: %s', q.pdf)
    # quantile function
    ppf = q.ppf
    span = (hi - lo) or 1.
    for g in case['qs'] + [.25, .5, 1.] + [float(v) for v in y[:3]]:
        if g <= 0:
            continue
        x = ppf.eval(g)
        if len(u) == 1:
            check(g != 1 or x == lo, 'quantile(1) of a point mass = %r', x)
            continue
        check(lo - 1e-9 * span - 1e-12 * abs(lo) <= x <= hi + 1e-9 * span + 1e-12 * abs(hi), 'quantile(%r) = %r outside of [%r, %r]\n%s', g, x, lo, hi, q.cdf)
        tol = 1e-7
        d = 1e-7 * span + 1e-12 * abs(x)
        check(peval(segs, x + d) >= g - tol and left_limit(segs, x - d) <= g + tol, 'CDF(quantile(%r) = %r) = %r\n%s', g, x, peval(segs, x), q.cdf)
    check(math.isnan(ppf.eval(1.1)) and math.isnan(ppf.eval(-.1)), 'quantiles outside of [0, 1]')


@subcheck('Q01', 'selection', st.fixed_dictionaries({
    'x': sample_values(min_size=2, max_size=25, scaled=False), 'eps': EPS, 'seed': st.integers(0, 10 ** 6), 'left': st.booleans(), 'right': st.booleans()}),
    quick=2500, thorough=50000, shards=2, rule='a proper subset of at least three rows with two or more distinct values')
def selection(ctx, case):
    """only the selected rows and column matter, in any order; imaginary outermost points count as data; equal fits are equal"""
    xs, eps = case['x'], case['eps']
    rng = np.random.RandomState(case['seed'])
    n = len(xs)
    data = np.ascontiguousarray(rng.randn(n, 3))
    col = rng.randint(3)
    data[:, col] = xs
    before = data.copy()
    rows = rng.permutation(n)[:rng.randint(1, n + 1)].astype(np.int64)
    sel = [xs[i] for i in rows]
    ctx.nontrivial(3 <= len(rows) < n and len(set(sel)) > 1)
    left = min(sel) - 1.5 if case['left'] else np.nan
    right = max(sel) + 2.5 if case['right'] else np.nan
    q = QuantileDistribution(epsilon=eps)
    r0 = rows.copy()
    q.fit(data, rows, col, left, right)
    check((data == before).all() and (rows == r0).all(), 'fitting modified the data')
    ref = QuantileDistribution(epsilon=eps)
    full = sorted(sel + ([left] if case['left'] else []) + ([right] if case['right'] else []))
    ref.fit(np.array(full).reshape(-1, 1), None, 0)
    check(read_plf(q.cdf) == read_plf(ref.cdf), 'fit on selected rows\n%s\ndiffers from the fit on their values\n%s', q.cdf, ref.cdf)
    check(q == ref and hash(q) == hash(ref), 'equal fits compare unequal')
    if not case['left'] and not case['right']:
        d = Numeric(precision=eps)
        d.fit(data, rows, col)
        check(read_plf(d.cdf) == read_plf(q.cdf), 'Numeric.fit differs from the quantile fit')


DENS = st.fixed_dictionaries({
    'x0': st.integers(-20, 20).map(lambda k: k / 4), 'w': st.lists(st.integers(1, 12).map(lambda k: k / 4), min_size=1, max_size=6), 'h': st.lists(st.integers(0, 6), min_size=6, max_size=6),
    'jumps': st.lists(st.sampled_from([0, 0, 0, 1, 2, 5]), min_size=7, max_size=7), 'mass': st.sampled_from([1., 1., .5, .25, .9, 2., 1.1]), 'weights': st.booleans()})


@subcheck('Q01', 'from_density', DENS, quick=5000, thorough=60000, shards=2, rule='an impulse and some finite density, or two pieces of different density')
def from_density(ctx, case):
    """a piecewise constant density with impulses is integrated to the CDF that has it"""
    from jpt.base.functions import ConstantFunction, PiecewiseFunction
    from jpt.base.intervals import ContinuousSet
    xs = [case['x0']]
    for w in case['w']:
        xs.append(xs[-1] + w)
    n = len(case['w'])
    h = [float(k) for k in case['h'][:n]]
    jw = {x: float(j) for x, j in zip(xs, case['jumps']) if j}
    area = sum(a * w for a, w in zip(h, case['w']))
    if not area and not jw:
        raise Skip()
    mass = case['mass'] if area else 0.
    if jw and mass == 1.:
        mass = .75
    h = [a * mass / area for a in h] if area else h
    segs = [(-INF, xs[0], EXC, EXC, [0.])]
    for i, x in enumerate(xs):
        lo = x
        if x in jw:
            lo = nxt(x)
            segs.append((x, lo, INC, EXC, [INF]))
        segs.append((lo, xs[i + 1] if i < n else INF, INC, EXC, [h[i] if i < n else 0.]))
    pdf = PiecewiseFunction()
    for lo, up, l, r, c in segs:
        pdf.append(ContinuousSet(lo, up, l, r), ConstantFunction(c[0]))
    before = read_plf(pdf)
    weights = None
    if jw and case['weights']:
        weights = [jw[x] for x in sorted(jw)]
    else:
        jw = dict.fromkeys(jw, 1.)
    if mass > 1 + 1e-6:
        try:
            QuantileDistribution.pdf_to_cdf(pdf, weights)
        except ValueError:
            return
        fail('accepted a density with mass %r', mass)
    got = read_plf(QuantileDistribution.pdf_to_cdf(pdf, weights))
    check(read_plf(pdf) == before, 'the density has been modified')
    ctx.nontrivial(bool(jw) and area > 0 or len(set(h)) > 1)
    rest = (1. - mass) / sum(jw.values()) if jw else 0.
    norm = 1. if jw else mass
    # (single steps cannot be told from a linear piece of zero width, so the CDF is compared off the borders, too)
    pts = sorted({p for x in xs for p in (x, x - .125, x + .0625)} | {xs[0] - 3, xs[-1] + 3})
    for p in pts:
        want = sum(a * max(0., min(p, xs[i + 1]) - xs[i]) for i, a in enumerate(h)) / norm + sum(j * rest for x, j in jw.items() if x <= p)
        check_close(peval(got, p), want, 'CDF at %r' % p, atol=1e-9)
    valid_cdf(got)
    if not weights:
        check(read_plf(QuantileDistribution.from_pdf(pdf).cdf) == got, 'from_pdf differs from pdf_to_cdf')
