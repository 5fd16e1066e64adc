"""D06: sums of independent variables."""
import numpy as np
from hypothesis import strategies as st

from vp.core import Skip, check, check_close, close, fail, subcheck
from vp.dists import *
from vp.plf import *
from vp.sets import EXC, INC, INF

from jpt.base.intervals import ContinuousSet
from jpt.distributions.univariate import IntegerType, Numeric

ASSUMPTIONS = ['The numeric sum is compared with the exact convolution at the points where its density changes shape; in between the library '
               'documents that it replaces linear pieces of the density by their mean, so the CDF is compared with the chord.',
               'Numeric summands are continuous or point masses; mixtures of both have no density and are outside of the domain of the sum.']


@st.composite
def intd(draw):
    lo = draw(st.integers(-6, 6))
    hi = lo + draw(st.integers(0, 5))
    return dict(k='int', lo=lo, hi=hi, w=draw(params(6)))


@subcheck('D06', 'integer', st.lists(intd(), min_size=2, max_size=4), quick=3000, thorough=60000, shards=2, rule='two summands with two or more labels of positive probability')
def integer(ctx, case):
    ds, models = [], []
    for i, c in enumerate(case):
        ls = dlabels(c)
        w = c['w'][:len(ls)]
        if not any(w):
            raise Skip()
        d = mk_domain(c, 'T%d' % i)().set(normw(w))
        ds.append(d)
        models.append({l: float(d.p(l)) for l in ls})
    ctx.nontrivial(sum(sum(p > 0 for p in m.values()) > 1 for m in models) > 1)
    before = [[float(p) for p in d.probabilities] for d in ds]
    res, exp = ds[0], models[0]
    for i, (d, m) in enumerate(zip(ds[1:], models[1:])):
        res = [lambda: res.add(d), lambda: res.add(d, 'sum'), lambda: res + d][i % 3]() if hasattr(type(res), '__add__') else res.add(d)
        e = {}
        for a, p in exp.items():
            for b, q in m.items():
                e[a + b] = e.get(a + b, 0) + p * q
        exp = e
        check(sorted(res.labels.values()) == sorted(exp), 'domain %r of the sum, expected %r', sorted(res.labels.values()), sorted(exp))
        for l, p in exp.items():
            check_close(res.p(l), p, 'P(sum = %d)', l)
            check_close(res._p(type(res).label2value(l)), p, '_p of %d', l)
        check_close(res.p(set(exp)), 1, 'total mass')
        check_close(res.expectation(), sum(l * p for l, p in exp.items()), 'expectation of the sum')
    check(before == [[float(p) for p in d.probabilities] for d in ds], 'a summand was modified')


SUMMAND = st.one_of(numspec(0), numspec(1), st.builds(lambda x: dict(t='dirac', x=x), st.integers(-5, 5).map(float)))


def pieces(segs):
    """[(lo, up, mass)] of the continuous part"""
    out = []
    for a, b, m in [(a, b, poly(c, b) - poly(c, a)) for a, b, _, _, c in segs if abs(a) != INF and abs(b) != INF and len(c) > 1 and c[1] > 0]:
        if out and out[-1][1] == a and close(out[-1][2] / (a - out[-1][0]), m / (b - a)):      # no change of the density at a
            a, m = out[-1][0], m + out[-1][2]
            out.pop()
        out.append((a, b, m))
    return out


def unif_sum_cdf(z, a, b, c, d):
    """P(U + V <= z), U ~ U[a, b], V ~ U[c, d]"""
    pos = lambda t: max(t, 0.) ** 2 / 2
    return (pos(z - a - c) - pos(z - b - c) - pos(z - a - d) + pos(z - b - d)) / ((b - a) * (d - c))


@subcheck('D06', 'numeric', st.fixed_dictionaries({'a': SUMMAND, 'b': SUMMAND}), quick=2500, thorough=30000, shards=4, rule='two continuous summands, three linear pieces in total')
def numeric(ctx, case):
    ds = [mk_numeric(case[k]) for k in 'ab']
    segs = [read_plf(d.cdf) for d in ds]
    atoms = [len(s) == 2 for s in segs]
    if any(jumps(s) and not a for s, a in zip(segs, atoms)):
        raise Skip()
    for s in segs:
        ks = [t[0] for t in s[1:]]
        if len(ks) > 1 and min(np.diff(ks)) < 1e-3 * max(1, max(map(abs, ks))) or max(map(abs, ks)) > 1e4 or len(ks) > 12:
            raise Skip()
    res = ds[0] + ds[1]
    got = read_plf(res.cdf)
    ctx.label('with point mass', any(atoms))
    if any(atoms):
        x = segs[atoms.index(True)][1][0]
        s = segs[1 - atoms.index(True)]
        if all(atoms):
            check(len(got) == 2 and close(got[1][0], x + s[1][0]), 'sum of point masses at %r and %r: %r', x, s[1][0], got)
            return
        for k in cprobes(s):
            check_close(peval(got, k + x), peval(s, k), 'CDF of the sum with %r at %r', x, k + x, rtol=1e-6, atol=1e-6)
        return
    p, q = pieces(segs[0]), pieces(segs[1])
    ctx.nontrivial(len(p) + len(q) > 2)
    zs = sorted({u + v for k in p for u in k[:2] for l in q for v in l[:2]})
    kn = [z for i, z in enumerate(zs) if not i or z - zs[i - 1] > 1e-6]

    def exact(z):
        return sum(k[2] * l[2] * unif_sum_cdf(z, k[0], k[1], l[0], l[1]) for k in p for l in q)

    def dens(z):
        return sum(k[2] * l[2] * (min(z - k[0], l[1]) - max(z - k[1], l[0])) / ((k[1] - k[0]) * (l[1] - l[0])) for k in p for l in q if min(z - k[0], l[1]) > max(z - k[1], l[0]))
    i = 1
    while i < len(kn) - 1:                          # points where the density does not bend are no knots of the sum
        t = (kn[i] - kn[i - 1]) / (kn[i + 1] - kn[i - 1])
        if close(dens(kn[i]), dens(kn[i - 1]) * (1 - t) + dens(kn[i + 1]) * t, rtol=1e-6, atol=1e-7):
            del kn[i]
        else:
            i += 1
    F = [exact(z) for z in kn]
    for z, f in zip(kn, F):
        check_close(peval(got, z), f, 'CDF of the sum at %r', z, rtol=1e-5, atol=1e-5)
    for (z, f), (y, g) in zip(zip(kn, F), zip(kn[1:], F[1:])):
        m, ch = (z + y) / 2, (f + g) / 2            # between the exact value and the chord over the whole piece
        e = exact(m)
        check(min(e, ch) - 1e-5 <= peval(got, m) <= max(e, ch) + 1e-5, 'CDF of the sum between %r and %r: %r instead of %r ... %r', z, y, peval(got, m), e, ch)
    check(close(peval(got, kn[0] - 1), 0) and close(peval(got, kn[-1] + 1), 1, atol=1e-6), 'limits of the CDF')
    check([read_plf(d.cdf) for d in ds] == segs, 'a summand was modified')
