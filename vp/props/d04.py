"""D04: most probable explanations of univariate distributions."""
import numpy as np
from hypothesis import strategies as st

from vp.core import Skip, check, check_close, close, fail, subcheck
from vp.dists import *
from vp.plf import *
from vp.sets import EXC, INC, INF, iv_range, m_inter, m_union, model, norm, nxt, prv, rep, show

from jpt.base.intervals import ContinuousSet, RealSet
from jpt.distributions.quantile.quantiles import QuantileDistribution
from jpt.distributions.univariate import Numeric, NumericType

ASSUMPTIONS = ['The likelihood of a number is its density; jumps of the CDF of a mixture have no density in this representation.']


@st.composite
def heights(draw):
    """a step density over a grid, with ties and zero regions"""
    n = draw(st.integers(1, 7))
    hs = draw(st.lists(st.sampled_from([0, 1, 1, 2, 2, 3, 5]), min_size=n, max_size=n).filter(any))
    ws = draw(st.lists(st.sampled_from([1, 1, 2, .5, 3]), min_size=n, max_size=n))
    return dict(t='steps', hs=hs, ws=[float(w) for w in ws], x0=draw(st.sampled_from([0., -3., 10.])))


def mk_steps(spec, T=Numeric):
    total = sum(h * w for h, w in zip(spec['hs'], spec['ws']))
    x, y = spec['x0'], 0.
    segs = [[-INF, x, EXC, EXC, [0.]]]
    for h, w in zip(spec['hs'], spec['ws']):
        m = h / total
        segs.append([x, x + w, INC, EXC, [y - m * x, m] if m else [y]])
        y += m * w
        x += w
    segs.append([x, INF, INC, EXC, [1.]])
    # constant pieces that touch the outer ones are merged with them
    while segs[1][4] == [0.]:
        segs[0][1] = segs[1][1]
        del segs[1]
    while segs[-2][4][1:] == [] and len(segs) > 2:
        segs[-1][0] = segs[-2][0]
        del segs[-2]
    return T().set(QuantileDistribution.from_cdf(mk_plf(segs)))


def kcheck(res, exp, to_model, what):
    check(len(res) == len(exp), '%s: %d answers, expected %d: %r', what, len(res), len(exp), res)
    for (s, l), (m, h) in zip(res, exp):
        check(l == h, '%s: likelihood %r, expected %r', what, l, h)
        check(to_model(s) == m, '%s: states %r of likelihood %r, expected %s', what, s, l, show(m) if isinstance(m, list) else m)


@subcheck('D04', 'numeric', st.fixed_dictionaries({'d': st.one_of(heights(), heights(), numspec(2)), 'k': st.integers(1, 8)}),
          quick=6000, thorough=100000, shards=3, rule='two or more different positive densities')
def numeric(ctx, case):
    d = mk_steps(case['d']) if case['d']['t'] == 'steps' else mk_numeric(case['d'])
    segs = read_plf(d.cdf)
    if len(segs) == 2:
        s, l = d.mpe()
        x = segs[1][0]
        check(l == INF and s.contains_value(x) and not s.contains_value(prv(x)) and not s.contains_value(x + 1e-3), 'explanation of a point mass at %r: %r', x, (s, l))
        check(len(d.k_mpe()) == 1 and d.k_mpe()[0][1] == INF, 'k_mpe of a point mass: %r', d.k_mpe())
        return
    dens = {}
    for a, b, l, r, c in segs[1:-1]:
        if len(c) > 1 and c[1] > 0:
            dens.setdefault(c[1], []).append(iv_range(a, b, l, r))
    if not dens and not ctx.finding:
        raise Skip()                                # known finding D04-atoms
    exp = [(norm(dens[h]), h) for h in sorted(dens, reverse=True)]
    ctx.nontrivial(len(exp) > 1)
    ctx.label('ties of separate regions', any(len(m) > 1 for m, _ in exp))
    for call, what in ((d._k_mpe, '_k_mpe'), (d.k_mpe, 'k_mpe')):
        kcheck(call(), exp, model, what + '()')
        kcheck(call(k=case['k']), exp[:case['k']], model, '%s(%d)' % (what, case['k']))
    if not dens:
        check(d.mpe() is not None, 'no explanation')
    for call, what in ((d._mpe, '_mpe'), (d.mpe, 'mpe')):
        kcheck([call()], exp[:1], model, what)
    check(read_plf(d.cdf) == segs, 'the distribution was modified')


@subcheck('D04', 'scaled', st.fixed_dictionaries({'d': heights(), 's': st.sampled_from([1., .1, 50.]), 'm': st.sampled_from([0., 3., -100.])}),
          quick=1500, thorough=20000, shards=1, rule='two or more different positive densities')
def scaled(ctx, case):
    """in label space, the same regions with the same likelihoods are reported in original units"""
    T = NumericType('T', np.array([case['m'] - case['s'], case['m'] + case['s']]))
    d = mk_steps(case['d'], T)
    v, l = d._k_mpe(), d.k_mpe()
    ctx.nontrivial(len(v) > 1)
    check(len(v) == len(l), 'number of answers')
    for (sv, lv), (sl, ll) in zip(v + [d._mpe()], l + [d.mpe()]):
        check(lv == ll, 'likelihoods %r and %r', lv, ll)
        iv, il = getattr(sv, 'intervals', [sv]), getattr(sl, 'intervals', [sl])
        check(len(iv) == len(il), 'regions %r and %r', sv, sl)
        for a, b in zip(iv, il):
            check(close(a.lower * case['s'] + case['m'], b.lower) and close(a.upper * case['s'] + case['m'], b.upper) and (a.left, a.right) == (b.left, b.right),
                  'regions %r and %r', a, b)


@subcheck('D04', 'discrete', st.fixed_dictionaries({'dom': domain(), 'w': params(8), 'k': st.integers(1, 8), 'sub': st.one_of(st.none(), st.lists(st.integers(0, 7), min_size=1))}),
          quick=4000, thorough=60000, shards=2, rule='two or more different positive probabilities')
def discrete(ctx, case):
    T = mk_domain(case['dom'])
    ls = dlabels(case['dom'])
    w = case['w'][:len(ls)]
    sub = {ls[i % len(ls)] for i in case['sub']} if case['sub'] else set(ls)
    if not any(x for x, l in zip(w, ls) if l in sub):
        raise Skip()
    d = T().set(normw(w))
    if case['sub']:
        d = d.crop(sub)
    ps = [float(p) for p in d.probabilities]
    hs = sorted({p for p in ps if p > 0}, reverse=True)
    ctx.nontrivial(len(hs) > 1)
    for kk in (None, case['k']):
        exl = [({l for l, p in zip(ls, ps) if p == h}, h) for h in hs][:kk]
        exv = [({i for i, p in enumerate(ps) if p == h}, h) for h in hs][:kk]
        kcheck(d.k_mpe(k=kk), exl, set, 'k_mpe(%r)' % kk)
        kcheck(d._k_mpe(k=kk), exv, set, '_k_mpe(%r)' % kk)
        if kk is not None:
            for f, e in ((d.mpe, exl), (d._mpe, exv), (d.mode, exl), (d._mode, exv)):
                kcheck([f()], e[:1], set, 'mpe')
    check([float(p) for p in d.probabilities] == ps, 'the distribution was modified')
