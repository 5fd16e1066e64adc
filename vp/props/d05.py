"""D05: sampling from univariate distributions, weighted element sampling."""
import random

import numpy as np
from hypothesis import strategies as st

from vp.core import Skip, check, check_close, close, fail, subcheck
from vp.dists import *
from vp.plf import *
from vp.sets import EXC, INC, INF

from jpt.base.sampling import RouletteWheelSampler, wchoice, wchoiced, wchoicei, wsample, wsamplei
from jpt.distributions.univariate import Numeric, NumericType

ASSUMPTIONS = ['Frequencies are compared with bounds that a correct sampler exceeds with probability < 1e-10 per case.',
               'All random numbers come from the `random` and `numpy.random` generators, which are seeded from the case.']
SEED = st.integers(0, 2 ** 31 - 1)


def seed(s):
    random.seed(s)
    np.random.seed(s % 2 ** 32)


def freq_ok(k, n, p):
    p = min(1., max(0., p))
    return abs(k - n * p) <= 7 * (n * p * (1 - p)) ** .5 + 20


def ks(xs, segs):
    """largest deviation of the empirical distribution from the CDF"""
    xs = np.sort(np.asarray(xs, dtype=float))
    u, first = np.unique(xs, return_index=True)
    last = np.append(first[1:], len(xs))
    n = len(xs)
    return max(max(abs(b / n - peval(segs, x)), abs(a / n - left_limit(segs, x))) for x, a, b in zip(u, first, last))


def check_support(xs, segs, what, tol=0.):
    js = [x for x, _ in jumps(segs)]
    grow = [(a, b) for a, b, _, _, c in segs if len(c) > 1 and c[1] > 0]
    for x in np.unique(xs):
        check(any(a - tol <= x <= b + tol for a, b in grow) or any(abs(x - j) <= tol for j in js), '%s: %r lies outside of the support', what, x)


@subcheck('D05', 'numeric', st.fixed_dictionaries({'d': numspec(2), 'n': st.sampled_from([0, 1, 2, 7, 400, 400, 2000]), 'seed': SEED}),
          quick=3000, thorough=60000, shards=3, rule='more than one linear piece or a jump, 400 samples or more')
def numeric(ctx, case):
    d = mk_numeric(case['d'])
    segs = read_plf(d.cdf)
    seed(case['seed'])
    n = case['n']
    ctx.nontrivial(len(segs) > 3 and n >= 400)
    ctx.label('with jumps', len(jumps(segs)))
    for call, what in ((d._sample, '_sample'), (lambda k: list(d.sample(k)), 'sample')):
        xs = np.array(list(call(n)), dtype=float)
        check(len(xs) == n, '%s(%d) returned %d values', what, n, len(xs))
        check_support(xs, segs, what)
        if n >= 400:
            dev = ks(xs, segs)
            check(dev <= 3.5 / n ** .5, '%s: empirical distribution of %d samples deviates by %r', what, n, dev)
    for f in (d.sample_one, d._sample_one):
        check_support([f()], segs, 'sample_one')
    check(read_plf(d.cdf) == segs, 'the distribution was modified')


@subcheck('D05', 'scaled', st.fixed_dictionaries({'x': sample_values(min_size=2, max_size=20, scaled=False), 's': st.sampled_from([1., .1, 50.]), 'm': st.sampled_from([0., 3., -100.]), 'seed': SEED}),
          quick=600, thorough=8000, shards=1, rule='two or more different data points')
def scaled(ctx, case):
    """sample() of a scaled variable is in original units, _sample() in scaled ones"""
    x = np.array(case['x']) * case['s'] + case['m']
    u = np.unique(x)
    if len(u) < 2 or np.diff(u).min() < 1e-6 * np.abs(u).max():
        raise Skip()
    ctx.nontrivial()
    T = NumericType('T', x)
    d = T()._fit(np.array([T.label2value(float(v)) for v in x]).reshape(-1, 1), col=0)
    segs = read_plf(d.cdf)
    seed(case['seed'])
    xs = np.array(list(d.sample(500)))
    v = np.array([T.label2value(float(t)) for t in xs])
    check(len(xs) == 500, 'number of samples')
    check_support(v, segs, 'sample', 1e-6)
    check(xs.min() >= u[0] - 1e-6 * max(1, abs(u[0])) and xs.max() <= u[-1] + 1e-6 * max(1, abs(u[-1])), 'samples outside of the data range')
    js = np.array([j for j, _ in jumps(segs)])
    for i, t in enumerate(v):                   # translation back and forth may move atoms by a rounding error
        if len(js) and np.abs(js - t).min() < 1e-6:
            v[i] = js[np.abs(js - t).argmin()]
    check(ks(v, segs) <= 3.5 / 500 ** .5, 'distribution of the samples')


@subcheck('D05', 'discrete', st.fixed_dictionaries({'dom': domain(), 'w': params(8), 'n': st.sampled_from([0, 1, 3, 500, 500]), 'seed': SEED}),
          quick=3000, thorough=40000, shards=1, rule='two or more labels of positive probability, 500 samples')
def discrete(ctx, case):
    T = mk_domain(case['dom'])
    ls = dlabels(case['dom'])
    w = case['w'][:len(ls)]
    if not any(w):
        raise Skip()
    d = T().set(normw(w))
    ps = [float(p) for p in d.probabilities]
    n = case['n']
    seed(case['seed'])
    ctx.nontrivial(sum(p > 0 for p in ps) > 1 and n >= 500)
    vs = [T.label2value(l) for l in ls]
    for call, names, what in ((d.sample, ls, 'sample'), (d._sample, vs, '_sample')):
        xs = list(call(n))
        check(len(xs) == n, '%s(%d) returned %d values', what, n, len(xs))
        check(all(x in names for x in xs), '%s: foreign values %r', what, [x for x in xs if x not in names])
        for l, p in zip(names, ps):
            k = sum(x == l for x in xs)
            check(p > 0 or not k, '%s: impossible value %r', what, l)
            check(freq_ok(k, n, p), '%s: %r was sampled %d of %d times, probability %r', what, l, k, n, p)
    for _ in range(5):
        l, v = d.sample_one(), d._sample_one()
        check(l in ls and ps[ls.index(l)] > 0, 'sample_one: %r', l)
        check(v in vs and ps[vs.index(v)] > 0, '_sample_one: %r', v)


WEIGHT = st.one_of(st.sampled_from([0., 0., 1., 1., 2., .5, 1e-3, 100.]), st.floats(0, 10).map(lambda x: round(x, 3)))


@subcheck('D05', 'roulette', st.fixed_dictionaries({'w': st.lists(WEIGHT, min_size=1, max_size=10).filter(any), 'seed': SEED, 'norm': st.booleans(), 'n': st.sampled_from([0, 1, 2, 400])}),
          quick=4000, thorough=50000, shards=1, rule='two or more positive weights and a zero')
def roulette(ctx, case):
    """the i-th element owns exactly the interval of the wheel of the length of its weight"""
    w = case['w']
    els = ['e%d' % i for i in range(len(w))]
    ctx.nontrivial(sum(x > 0 for x in w) > 1 and 0. in w)
    s = RouletteWheelSampler(els, list(w), normalize=case['norm'])
    ww = np.array(w) / (sum(w) if case['norm'] else 1.)
    up = np.cumsum(ww)
    seed(case['seed'])
    pts = set(up) | {0.} | {random.uniform(0, up[-1]) for _ in range(20)}
    for x in pts:
        x = float(x) * (1 - 1e-13)
        i = s.index(x)
        check(i is not None and w[i] > 0, 'element of weight zero at %r', x)
        lo = up[i - 1] if i else 0.
        check(lo - 1e-12 * up[-1] <= x <= up[i] + 1e-12 * up[-1], 'position %r belongs to [%r, %r] of element %d', x, lo, up[i], i)
        check(s[x] == els[i], 'element %r', s[x])
    for x in (-1e-6 * up[-1], up[-1] * (1 + 1e-6)):
        try:
            s.index(x)
        except IndexError:
            continue
        fail('position %r outside of the wheel was accepted', x)
    n = case['n']
    p = np.array(w) / sum(w)
    sn = normw(w)
    d = dict(zip(els, sn))
    for what, call in (('sample', lambda: s.sample(n)), ('samplei', lambda: s.samplei(n)), ('wsample', lambda: wsample(els, sn, n)), ('wsamplei', lambda: wsamplei(els, sn, n)),
                       ('wchoice', lambda: [wchoice(els, sn) for _ in range(n)]), ('wchoicei', lambda: [wchoicei(els, sn) for _ in range(n)]),
                       ('wchoiced', lambda: [wchoiced(d) for _ in range(n)])):
        xs = call()
        check(len(xs) == n, '%s: %d elements instead of %d', what, len(xs), n)
        if what.endswith('i'):
            check(all(els[i] == e for e, i in xs), '%s: element and index', what)
            xs = [e for e, _ in xs]
        for e, q in zip(els, p):
            k = xs.count(e)
            check(q > 0 or not k, '%s: element of weight zero', what)
            check(freq_ok(k, n, q), '%s: %r was chosen %d of %d times, probability %r', what, e, k, n, q)


@st.composite
def model_case(draw):
    from vp.jpts import MODELS, with_events
    c = draw(with_events(MODELS))
    c.update(n=draw(st.sampled_from([0, 1, 5, 300, 2000, 2000])), seed=draw(SEED), cond=draw(st.sampled_from(['no', 'no', 'yes', 'yes', 'json', 'copy', 'prune'])))
    return c


@subcheck('D05', 'model', model_case(), quick=3000, thorough=40000, shards=4, rule='two or more leaves, 300 samples or more')
def model_samples(ctx, case):
    """rows sampled from a model (or one conditioned on evidence): every row is possible in some leaf, events occur as often as inferred"""
    import json

    from vp.jpts import Ref, dump, ev_inter, isnum, mk_event, mk_jpt, vname
    jpt = mk_jpt(case['m'])
    ref = Ref(jpt)
    q, mq = mk_event(case['q'], case['m'], ref)
    how, n, me = case['cond'], case['n'], {}
    if how == 'yes':
        e, me = mk_event(case['e'], case['m'], ref)
        if ref.p(me) < 1e-6:
            raise Skip()
        jpt = jpt.conditional_jpt(jpt.bind(e))
    elif how == 'json':
        jpt = type(jpt).from_json(json.loads(json.dumps(jpt.to_json())))
    elif how == 'copy':
        jpt = jpt.copy()
    elif how == 'prune':
        jpt = jpt.prune(.2)
    vs = list(jpt.variables)
    ref = Ref(jpt)
    keep = dump(jpt)
    seed(case['seed'])
    xs = jpt.sample(n)
    check(xs.shape == (n, len(vs)), 'shape %r of %d samples of %d variables', xs.shape, n, len(vs))
    check(dump(jpt) == keep, 'sampling has modified the model')
    ctx.nontrivial(len(ref.leaves) > 1 and n >= 300)
    ctx.label(how)
    vals = []
    for j, v in enumerate(vs):
        if v.numeric:
            js = np.array(sorted({x for l in ref.leaves for x, _ in jumps(l.d[v.name])}))
            col = np.array([float(v.domain.label2value(float(x))) for x in xs[:, j]])
            if case['m']['vars'][j]['k'] == 'scaled' and len(js):
                for i, t in enumerate(col):
                    if np.abs(js - t).min() < 1e-6:
                        col[i] = js[np.abs(js - t).argmin()]
            vals.append(col)
        else:
            labels = list(v.domain.labels.values()) if hasattr(v.domain.labels, 'values') else list(v.domain.labels)
            bad = [x for x in xs[:, j] if x not in labels]
            check(not bad, 'sampled values %r of %s', bad[:3], v.name)
            vals.append(np.array([v.domain.label2value(x) for x in xs[:, j]]))
    tol = 1e-6
    could = np.zeros((n, len(ref.leaves)), dtype=bool)
    for k, l in enumerate(ref.leaves):
        ok = np.full(n, l.prior > 0)
        for v, col in zip(vs, vals):
            d = l.d[v.name]
            if v.numeric:
                grow = [(a, b) for a, b, _, _, c in d if len(c) > 1 and c[1] > 0]
                t = np.zeros(n, dtype=bool)
                for a, b in grow:
                    t |= (col >= a - tol) & (col <= b + tol)
                for x, _ in jumps(d):
                    t |= np.abs(col - x) <= tol
            else:
                t = np.array([d[int(x)] > 0 for x in col], dtype=bool)
            ok &= t
        could[:, k] = ok
    bad = np.where(~could.any(axis=1))[0]
    check(not len(bad), 'row %r is impossible in every leaf', xs[bad[0]].tolist() if len(bad) else None)

    def inside(name, ev):
        col = vals[[v.name for v in vs].index(name)]
        if isinstance(ev, (set, frozenset)):
            return np.isin(col, list(ev))
        r = np.zeros(n, dtype=bool)
        for a, b, lf, rt in ev:
            r |= ((col > a) | (col == a if lf == INC else False)) & ((col < b) | (col == b if rt == INC else False))
        return r
    for name, ev in me.items():
        if isinstance(ev, (set, frozenset)):
            check(inside(name, ev).all(), 'samples given %s violate the condition on %s', me, name)
        else:
            col = vals[[v.name for v in vs].index(name)]
            check(all(any(a - tol <= x <= b + tol for a, b, _, _ in ev) for x in col), 'samples given %s violate the condition on %s', me, name)
    if n < 300:
        return
    near = any(not isinstance(ev, (set, frozenset)) and any(abs(b) != INF and ref.has_jump_near(name, b, 1e-5) for iv in ev for b in iv[:2]) for name, ev in mq.items()) \
        and any(v['k'] == 'scaled' for v in case['m']['vars'])
    if not near:
        k = int(np.logical_and.reduce([inside(name, ev) for name, ev in mq.items()] or [np.ones(n, dtype=bool)]).sum())
        check(freq_ok(k, n, min(1., max(0., ref.p(mq)))), '%s: %s occurs in %d of %d samples, probability %r', how, q, k, n, ref.p(mq))
    for a, va in enumerate(vs):                     # joint frequencies of all pairs of discrete variables
        for b, vb in enumerate(vs[:a + 1]):
            if va.numeric or vb.numeric:
                continue
            for x in set(vals[a]):
                for y in set(vals[b]):
                    ev = ev_inter({va.name: {int(x)}}, {vb.name: {int(y)}})
                    k = int(((vals[a] == x) & (vals[b] == y)).sum())
                    check(freq_ok(k, n, ref.p(ev)), '%s: %s=%r, %s=%r occurs in %d of %d samples, probability %r', how, va.name, x, vb.name, y, k, n, ref.p(ev))
    for l in range(len(ref.leaves)):                # rows which only one leaf can produce
        only = could[:, l] & (could.sum(axis=1) == 1)
        check(only.sum() <= n * ref.leaves[l].prior + 7 * (n * ref.leaves[l].prior) ** .5 + 20, '%s: %d of %d rows stem from leaf %d of prior %r', how, int(only.sum()), n, ref.leaves[l].idx, ref.leaves[l].prior)
