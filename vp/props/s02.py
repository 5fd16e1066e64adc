"""S02: value objects survive text, JSON, pickle and copy round trips."""
import copy as copylib
import json
import math
import pickle

import numpy as np
from hypothesis import strategies as st

from vp.core import Skip, check, check_close, close, fail, subcheck
from vp.dists import cprobes, mk_numeric, numspec
from vp.plf import *
from vp.sets import *

ASSUMPTIONS = ['Pickle protocols 2 to 5 (classes with C members do not support 0 and 1 in Python at all).',
               'A union of intervals is formatted and parsed piece by piece; its formatted pieces are joined by the union sign.',
               'Bounds are doubles (no NaN); functions are the ones models consist of: undefined, constant, linear, quadratic, piecewise.']


def text(o):
    """through JSON text"""
    return json.loads(json.dumps(o))


def restored(o, from_json=None):
    """(name, restored object) pairs"""
    for p in range(2, pickle.HIGHEST_PROTOCOL + 1):
        yield 'pickle (protocol %d)' % p, pickle.loads(pickle.dumps(o, p))
    yield 'copy.copy', copylib.copy(o)
    yield 'copy.deepcopy', copylib.deepcopy(o)
    yield 'copy()', o.copy()
    if from_json is not None:
        data = o.to_json()
        yield 'JSON', from_json(data)
        yield 'JSON text', from_json(text(data))
        yield 'JSON twice', from_json(text(from_json(text(data)).to_json()))
        check(json.dumps(from_json(text(data)).to_json(), sort_keys=True) == json.dumps(data, sort_keys=True), 'the JSON form of the restored object differs:\n%s\n%s', data,
              from_json(text(data)).to_json())


def same(a, b, how):
    check(a == b and b == a, '%s: %r restored as %r does not equal the original', how, a, b)
    check(not a != b and not b != a, '%s: %r restored as %r is unequal to the original', how, a, b)
    check(hash(a) == hash(b), '%s: equal objects %r and %r have different hashes', how, a, b)


def same_set(a, b, want, xs, how):
    check(type(a) is type(b), '%s: %s became %s', how, type(a).__name__, type(b).__name__)
    check(model(b) == want, '%s: %r restored as %r', how, a, b)
    check(rep(a) == rep(b), '%s: %r restored as %r', how, rep(a), rep(b))
    same(a, b, how)
    for x in xs:
        check((x in b) == m_has(want, x), '%s: membership of %r in %r restored as %r', how, x, a, b)
    check(bool(a.isempty()) == bool(b.isempty()) and str(a) == str(b), '%s: %r restored as %r', how, a, b)


anysides = st.fixed_dictionaries({'iv': interval(), 'close': st.booleans()})


@subcheck('S02', 'intervals', anysides, quick=1500, thorough=40000, shards=2, rule='the interval is not empty and has different end types, one point, or an infinite end')
def intervals(ctx, case):
    from jpt.base.intervals import ContinuousSet
    i = case['iv']
    if case['close'] and abs(i[0]) == INF:
        i = [i[0], i[1], INC, i[3]]     # closed infinite ends are accepted
    s = mk_cs(i)
    want = model_of([i])
    ctx.nontrivial(bool(want) and (i[2] != i[3] or i[0] == i[1] or INF in map(abs, i[:2])))
    xs = probes([i])
    for how, r in restored(s, ContinuousSet.from_json):
        same_set(s, r, want, xs, how)
    for notation in ('par', 'sq', None):
        for t in (s.pfmt(notation=notation), s.pfmt(number_format='%r', notation=notation), s.pfmt(number_format='%.17g', notation=notation)):
            for u in (t, t.replace(',', ' , '), t.replace('∞', 'inf')):
                r = ContinuousSet.parse(u)
                check(model(r) == (want if not s.isempty() else model(r)) and (not s.isempty() or r.isempty()), '%r formatted as %r is parsed as %r', rep(s), u, rep(r))
                if not s.isempty() and abs(i[0]) != INF and abs(i[1]) != INF:
                    check(rep(r) == rep(s), '%r formatted as %r is parsed as %r', rep(s), u, rep(r))
                if rep(r) == rep(s):
                    same(s, r, 'text')
    check(rep(s) == rep(mk_cs(i)), 'the original was modified')
    # objects are independent of what they were restored from
    r = s.copy()
    for o in (r, ContinuousSet.from_json(s.to_json()), ContinuousSet.parse(s.pfmt())):
        o.lower, o.upper, o.left, o.right = 77., 78., INC, INC
        check(rep(s) == rep(mk_cs(i)), 'changing a copy of %r changed the original', rep(s))
    e = ContinuousSet.parse('∅')
    check(e.isempty(), 'the empty set is parsed as %r', e)
    e.upper, e.left, e.right = 5., INC, INC
    check(ContinuousSet.parse('∅').isempty(), 'changing a parsed empty set changed what is parsed later')
    # other spellings of the same set of doubles
    if want and not fine([i]):
        lo, up = unord(want[0][0]), unord(want[0][1])
        for o in ([lo, up, INC, INC], [prv(lo), up, EXC, INC], [lo, nxt(up), INC, EXC]):
            if INF in map(abs, o[:2]):
                continue
            o = mk_cs(o)
            if o == s:
                check(hash(o) == hash(s), '%r and %r are equal but have different hashes', rep(o), rep(s))


rcase = st.fixed_dictionaries({'s': realset(), 'perm': st.permutations(range(4)), 'cut': bound})


@subcheck('S02', 'real sets', rcase, quick=1200, thorough=30000, shards=2, rule='at least two non-empty intervals')
def realsets(ctx, case):
    from jpt.base.intervals import ContinuousSet, RealSet
    c = case['s']
    s = mk_rs(c)
    want = model_of(c)
    ctx.nontrivial(sum(bool(model_of([i])) for i in c) >= 2)
    xs = probes(c)
    before = rep(s)
    for how, r in restored(s, RealSet.from_json):
        same_set(s, r, want, xs, how)
        check(rep(s) == before, '%s changed the original from %r to %r', how, before, rep(s))
        if how in ('copy.copy', 'copy.deepcopy', 'copy()', 'JSON') and r.intervals:
            if how != 'copy.copy':
                r.intervals[0].lower, r.intervals[0].upper, r.intervals[0].left, r.intervals[0].right = 77., 78., INC, INC
                r.intervals.append(ContinuousSet(100, 101))
                check(rep(s) == before, 'changing a %s changed the original from %r to %r', how, before, rep(s))
    for notation in ('par', 'sq'):
        r = RealSet([i.pfmt(notation=notation) for i in s.intervals])
        check(model(r) == want, '%r formatted (%s) and parsed is %r', s, notation, r)
    if c and not s.isempty():
        r = RealSet([t for t in str(s).split('∪')])
        check(model(r) == want, '%r as text %s is parsed as %r', s, s, r)
    # equal sets in other representations: reordered, cut at a point, simplified
    other = [c[k] for k in case['perm'] if k < len(c)]
    cut = []
    for lo, up, l, r in c:
        if lo < case['cut'] < up:
            cut += [[lo, case['cut'], l, EXC], [case['cut'], up, INC, r]]
        else:
            cut.append([lo, up, l, r])
    variants = [mk_rs(other), mk_rs(cut), mk_rs(c + c[:1]), s.simplify()]
    for r in variants:
        if not fine(c, [[case["cut"]] * 2]):
            check(s == r and r == s, '%r and %r denote the same set but are not equal', s, r)
        if s == r:
            check(hash(s) == hash(r), '%r and %r are equal but have different hashes', s, r)
    check(len({s, s.copy(), *[r for r in variants if s == r]}) == 1, 'equal sets are different elements of a Python set')


def same_fn(f, g, segs, xs, how):
    check(type(f) is type(g), '%s: %s became %s', how, type(f).__name__, type(g).__name__)
    got = read_plf(g) if hasattr(g, 'intervals') else read_elem(g)
    check(got == segs, '%s: %r restored as %r', how, segs, got)
    same(f, g, how)
    for x in xs:
        a, b = f.eval(x), g.eval(x)
        check(a == b or math.isnan(a) and math.isnan(b), '%s: value at %r is %r, was %r', how, x, b, a)


def loader(f):
    """the class's own loader, or that of its base class"""
    import jpt.base.functions as F
    return getattr(type(f), 'from_json', None) or getattr(F.Function, 'from_json', None) or F.LinearFunction.from_json


anycoef = st.one_of(coefv, st.floats(-1e6, 1e6).map(lambda x: x + 0.), st.sampled_from([1e-300, 1 / 3, -0.1, 1e100]))
anyelem = st.one_of(st.none(), st.lists(anycoef, min_size=1, max_size=3))


@subcheck('S02', 'elementary functions', st.fixed_dictionaries({'c': anyelem, 'xs': st.lists(anypt, min_size=1, max_size=4)}),
          quick=1000, thorough=20000, shards=1, rule='degree at least 1')
def elementary(ctx, case):
    from jpt.base.functions import ConstantFunction, LinearFunction, Undefined
    c = case['c']
    ctx.nontrivial(c is not None and len(c) > 1)
    f = mk_elem(c)
    for how, g in restored(f, loader(f)):
        same_fn(f, g, c, case['xs'], how)
    if c is not None and len(c) == 2 and c[1] == 0:
        same(f, ConstantFunction(c[0]), 'constant as linear function') if f == ConstantFunction(c[0]) else None
    for g in (ConstantFunction(NAN), LinearFunction(NAN, 1.), LinearFunction(1., NAN)):
        for u in (Undefined(), ConstantFunction(NAN)):
            if g == u:
                check(hash(g) == hash(u), '%r and %r are equal but have different hashes', g, u)
    if c is not None and len(c) == 2 and c[1]:
        for t in ('%rx + %r' % (c[1], c[0]) if c[0] >= 0 else '%rx - %r' % (c[1], -c[0]), str(f)):
            if 'e' not in t:
                g = LinearFunction.parse(t)
                check(read_elem(g) == c, 'the text %r is parsed as %r', t, read_elem(g))


pcase = st.fixed_dictionaries({'p': st.one_of(plf(undef=True, deg=2, ends='any'), plf(deg=1), plf(undef=True, deg=2, ends='canonical', cover=True)), 'k': coefv})


@subcheck('S02', 'piecewise functions', pcase, quick=800, thorough=20000, shards=2, rule='at least two pieces of different kinds')
def piecewise(ctx, case):
    from jpt.base.functions import PiecewiseFunction
    segs = case['p']
    ctx.nontrivial(len({-1 if s[4] is None else len(s[4]) for s in segs}) > 1)
    f = mk_plf(segs)
    xs = xprobes(segs)
    for how, g in restored(f, PiecewiseFunction.from_json):
        same_fn(f, g, segs, xs, how)
        if how != 'copy.copy':
            g.intervals[0].upper = g.intervals[0].lower
            g.functions.append(g.functions[0])
            g.intervals.append(g.intervals[0])
            for e in g.functions:
                if type(e).__name__ == 'ConstantFunction':
                    e.value = 77.
                elif hasattr(e, 'c'):
                    e.c = 77.
            check(read_plf(f) == segs, 'changing a %s changed the original', how)
    check(hash(f) == hash(mk_plf(segs)), 'hashes of equal functions differ')


@subcheck('S02', 'quantile distributions', st.fixed_dictionaries({'d': numspec(depth=2)}), quick=500, thorough=10000, shards=2, rule='at least two pieces with positive slope')
def quantiles(ctx, case):
    from jpt.distributions.quantile.quantiles import QuantileDistribution
    q = mk_numeric(case['d'])._quantile
    segs = read_plf(q.cdf)
    ctx.nontrivial(sum(1 for s in segs if len(s[4] or []) == 2) >= 2)
    xs = cprobes(segs)
    pdf, ppf = read_plf(q.pdf), read_plf(q.ppf)
    for how, r in restored(q, QuantileDistribution.from_json):
        check(r == q and q == r, '%s: the restored distribution is not equal', how) if hasattr(type(q), '__eq__') and type(q).__eq__ is not object.__eq__ else None
        check(read_plf(r.cdf) == segs, '%s: cumulative distribution\n%s\nrestored as\n%s', how, q.cdf, r.cdf)
        check(read_plf(r.pdf) == pdf and read_plf(r.ppf) == ppf, '%s: density or quantile function of the restored distribution differ', how)
        check(r.epsilon == q.epsilon and r.min_samples_mars == q.min_samples_mars, '%s: settings of the restored distribution differ', how)
        np.random.seed(5)
        a = np.asarray(q.sample(5))
        np.random.seed(5)
        check((np.asarray(r.sample(5)) == a).all(), '%s: samples of the restored distribution differ', how)
        if how != 'copy.copy':
            r.cdf.functions[-1].value = 5.
            check(read_plf(q.cdf) == segs, 'changing a %s changed the original', how)
    blank = QuantileDistribution(epsilon=.25, min_samples_mars=7)
    for how, r in restored(blank, QuantileDistribution.from_json):
        check(r.cdf is None and r.epsilon == .25 and r.min_samples_mars == 7, '%s: a distribution that has not been fitted is restored as %r', how, r)
