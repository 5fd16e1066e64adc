"""Generators and builders for univariate distributions, and reference reading of their CDFs."""
import math

import numpy as np
from hypothesis import strategies as st

from vp.plf import peval, poly, read_plf
from vp.sets import EXC, INC, INF, nxt, prv

# ---------------------------------------------------------------------------------------------------- numeric samples

_scales = st.sampled_from([1., 1., 1., 1e-3, 1e3, 1e6])
_base = st.one_of(st.integers(-8, 8).map(float), st.integers(-800, 800).map(lambda k: k / 100.), st.floats(-10, 10).map(lambda x: round(x, 5) + 0.))


@st.composite
def sample_values(draw, min_size=1, max_size=40, scaled=True, ties=None):
    """a finite data vector: grid data with ties, continuous data, clusters, heavy tails"""
    n = draw(st.integers(min_size, max_size))
    kind = draw(st.sampled_from(['list', 'list', 'grid', 'unif', 'gauss', 'exp', 'cluster']))
    s = draw(_scales) if scaled else 1.
    shift = draw(st.sampled_from([0., 0., 100., -1000.])) if scaled else 0.
    if kind == 'list':
        xs = draw(st.lists(_base, min_size=n, max_size=n))
    else:
        rng = np.random.RandomState(draw(st.integers(0, 2 ** 20)))
        xs = {'grid': lambda: rng.randint(0, draw(st.integers(1, 6)) + 1, n) * 1., 'unif': lambda: rng.rand(n) * 10,
              'gauss': lambda: rng.randn(n) * 2, 'exp': lambda: np.exp(rng.randn(n) * 1.5),
              'cluster': lambda: np.where(rng.rand(n) < .5, rng.randn(n) * .1 - 3, rng.randn(n) + 4)}[kind]()
        xs = [round(float(x), 5) for x in xs]
    xs = [x * s + shift * s for x in xs]
    if ties is False:
        xs = sorted(set(xs))
    return [float(x) + 0. for x in xs]


EPS = st.sampled_from([0., .01, .01, .05, .1, .2, .5])


def mk_quantile(case):
    from jpt.distributions.quantile.quantiles import QuantileDistribution
    q = QuantileDistribution(epsilon=case['eps'])
    q.fit(np.array(case['x'], dtype=np.float64).reshape(-1, 1), None, 0)
    return q


def left_limit(segs, x):
    """limit from the left of a piecewise polynomial that is defined on the reals"""
    for lo, up, l, r, c in segs:
        if lo < x <= up:
            return poly(c, x)
    return float('nan')


def set_mass(segs, lo, up, l, r):
    """probability of one interval under the CDF given by its segments"""
    if lo > up or lo == up and (l == EXC or r == EXC):
        return 0.
    a = 0. if lo == -INF else (left_limit(segs, lo) if l == INC else peval(segs, lo))
    b = 1. if up == INF else (peval(segs, up) if r == INC else left_limit(segs, up))
    return b - a


def jumps(segs, tol=1e-9):
    return [(s2[0], poly(s2[4], s2[0]) - poly(s1[4], s2[0])) for s1, s2 in zip(segs, segs[1:])
            if poly(s2[4], s2[0]) - poly(s1[4], s2[0]) > tol]


def slope_tol(segs, x):
    """rounding of m * x + c in the pieces around x"""
    m = 0.
    for lo, up, _, _, c in segs:
        if len(c) > 1 and lo - 1 <= x <= up + 1:
            m = max(m, abs(c[1]) * max(abs(x), 1e-9))
    return 1e-13 * m


def cprobes(*lists):
    """knots, points in between, and points outside"""
    ends = sorted({b for segs in lists for s in segs for b in s[:2] if abs(b) != INF})
    pts = set(ends)
    for a, b in zip(ends, ends[1:]):
        pts |= {a + (b - a) * t for t in (.25, .5, .9)}
    span = (ends[-1] - ends[0]) or 1.
    pts |= {ends[0] - span, ends[-1] + span}
    return sorted(pts)


# ----------------------------------------------------------------------------- numeric distributions as recursive specs

UNIT = st.one_of(st.integers(-2, 12).map(lambda k: k / 10.), st.floats(-.2, 1.2).map(lambda x: round(x, 6)))
POS = st.tuples(UNIT, st.booleans()).map(list)          # relative position in the support, snapped to a knot or not


def ivspec(inf=True):
    """an interval relative to the support of a distribution; None stands for an infinite end"""
    e = st.one_of(POS, POS, POS, POS, st.none()) if inf else POS
    return st.tuples(e, e, st.integers(1, 2), st.integers(1, 2)).map(list)


@st.composite
def ivunion(draw, max_size=4):
    """several intervals in ascending order, relative to the support"""
    n = draw(st.integers(1, max_size))
    ps = sorted(draw(st.lists(st.one_of(st.integers(-1, 41).map(lambda k: k / 40.), UNIT), min_size=2 * n, max_size=2 * n)))
    out = [[[ps[2 * i], draw(st.booleans())], [ps[2 * i + 1], draw(st.booleans())], draw(st.integers(1, 2)), draw(st.integers(1, 2))] for i in range(n)]
    if draw(st.integers(0, 3)) == 0:
        out[0][0] = None
    if draw(st.integers(0, 3)) == 0:
        out[-1][1] = None
    return draw(st.permutations(out))


def wvec(n):
    return st.lists(st.sampled_from([0, 1, 1, 2, 3, 5, 10]), min_size=n, max_size=n).filter(any)


def normw(w):
    s = float(sum(w))
    w = [x / s for x in w]
    return w


@st.composite
def numspec(draw, depth=2, scaled=False, xs=None, dirac=True, crops=True):
    kind = draw(st.sampled_from(['fit', 'fit', 'fit', 'dirac', 'merge', 'merge', 'crop'] if depth else ['fit', 'fit', 'fit', 'dirac']))
    if kind == 'dirac' and dirac:
        return dict(t='dirac', x=draw(_base))
    if kind == 'merge':
        n = draw(st.integers(1, 4))
        return dict(t='merge', ds=[draw(numspec(depth - 1, scaled, xs, dirac, crops)) for _ in range(n)], w=draw(wvec(n)))
    if kind == 'crop' and crops:
        return dict(t='crop', d=draw(numspec(depth - 1, scaled, xs, dirac, crops)), iv=draw(ivspec()))
    return dict(t='fit', x=draw(xs or sample_values(max_size=25, scaled=scaled)), eps=draw(EPS))


def support(segs):
    ends = [b for s in segs for b in s[:2] if abs(b) != INF]
    return min(ends), max(ends)


def resolve(pos, segs):
    lo, hi = support(segs)
    x = lo + (hi - lo or 1.) * pos[0]
    if pos[1]:
        x = min([b for s in segs for b in s[:2] if abs(b) != INF], key=lambda b: abs(b - x))
    return x


def mk_iv(iv, segs):
    """-> (lo, up, l, r), possibly empty or a single point"""
    a = -INF if iv[0] is None else resolve(iv[0], segs)
    b = INF if iv[1] is None else resolve(iv[1], segs)
    if a > b:
        a, b = b, a
    return a, b, EXC if a == -INF else iv[2], EXC if b == INF else iv[3]


def mk_numeric(spec, cls=None):
    """builds the distribution with the library's own operations; Skip when a restriction carries (almost) no mass"""
    from jpt.base.intervals import ContinuousSet
    from jpt.distributions.univariate import Numeric
    from vp.core import Skip
    cls = cls or Numeric
    if spec['t'] == 'fit':
        u = np.unique(spec['x'])
        if len(u) > 1 and np.diff(u).min() < 1e-7 * max(1., np.abs(u).max()):
            raise Skip()
        return cls(precision=spec['eps'])._fit(np.array(spec['x'], dtype=np.float64).reshape(-1, 1))
    if spec['t'] == 'dirac':
        return cls().create_dirac_impulse(spec['x'])
    if spec['t'] == 'merge':
        return cls.merge([mk_numeric(d, cls) for d in spec['ds']], normw(spec['w']))
    d = mk_numeric(spec['d'], cls)
    segs = read_plf(d.cdf)
    a, b, l, r = mk_iv(spec['iv'], segs)
    if set_mass(segs, a, b, l, r) < 1e-3:
        raise Skip()
    return d._crop(ContinuousSet(a, b, l, r))


def mass_of(segs, ivs):
    """probability of the union of disjoint intervals [(lo, up, l, r)]"""
    return sum(set_mass(segs, *iv) for iv in ivs)


# --------------------------------------------------------------------------------------------- discrete distributions

SYMS = [['A'], ['A', 'B'], ['A', 'B', 'C'], ['lo', 'mid', 'hi', 'x y', 'ü'], [3, 1, 2], [0, 1], ['b', 'a', '1', 'True'], list('hgfedcba')]


@st.composite
def domain(draw, kinds=('int', 'sym', 'bool')):
    k = draw(st.sampled_from(kinds))
    if k == 'int':
        lo = draw(st.integers(-6, 6))
        return dict(k='int', lo=lo, hi=lo + draw(st.integers(0, 7)))
    if k == 'sym':
        return dict(k='sym', labels=draw(st.sampled_from(SYMS)))
    return dict(k='bool')


def mk_domain(dom, name='X'):
    from jpt.distributions.univariate import Bool, IntegerType, SymbolicType
    if dom['k'] == 'int':
        return IntegerType(name, dom['lo'], dom['hi'])
    if dom['k'] == 'sym':
        return SymbolicType(name, dom['labels'])
    return Bool


def dlabels(dom):
    return list(range(dom['lo'], dom['hi'] + 1)) if dom['k'] == 'int' else dom['labels'] if dom['k'] == 'sym' else [False, True]


def params(n):
    """a probability vector as integer weights, zeros and ties included"""
    return st.lists(st.sampled_from([0, 0, 1, 1, 2, 3, 7, 50]), min_size=n, max_size=n).filter(any)
