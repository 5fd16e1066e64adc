"""Reference model of piecewise polynomials and generators for them.

A function is a list of segments [lower, upper, left, right, coef]; coef is None (undefined) or polynomial coefficients, lowest
degree first.  Segments are disjoint and sorted."""
import math

from hypothesis import strategies as st

from vp.core import Violation, close
from vp.sets import EXC, INC, INF, iv_range, nxt, ordn, prv, unord

NAN = float('nan')


def poly(c, x):
    if c is None:
        return NAN
    r = 0.
    for a in reversed(c):
        r = r * x + a if a or r else 0. * 0
    return r


def peval(segs, x):
    n = ordn(x)
    for lo, up, l, r, c in segs:
        a, b = iv_range(lo, up, l, r)
        if a <= n <= b:
            return poly(c, x)
    return NAN


def mk_elem(c):
    from jpt.base.functions import ConstantFunction, LinearFunction, QuadraticFunction, Undefined
    if c is None:
        return Undefined()
    if len(c) == 1:
        return ConstantFunction(c[0])
    if len(c) == 2:
        return LinearFunction(c[1], c[0])
    return QuadraticFunction(c[2], c[1], c[0])


def mk_plf(segs):
    from jpt.base.functions import PiecewiseFunction
    from jpt.base.intervals import ContinuousSet
    f = PiecewiseFunction()
    for lo, up, l, r, c in segs:
        f.append(ContinuousSet(lo, up, l, r), mk_elem(c))
    return f


def read_elem(f):
    n = type(f).__name__
    if n == 'Undefined':
        return None
    if n == 'ConstantFunction':
        return [f.value]
    if n == 'LinearFunction':
        return [f.c, f.m]
    if n == 'QuadraticFunction':
        return [f.c, f.b, f.a]
    return n


def read_plf(f):
    return [[i.lower, i.upper, int(i.left), int(i.right), read_elem(g)] for i, g in f.iter()]


def xprobes(*lists, ulps=True, extra=()):
    """segment ends, their neighbours, interior points and far away points"""
    pts = set(extra) | {0.}
    ends = sorted({b for segs in lists for s in segs for b in s[:2] if abs(b) != INF})
    for e in ends:
        pts.add(e)
        if ulps:
            pts |= {nxt(e), prv(e)}
    for a, b in zip(ends, ends[1:]):
        pts |= {a + (b - a) * t for t in (.25, .5, .875)}
    if ends:
        pts |= {ends[0] - 1, ends[0] - 1e3, ends[-1] + 1, ends[-1] + 1e3}
    return sorted(pts)


def scale_of(segs, x):
    """magnitude of the terms that are summed when evaluating at x (absolute error bound)"""
    m = 1.
    for s in segs:
        if s[4] is not None:
            m = max(m, sum(abs(a) * abs(x) ** k for k, a in enumerate(s[4])))
    return m


def well_formed(f, what):
    """segments are sorted, disjoint, non-empty"""
    last = None
    for i, _ in f.iter():
        a, b = iv_range(i.lower, i.upper, i.left, i.right)
        if a > b:
            raise Violation('%s: empty segment %r in\n%s' % (what, i, f))
        if last is not None and a <= last:
            raise Violation('%s: overlapping or unsorted segments at %r in\n%s' % (what, i, f))
        last = b


# --------------------------------------------------------------------------------------------------- generators

gridpt = st.integers(-16, 16).map(lambda k: k / 4.)
anypt = st.one_of(gridpt, gridpt, gridpt, st.floats(-100, 100).map(lambda x: round(x, 3) + 0.), st.floats(-1e3, 1e3).map(lambda x: x + 0.).filter(lambda x: x == 0 or abs(x) > 1e-6))
coefv = st.one_of(st.integers(-6, 6).map(lambda k: k / 2.), st.integers(-3, 3).map(float), st.floats(-50, 50).map(lambda x: round(x, 2) + 0.))


def elem(undef=False, deg=1):
    opts = [st.tuples(coefv).map(list), st.tuples(coefv, coefv.filter(bool)).map(list)]
    if deg == 0:
        opts = opts[:1]
    if deg >= 2:
        opts.append(st.tuples(coefv, coefv, coefv.filter(bool)).map(list))
    if undef:
        opts.append(st.none())
    return st.one_of(opts)


@st.composite
def plf(draw, max_size=5, min_size=1, gaps=True, inf=True, undef=False, deg=1, ends='canonical', cover=False, values=None,
        inf_deg=None, pts=None):
    """ends='canonical': [a, b) segments, the library's normal form; 'any': arbitrary end types.
    cover: the segments cover the reals."""
    n = draw(st.integers(min_size, max_size))
    pts = sorted(draw(st.sets(pts or anypt, min_size=n + 1, max_size=n + 1)))
    if cover or (inf and draw(st.integers(0, 2)) == 0):
        pts = [-INF] + pts
    if cover or (inf and draw(st.integers(0, 2)) == 0):
        pts = pts + [INF]
    segs = []
    prev_closed = False
    e = values or elem(undef, deg)
    for a, b in zip(pts, pts[1:]):
        if gaps and not cover and len(pts) > 2 and draw(st.integers(0, 4)) == 0:
            prev_closed = False
            continue
        if ends == 'canonical':
            l = EXC if a == -INF else INC
            r = EXC
        else:
            l = EXC if a == -INF or prev_closed else draw(st.sampled_from([INC, INC, EXC]))
            r = EXC if b == INF else draw(st.sampled_from([EXC, EXC, INC]))
        c = draw(e)
        if (abs(a) == INF or abs(b) == INF) and inf_deg is not None and c is not None:
            c = c[:inf_deg + 1]
        segs.append([a, b, l, r, c])
        prev_closed = r == INC
    if not segs:
        segs = [[0., 1., INC, EXC, draw(e)]]
    return segs
