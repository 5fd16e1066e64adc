"""F01: arithmetic on functions is pointwise."""
import math

import numpy as np
from hypothesis import strategies as st

from vp.core import check, check_close, close, fail, subcheck
from vp.plf import *
from vp.sets import *

from jpt.base.functions import ConstantFunction, LinearFunction, PiecewiseFunction, QuadraticFunction, Undefined

ASSUMPTIONS = ['Coefficients of magnitude <= 50, knots of magnitude <= 1000; comparison tolerance 1e-9 relative to the terms summed.',
               'Combinations the library documents as unsupported (piecewise with quadratic operands, products of degree > 2) are excluded.']


def agree(what, got, want, x, mag=1., detail=''):
    if math.isnan(want) or math.isnan(got):
        if not (math.isnan(want) and math.isnan(got)):
            fail('%s at %r is %r, expected %r\n%s', what, x, got, want, detail)
    elif abs(got - want) > 1e-9 * max(1., mag):
        fail('%s at %r is %r, expected %r\n%s', what, x, got, want, detail)


ecase = st.fixed_dictionaries({'f': elem(True, 2), 'g': elem(True, 2), 'k': coefv, 'xs': st.lists(anypt, min_size=1, max_size=5)})


@subcheck('F01', 'elementary', ecase, quick=3000, thorough=60000, shards=2,
          rule='both operands defined, at least one of degree >= 1')
def elementary(ctx, case):
    cf, cg, k, xs = case['f'], case['g'], case['k'], case['xs']
    f, g = mk_elem(cf), mk_elem(cg)
    df, dg = (0 if c is None else len(c) - 1 for c in (cf, cg))
    ctx.nontrivial(cf is not None and cg is not None and df + dg > 0)
    pf, pg = (lambda x: poly(cf, x)), (lambda x: poly(cg, x))
    ops = [('f(x)', f, pf), ('copy', f.copy(), pf), ('simplify', f.simplify(), pf)]
    quad_undef = {df, dg} & {2} and (cf is None or cg is None)
    if not quad_undef:
        ops.append(('f+g', f + g, lambda x: pf(x) + pg(x)))
        ops.append(('f.add(g)', f.add(g), lambda x: pf(x) + pg(x)))
    if not quad_undef and df + dg <= 2:
        ops.append(('f*g', f * g, lambda x: pf(x) * pg(x)))
        ops.append(('f.mul(g)', f.mul(g), lambda x: pf(x) * pg(x)))
    if not quad_undef and df + dg > 2:
        for name, op in (('f*g', lambda: f * g), ('f.mul(g)', lambda: f.mul(g))):
            try:
                r = op()
            except TypeError:
                continue
            fail('%s of degree %d is %r, which it cannot be', name, df + dg, r)
    ops += [('f+k', f + k, lambda x: pf(x) + k), ('k+f', k + f, lambda x: pf(x) + k),
            ('f*k', f * k, lambda x: pf(x) * k), ('k*f', k * f, lambda x: pf(x) * k)]
    if isinstance(f, LinearFunction):
        ops.append(('f-k', f - k, lambda x: pf(x) - k))
        ops.append(('k-f', k - f, lambda x: k - pf(x)))
        if dg <= 1 or isinstance(g, QuadraticFunction):
            ops.append(('f-g', f - g, lambda x: pf(x) - pg(x)))
    if cf is not None and df <= 1:
        ops.append(('xshift', f.xshift(k), lambda x: pf(x + k)))
        ops.append(('xmirror', f.xmirror(), lambda x: pf(-x)))
    if cf is not None:
        d = [i * a for i, a in enumerate(cf)][1:] or [0.]
        ops.append(('derivative', f.differentiate(), lambda x: poly(d, x)))
    for x in xs + [0.]:
        mag = (sum(abs(a) * abs(x) ** i for i, a in enumerate(cf or [])) + 1 + 50) * (sum(abs(a) * abs(x) ** i for i, a in enumerate(cg or [])) + 1 + 50)
        for name, h, want in ops:
            agree(name, h.eval(x), want(x), x, mag)
            agree(name + ' call', h(x), want(x), x, mag)
        ys = np.asarray(f.multi_eval(np.array([x, x + 1.])))
        agree('multi_eval', ys[0], pf(x), x, mag)
        agree('multi_eval', ys[1], pf(x + 1.), x, mag * 4)
    check(read_elem(f) == cf and read_elem(g) == cg, 'operands were modified')
    if cf is not None and df <= 1:
        a, b = sorted([xs[0], xs[-1]])
        want = cf[0] * (b - a) + (cf[1] * (b * b - a * a) / 2 if df else 0)
        check_close(f.integrate(a, b), want, 'integral of %r over [%r, %r]', f, a, b, atol=1e-6)
        if isinstance(f, LinearFunction) and df:
            check_close(f.eval(f.root()), 0, 'root', atol=1e-6 * (1 + abs(cf[0])))
            check_close(f.invert().eval(f.eval(xs[0])), xs[0], 'inverse', atol=1e-6, rtol=1e-6)
        if cg is not None and dg <= 1:
            s = f.intersection(g)
            if not s.isempty():
                x = s.any_point()
                check_close(f.eval(x), g.eval(x), 'intersection point %r', x, atol=1e-6 * (1 + abs(f.eval(x))))
            else:
                check((cf + [0.])[1] == (cg + [0.])[1] and cf[0] != cg[0], 'no intersection of %r and %r', f, g)
            if (cf + [0.])[1] == (cg + [0.])[1] and cf[0] == cg[0]:
                check(s.isinf(), 'identical functions intersect everywhere')
    if isinstance(f, QuadraticFunction) and abs(cf[2]) > 1e-6:
        check_close(f.argvertex(), -cf[1] / (2 * cf[2]), 'vertex of %r', f, atol=1e-9)
    if isinstance(f, QuadraticFunction):
        for r in f.roots():
            check_close(f.eval(r), 0, 'root %r of %r', r, f, atol=1e-6 * (1 + sum(abs(a) * abs(r) ** i for i, a in enumerate(cf))))
        disc = cf[1] ** 2 - 4 * cf[2] * cf[0]
        if abs(disc) > 1e-6:
            check(len(f.roots()) == (2 if disc > 0 else 0), 'number of roots of %r', f)


pairs = st.sampled_from(['canonical', 'any']).flatmap(lambda e: st.fixed_dictionaries(
    {'f': plf(undef=True, ends=e), 'g': plf(undef=True, ends=e), 'k': coefv, 'h': elem(False, 1)}))


@subcheck('F01', 'piecewise', pairs, quick=5000, thorough=100000, shards=5,
          rule='domains overlap and the operands together have at least three segments')
def piecewise(ctx, case):
    sf, sg, k, ch = case['f'], case['g'], case['k'], case['h']
    f, g, h = mk_plf(sf), mk_plf(sg), mk_elem(ch)
    pf, pg, ph = (lambda x: peval(sf, x)), (lambda x: peval(sg, x)), (lambda x: poly(ch, x))
    xs = xprobes(sf, sg)
    ctx.nontrivial(len(sf) + len(sg) >= 3 and any(not math.isnan(pf(x) + pg(x)) for x in xs))
    ctx.label('gap', any(math.isnan(pf(x)) for x in xs[2:-2]))
    one = [s for s in sf] + [s for s in sg]
    nosq = all(len(s[4] or []) <= 1 for s in sf) or all(len(s[4] or []) <= 1 for s in sg)
    ops = [('f', f, pf), ('copy', f.copy(), pf), ('f+g', f + g, lambda x: pf(x) + pg(x)), ('f-g', f - g, lambda x: pf(x) - pg(x)),
           ('f*g', f * g, lambda x: pf(x) * pg(x)),
           ('f+k', f + k, lambda x: pf(x) + k), ('k+f', k + f, lambda x: pf(x) + k),
           ('f*k', f * k, lambda x: pf(x) * k), ('k*f', k * f, lambda x: pf(x) * k),
           ('f+h', f + h, lambda x: pf(x) + ph(x)), ('f*h', f * h, lambda x: pf(x) * ph(x)), ('f-h', f - h, lambda x: pf(x) - ph(x))]
    if k:
        ops.append(('f/k', f / k, lambda x: pf(x) / k))
    for name, p, want in ops:
        well_formed(p, name)
        ys = np.asarray(p.multi_eval(np.array(xs)))
        for x, y in zip(xs, ys):
            mag = (scale_of(sf, x) + 50) * (scale_of(sg, x) + 50 + scale_of([[0, 0, 0, 0, ch]], x)) / (min(1., abs(k)) or 1.)
            agree(name, p.eval(x), want(x), x, mag, str(p))
            agree(name + ' (array)', y, want(x), x, mag)
    check(read_plf(f) == sf and read_plf(g) == sg and read_elem(h) == ch, 'operands were modified')
    q = f.copy()
    q += g
    for x in xs:
        agree('f+=g', q.eval(x), pf(x) + pg(x), x, scale_of(sf, x) + scale_of(sg, x))
    q = f.copy()
    q *= g
    for x in xs:
        agree('f*=g', q.eval(x), pf(x) * pg(x), x, scale_of(sf, x) * scale_of(sg, x))


mm = st.fixed_dictionaries({'f': plf(), 'g': plf()})


@subcheck('F01', 'min_max_abs', mm, quick=3000, thorough=60000, shards=4,
          rule='the functions overlap and neither dominates the other')
def min_max_abs(ctx, case):
    sf, sg = case['f'], case['g']
    f, g = mk_plf(sf), mk_plf(sg)
    pf, pg = (lambda x: peval(sf, x)), (lambda x: peval(sg, x))
    xs = xprobes(sf, sg)
    both = [x for x in xs if not math.isnan(pf(x) + pg(x))]
    ctx.nontrivial(any(pf(x) < pg(x) for x in both) and any(pf(x) > pg(x) for x in both))
    lo, hi = PiecewiseFunction.min(f, g), PiecewiseFunction.max(f, g)
    ab = PiecewiseFunction.abs(f)
    for name, p, want in (('min', lo, lambda a, b: min(a, b)), ('max', hi, lambda a, b: max(a, b))):
        well_formed(p, name)
        for x in xs:
            a, b = pf(x), pg(x)
            agree(name, p.eval(x), NAN if math.isnan(a + b) else want(a, b), x, 100 * (scale_of(sf, x) + scale_of(sg, x)), '%s\n--\n%s\n--\n%s' % (f, g, p))
    well_formed(ab, 'abs')
    for x in xs:
        agree('abs', ab.eval(x), abs(pf(x)), x, 100 * scale_of(sf, x), '%s\n--\n%s' % (f, ab))
    check(read_plf(f) == sf and read_plf(g) == sg, 'operands were modified')


@st.composite
def level_case(draw):
    """continuous functions on the reals with constant tails, or step functions"""
    n = draw(st.integers(1, 5))
    pts = sorted(draw(st.sets(gridpt, min_size=n + 1, max_size=n + 1)))
    vals = [float(v) for v in draw(st.lists(st.integers(-2, 2), min_size=n + 3, max_size=n + 3))]
    if draw(st.booleans()):
        segs = [[-INF, pts[0], EXC, EXC, [vals[0]]]]
        for a, b, v, w in zip(pts, pts[1:], vals, vals[1:]):
            m = (w - v) / (b - a)
            segs.append([a, b, INC, EXC, [v - m * a, m] if m else [v]])
        segs.append([pts[-1], INF, INC, EXC, [vals[n]]])
    else:
        b = [-INF] + pts + [INF]
        segs = [[b[i], b[i + 1], INC if i else EXC, EXC, [vals[i]]] for i in range(len(b) - 1)]
    return {'f': segs, 'y': draw(st.sampled_from([-3., -2., -1., -.5, 0., .5, 1., 2., 3.]))}


@subcheck('F01', 'levels', level_case(), quick=2500, thorough=50000, shards=2, rule='the level is crossed or attained')
def levels(ctx, case):
    """f = y, f < y, f > y on continuous functions over the reals (and f > y on step functions, its use on densities)"""
    sf, y = case['f'], case['y']
    f = mk_plf(sf)
    steps = all(len(s[4]) == 1 for s in sf) and len({s[4][0] for s in sf}) > 1
    lo, hi = min(poly(s[4], b) for s in sf for b in s[:2] if abs(b) != INF), max(poly(s[4], b) for s in sf for b in s[:2] if abs(b) != INF)
    ctx.nontrivial(lo <= y <= hi)
    eq, lt, gt = f.eq(y), f.lt(y), f.gt(y)
    xs = [x for x in xprobes(sf, ulps=False)]
    for x in xs:
        v = peval(sf, x)
        if abs(v - y) < 1e-9:
            if any(sg[0] <= x < sg[1] and len(sg[4]) == 1 for sg in sf):
                check(x not in lt, 'f(%r) = %r is not < %r: %s\n%s', x, v, y, lt, f)
                check(x not in gt, 'f(%r) = %r is not > %r: %s\n%s', x, v, y, gt, f)
        else:
            check((x in gt) == (v > y), 'f(%r) = %r > %r is reported %r: %s\n%s', x, v, y, x in gt, gt, f)
            check((x in lt) == (v < y), 'f(%r) = %r < %r is reported %r: %s\n%s', x, v, y, x in lt, lt, f)
            if not steps:
                check(x not in eq, 'f(%r) = %r is not %r\n%s\n%s', x, v, y, eq, f)
    if not steps:
        # a crossing in the interior of a segment, or a level segment, is found
        for s in sf:
            va, vb = (poly(s[4], b) if abs(b) != INF else s[4][0] for b in s[:2])
            if (va < y - 1e-9 and vb > y + 1e-9) or (va > y + 1e-9 and vb < y - 1e-9):
                x = (y - s[4][0]) / s[4][1]
                check(any(abs(i.lower - x) <= 1e-9 for i in eq.intervals), 'crossing of %r at %r missing from %s\n%s', y, x, eq, f)
            elif s[4] == [y]:
                x = s[0] + 1 if s[1] == INF else s[1] - 1 if s[0] == -INF else (s[0] + s[1]) / 2
                check(x in eq, 'segment %r missing from %s', s, eq)
