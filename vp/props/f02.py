"""F02: transformations of piecewise functions keep their defining relation to the original."""
import math

import numpy as np
from hypothesis import strategies as st

from vp.core import Skip, check, check_close, close, fail, subcheck
from vp.plf import *
from vp.props.f01 import agree
from vp.sets import *

from jpt.base.functions import ConstantFunction, LinearFunction, PiecewiseFunction, QuadraticFunction, Undefined
from jpt.base.intervals import ContinuousSet, RealSet

ASSUMPTIONS = ['Knots and shifts are dyadic rationals, so that shifted knots are exact; other knots are probed away from their neighbours.',
               'Approximation is exercised on gap-free functions; unbounded segments are constant where an integral is needed.']


def pw(name, p, want, xs, sf, detail=''):
    well_formed(p, name)
    for x in xs:
        agree(name, p.eval(x), want(x), x, 10 * scale_of(sf, x), detail or str(p))


ivs = interval(allow_empty=False, bnd=anypt)
tcase = st.fixed_dictionaries({'f': st.sampled_from(['canonical', 'any']).flatmap(lambda e: plf(undef=True, ends=e, deg=2)), 'i': ivs, 'g': elem(True, 2),
                               'segs': plf(undef=True, inf=True), 'd': st.integers(-40, 40).map(lambda k: k / 8.), 'a': coefv})


@subcheck('F02', 'crop_overwrite_split', tcase, quick=4000, thorough=80000, shards=3,
          rule='the target set meets the domain of a function with at least two segments')
def crop_overwrite_split(ctx, case):
    sf, iv, cg, segs, a = case['f'], case['i'], case['g'], case['segs'], case['a']
    f, i, g = mk_plf(sf), mk_cs(iv), mk_elem(cg)
    pf = lambda x: peval(sf, x)
    mi = model_of([iv])
    xs = xprobes(sf, [iv], segs)
    ctx.nontrivial(len(sf) > 1 and any(m_has(mi, x) and not math.isnan(pf(x)) for x in xs))
    pw('crop', f.crop(i), lambda x: pf(x) if m_has(mi, x) else NAN, xs, sf)
    dom = f.domain()
    check(model(dom) == model_of([s[:4] for s in sf]), 'domain %s of %r', dom, f)
    p = f.overwrite_at(i, g)
    pw('overwrite_at', p, lambda x: poly(cg, x) if m_has(mi, x) else pf(x), xs, sf + [iv + [cg]])
    p = f.overwrite({mk_cs(s[:4]): mk_elem(s[4]) for s in segs})
    new = [m for s in segs for m in model_of([s[:4]])]
    pw('overwrite', p, lambda x: peval(segs, x) if m_has(new, x) else pf(x), xs, sf + segs)
    pw('simplify', f.simplify(), pf, xs, sf)
    pw('drop_undef', f.drop_undef(), pf, xs, sf)
    pw('from_dict', PiecewiseFunction.from_dict({mk_cs(s[:4]): mk_elem(s[4]) for s in reversed(sf)}), pf, xs, sf)
    pw('stretch', f.stretch(a), lambda x: pf(x) * a, xs, [s[:4] + [[v * 50 for v in s[4]] if s[4] else None] for s in sf])
    ends = {iv[0], iv[1]} | {s[0] for s in sf} | {s[1] for s in sf} | {s[0] + 1 for s in sf}
    for p in sorted(e for e in ends if abs(e) != INF):
        if not m_has(model_of([s[:4] for s in sf]), p):
            try:
                f.split(p)
            except ValueError:
                continue
            fail('split(%r) outside of the domain succeeded', p)
        l, r = f.split(p)
        for x in xs:
            agree('split(%r)[0]' % p, l.eval(x), pf(x) if x < p else NAN, x, scale_of(sf, x))
            agree('split(%r)[1]' % p, r.eval(x), pf(x) if x >= p else NAN, x, scale_of(sf, x))
    check(read_plf(f) == sf, 'the function was modified')
    check(read_elem(g) == cg, 'the argument was modified')
    s = f.simplify()
    for (i1, f1), (i2, f2) in zip(list(s.iter()), list(s.iter())[1:]):
        check(not (i1.contiguous(i2) and read_elem(f1) == read_elem(f2)), 'simplify leaves equal neighbours: %r', s)


scase = st.fixed_dictionaries({'f': plf(ends='canonical', undef=True, pts=gridpt), 'd': st.integers(-40, 40).map(lambda k: k / 8.)})


@subcheck('F02', 'shift_mirror', scase, quick=2500, thorough=50000, shards=2, rule='two or more segments, non-zero shift')
def shift_mirror(ctx, case):
    sf, d = case['f'], case['d']
    f = mk_plf(sf)
    pf = lambda x: peval(sf, x)
    ctx.nontrivial(len(sf) > 1 and d != 0)
    xs = xprobes(sf, ulps=False)
    p = f.xshift(d)
    well_formed(p, 'xshift')
    q = p.xshift(-d)
    for x in xs:
        agree('xshift(%r)' % d, p.eval(x - d), pf(x), x, 100 * scale_of(sf, x), str(p))
        agree('xshift there and back', q.eval(x), pf(x), x, 100 * scale_of(sf, x), str(q))
    m = f.xmirror()
    mm = m.xmirror()
    well_formed(m, 'xmirror')
    for x in xprobes(sf):
        agree('xmirror', m.eval(-x), pf(x), x, scale_of(sf, x), str(m))
        agree('xmirror twice', mm.eval(x), pf(x), x, scale_of(sf, x), str(mm))
    check(read_plf(f) == sf, 'the function was modified')
    ends = sorted({b for s in sf for b in s[:2] if abs(b) != INF})
    b = list(f.boundaries())
    check(all(x < y for x, y in zip(b, b[1:])), 'boundaries are not ascending: %r', b)
    for e in ends:
        check(any(abs(e - x) < 1e-12 * (1 + abs(e)) for x in b), 'boundary %r missing from %r', e, b)
    for x in b:
        check(any(abs(e - x) < 1e-12 * (1 + abs(e)) for e in ends), 'unexpected boundary %r', x)


icase = st.fixed_dictionaries({'f': plf(ends='canonical', inf_deg=0), 'a': anypt, 'b': anypt, 'c': anypt, 'inf': st.booleans()})


def s_int(segs, lo, up):
    t = 0.
    for a, b, _, _, c in segs:
        a, b = max(a, lo), min(b, up)
        if a < b and any(c):
            t += c[0] * (b - a) + (c[1] * (b * b - a * a) / 2 if len(c) > 1 else 0.)
    return t


@subcheck('F02', 'integrate_differentiate', icase, quick=4000, thorough=80000, shards=2,
          rule='the integration range meets at least two segments')
def integrate_differentiate(ctx, case):
    sf = case['f']
    if case['inf']:     # zero tails
        sf = [s if abs(s[0]) != INF and abs(s[1]) != INF else s[:4] + [[0.]] for s in sf]
    f = mk_plf(sf)
    a, b, c = sorted([case['a'], case['b'], case['c']])
    ctx.nontrivial(sum(1 for s in sf if s[0] < c and s[1] > a) > 1)
    tol = 1e-9 * sum((abs(s[4][0]) + abs((s[4] + [0.])[1]) * 1e3) * 2e3 for s in sf) + 1e-9

    def integ(lo, up, l=INC, r=EXC):
        return f.integrate(ContinuousSet(lo, up, l, r))
    for lo, up in ((a, b), (b, c), (a, c)):
        for r in (INC, EXC):
            check_close(integ(lo, up, INC, r), s_int(sf, lo, up), 'integral over [%r, %r] of\n%s', lo, up, f, atol=tol)
    check_close(integ(a, b) + integ(b, c), integ(a, c), 'additivity', atol=2 * tol)
    if case['inf']:
        t = s_int(sf, -INF, INF)
        check_close(f.integrate(), t, 'total integral of\n%s', f, atol=tol)
        check_close(integ(-INF, b, EXC) + integ(b, INF), t, 'additivity over the reals', atol=2 * tol)
        check_close(integ(-INF, b, EXC), s_int(sf, -INF, b), 'left integral', atol=tol)
        r = None
    d = f.differentiate()
    well_formed(d, 'differentiate')
    for x in xprobes(sf, ulps=False):
        s = [s for s in sf if s[0] <= x < s[1]]
        agree('derivative', d.eval(x), (s[0][4] + [0.])[1] if s and not (x == s[0][1] and s[0][3] == EXC) else NAN, x)
    if all(len(s[4]) == 1 or abs(s[0]) != INF and abs(s[1]) != INF for s in sf):
        r = f.rectify()
        well_formed(r, 'rectify')
        check([read_elem(g) and len(read_elem(g)) for _, g in r.iter()] == [1] * len(sf), 'rectify leaves non-constant pieces: %r', r)
        check(model(r.domain()) == model(f.domain()), 'rectify changes the domain')
        for s in sf:
            if abs(s[0]) != INF and abs(s[1]) != INF:
                i = ContinuousSet(s[0], s[1], INC, EXC)
                check_close(r.integrate(i), s_int([s], s[0], s[1]), 'rectify changes the integral over %r', i, atol=tol, rtol=1e-6)
    check(read_plf(f) == sf, 'the function was modified')


mcase = st.fixed_dictionaries({'f': plf(ends='canonical', inf_deg=0, values=st.one_of(
    st.integers(-2, 2).map(lambda k: [float(k)]), elem(), st.builds(lambda m, k: [float(k), float(m)], st.sampled_from([-1, 1]), st.integers(-3, 3))), pts=st.one_of(gridpt, st.integers(-3, 3).map(float)))})


@subcheck('F02', 'maximize', mcase, quick=4000, thorough=80000, shards=2, rule='the maximum is attained in more than one segment or at a segment end')
def maximize(ctx, case):
    """the reported set is exactly the set of points at which the reported maximum is attained"""
    sf = case['f']
    f = mk_plf(sf)
    pf = lambda x: peval(sf, x)
    arg, m = f.maximize()
    best, where = -INF, []
    for s in sf:
        lo, up = iv_range(*s[:4])
        if len(s[4]) == 1:
            cand = [(s[4][0], (lo, up))]
        else:
            cand = [(poly(s[4], unord(n)), (n, n)) for n in (lo, up)]
        for v, r in cand:
            if v > best:
                best, where = v, [r]
            elif v == best:
                where.append(r)
    ctx.nontrivial(len(where) > 1 or where[0][0] == where[0][1])
    ctx.label('ties', len(where) > 1)
    check(m == best, 'maximum %r of\n%s\nis reported as %r', best, f, m)
    check(model(arg) == norm(where), 'the maximum of\n%s\nis attained on %s, reported: %s', f, show(norm(where)), arg)
    check(read_plf(f) == sf, 'the function was modified')


@st.composite
def approx_case(draw):
    """contiguous functions, with constant tails or finite"""
    n = draw(st.integers(2, 9))
    pts = sorted(draw(st.sets(anypt, min_size=n + 1, max_size=n + 1)))
    vals = draw(st.lists(st.integers(-4, 4).map(lambda k: k / 2.), min_size=n + 1, max_size=n + 1))
    kind = draw(st.sampled_from(['continuous', 'steps', 'mixed']))
    tails = draw(st.sampled_from(['both', 'none', 'left', 'right']))
    if draw(st.booleans()):
        vals = sorted(vals)
    segs = []
    if tails in ('both', 'left'):
        segs.append([-INF, pts[0], EXC, EXC, [vals[0]]])
    for i in range(n):
        a, b = pts[i], pts[i + 1]
        if kind == 'steps' or kind == 'mixed' and draw(st.booleans()):
            c = [vals[i]]
        else:
            m = (vals[i + 1] - vals[i]) / (b - a)
            c = [vals[i] - m * a, m] if m else [vals[i]]
        segs.append([a, b, INC, EXC, c])
    if tails in ('both', 'right'):
        segs.append([pts[-1], INF, INC, EXC, [vals[-1]]])
    return {'f': segs, 'k': draw(st.one_of(st.none(), st.integers(3, 8))), 'e': draw(st.one_of(st.none(), st.sampled_from([0., .01, .1, .5, 1., 5.]))),
            'const': draw(st.booleans())}


def mae(segs, lo, up, g):
    """mean absolute deviation of the polynomial g from the segments over [lo, up], exact for linear pieces"""
    t = 0.
    for a, b, _, _, c in segs:
        a, b = max(a, lo), min(b, up)
        if a < b:
            d0 = (c[0] - g[0])
            d1 = (c + [0.])[1] - (g + [0.])[1]
            va, vb = d0 + d1 * a, d0 + d1 * b
            if va * vb >= 0:
                t += abs(va + vb) / 2 * (b - a)
            else:
                z = a + (b - a) * va / (va - vb)
                t += abs(va) / 2 * (z - a) + abs(vb) / 2 * (b - z)
    return t / (up - lo)


@subcheck('F02', 'approximate', approx_case(), quick=2400, thorough=40000, shards=4, rule='the approximation has fewer segments than the function')
def approximate(ctx, case):
    sf, k, e = case['f'], case['k'], case['e']
    f = mk_plf(sf)
    r = f.approximate(error_max=e, n_segments=k, replace_by=ConstantFunction if case['const'] else LinearFunction)
    ctx.nontrivial(len(r) < len(f))
    check(read_plf(f) == sf, 'the function was modified')
    well_formed(r, 'approximation')
    check(model(r.domain()) == model(f.domain()), 'approximate(%r, %r) changes the domain of\n%s\nto\n%s', e, k, f, r)
    new = read_plf(r)
    olds = {tuple(s[:2]): s for s in sf}
    bounds = {b for s in sf for b in s[:2]}
    for s in new:
        check(s[0] in bounds and s[1] in bounds, 'the approximation invents knots: %r', s)
        o = olds.get(tuple(s[:2]))
        if o is not None and abs(s[0]) != INF and abs(s[1]) != INF or abs(s[0]) == INF or abs(s[1]) == INF:
            check(o is not None and o[4] == s[4], 'segment %r was replaced by %r\n%s\n--\n%s', o, s, f, r)
            continue
        err = mae(sf, s[0], s[1], s[4])
        if e is not None:
            check(err <= e * (1 + 1e-6) + 1e-9, 'segment %r deviates by %r on average, allowed %r\n%s\n--\n%s', s, err, e, f, r)
    if e is None and k is not None and len(sf) > k:
        check(len(r) <= k, '%d segments were requested, got %d\n%s', k, len(r), r)
    if k is not None:
        check(len(r) >= min(k, len(sf)), 'at least %d segments were requested, got %d\n%s', k, len(r), r)


@subcheck('F02', 'interpolation', st.fixed_dictionaries({'xs': st.lists(anypt, min_size=2, max_size=8, unique=True), 'ys': st.lists(coefv, min_size=8, max_size=8)}),
          quick=1500, thorough=30000, shards=2, rule='three or more points')
def interpolation(ctx, case):
    """the function through given points passes through them and is linear between them; its knots are these points"""
    xs = sorted(case['xs'])
    pts = list(zip(xs, case['ys']))
    ctx.nontrivial(len(pts) > 2)
    f = PiecewiseFunction.from_points(pts)
    well_formed(f, 'from_points')
    for (x1, y1), (x2, y2) in zip(pts, pts[1:]):
        tol = 1e-9 * (1 + abs(y1) + abs(y2)) * (1 + abs(x1) / (x2 - x1) + abs(x2) / (x2 - x1))
        check_close(f.eval(x1), y1, 'value at %r', x1, atol=tol)
        for t in (.25, .5, .9):
            x = x1 + t * (x2 - x1)
            check_close(f.eval(x), y1 + (y2 - y1) * (x - x1) / (x2 - x1), 'value at %r', x, atol=tol)
    check(math.isnan(f.eval(xs[0] - 1)) and math.isnan(f.eval(xs[-1] + 1)), 'defined outside of the points')
    k = f.knots()
    check(len(k) == len(xs) and all(close(x, w, 1e-12, 1e-12) for (x, _), w in zip(k, xs)), 'knots %r, expected %r', k, xs)
    for (x, y), (_, w) in zip(k, pts):
        check_close(y, w, 'knot at %r', x, atol=1e-6 * (1 + abs(y)) * (1 + abs(x)))
