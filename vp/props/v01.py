"""V01: label space and value space."""
import json

import numpy as np
from hypothesis import strategies as st

from vp.core import check, check_close, close, fail, subcheck
from vp.sets import EXC, INC, INF

ASSUMPTIONS = ['Scaled numeric variables compute in floating point: translated numbers agree within 1e-9 of the data scale.',
               'The order of a symbolic domain is that of the list of labels it was declared with.']

DISC = st.one_of(
    st.fixed_dictionaries({'k': st.just('int'), 'lo': st.one_of(st.integers(-10, 10), st.integers(-10 ** 12, 10 ** 12)), 'n': st.integers(1, 12)}),
    st.fixed_dictionaries({'k': st.just('sym'), 'labels': st.one_of(st.lists(st.text('abAB01 _', max_size=4), min_size=1, max_size=7, unique=True),
                                                                   st.lists(st.integers(-9, 9), min_size=1, max_size=7, unique=True),
                                                                   st.lists(st.sampled_from([.5, -1.5, 2.25, 1e9]), min_size=1, unique=True))}),
    st.just({'k': 'bool'}))


def mk_disc(c):
    from jpt.distributions.univariate import Bool, IntegerType, SymbolicType
    from jpt.variables import IntegerVariable, SymbolicVariable
    if c['k'] == 'int':
        t = IntegerType('I', c['lo'], c['lo'] + c['n'] - 1)
        return t, list(range(c['lo'], c['lo'] + c['n'])), IntegerVariable('i', t)
    if c['k'] == 'bool':
        return Bool, [False, True], SymbolicVariable('b', Bool)
    t = SymbolicType('S', list(c['labels']))
    return t, list(c['labels']), SymbolicVariable('s', t)


def raises(f, *errs):
    try:
        r = f()
    except errs:
        return
    fail('accepted: %r', r)


def same(a, b, what, *args):
    check(type(a) is type(b) and a == b, what + ': %r, expected %r', *args, a, b)


@subcheck('V01', 'discrete', st.fixed_dictionaries({'d': DISC, 'i': st.lists(st.integers(0, 11), max_size=6), 'out': st.integers(0, 20)}), quick=8000, thorough=100000, shards=2, rule='two or more labels and two or more of them chosen')
def discrete(ctx, case):
    """symbolic, integer and Boolean domains: bijection, containers, order, rejection"""
    t, labels, var = mk_disc(case['d'])
    n = len(labels)
    check(t.n_values == n, 'n_values = %r', t.n_values)
    idx = [i % n for i in case['i']]
    sel = [labels[i] for i in idx]
    ctx.nontrivial(n > 1 and len(set(idx)) > 1)
    for i, l in enumerate(labels):
        same(t.label2value(l), i, 'label2value(%r)', l)
        same(t.value2label(i), l, 'value2label(%r)', i)
        check(t.values[l] == i and t.labels[i] == l, 'mapping of %r', l)
        same(t.value2label(t.label2value(l)), l, 'round trip of %r', l)
        check(t.label2value(np.int64(l)) == i if case['d']['k'] == 'int' else True, 'numpy integers')
        check(t.value2label(np.int64(i)) == l, 'numpy integers')
    for typ in (list, set, tuple):
        same(t.label2value(typ(sel)), typ(idx), 'label2value')
        same(t.value2label(typ(idx)), typ(sel), 'value2label')
        same(t.value2label(t.label2value(typ(sel))), typ(sel), 'round trip')
    keep = set(sel)
    t.label2value(keep)
    check(keep == set(sel), 'the argument has been modified')
    if case['d']['k'] == 'int':
        for dt in (np.int64, object):
            a = np.array(sel, dtype=dt)
            v = t.label2value(a)
            check(isinstance(v, np.ndarray) and v.tolist() == idx, 'array of labels %r: %r', sel, v)
            check(t.value2label(np.array(idx, dtype=dt)).tolist() == sel, 'array of values %r', idx)
        s = sorted(sel)
        check(t.label2value(s) == sorted(idx), 'order of integer labels')
    # outside
    o = case['out']
    bad = {'int': lambda: [labels[0] - 1 - o, labels[-1] + 1 + o, labels[0] + .5], 'bool': lambda: ['True', 2 + o, -1, .5], 'sym': lambda: ['not a label', 77 + o, -1.25]}[case['d']['k']]()
    for b in bad:
        for x in (b, {b}, [labels[0], b], (b, labels[-1])):
            raises(lambda: t.label2value(x), ValueError)
            if case['d']['k'] != 'int':
                from jpt.variables import LabelAssignment
                if not isinstance(x, (list, tuple)):
                    raises(lambda: LabelAssignment([(var, x)]), TypeError, ValueError)
            else:
                from jpt.variables import LabelAssignment
                raises(lambda: LabelAssignment([(var, x)]).value_assignment(), TypeError, ValueError)
    for b in (-1 - o, n + o):
        for x in (b, {b}, [0, b], (b, n - 1)):
            raises(lambda: t.value2label(x), ValueError)
    # the variable's view
    d = var.distribution().set(np.array([(i + 1.) for i in range(n)]) / (n * (n + 1) / 2))
    for i, l in enumerate(labels):
        check_close(d.p(l), d._p(i), 'P(%r)', l)
        check_close(d.p(l), (i + 1) / (n * (n + 1) / 2), 'P(%r)', l)
    if sel:
        check_close(d.p(set(sel)), sum(i + 1 for i in set(idx)) / (n * (n + 1) / 2), 'P(%r)', set(sel))
        check_close(d._p(set(idx)), d.p(set(sel)), 'P(%r)', set(sel))


SCALE = st.sampled_from([1., 1., .01, 1e3, 1e6])
DATA = st.lists(st.one_of(st.integers(-20, 20).map(float), st.floats(-10, 10).map(lambda x: round(x, 4) + 0.)), min_size=1, max_size=8)
RS = st.lists(st.tuples(st.integers(-20, 20), st.integers(0, 8), st.integers(1, 2), st.integers(1, 2), st.integers(0, 9)).map(list), min_size=1, max_size=4)


def mk_num(c):
    from jpt.distributions.univariate import Numeric, NumericType
    from jpt.variables import NumericVariable
    if c['plain']:
        return Numeric, 0., 1., NumericVariable('n')
    xs = np.array(c['x']) * c['s'] + c['sh'] * c['s']
    t = NumericType('N', xs)
    sd = float(np.std(xs))
    return t, float(np.mean(xs)), sd if sd else 1., NumericVariable('n', t)


def intervals(rs, m, sd):
    """disjoint intervals in label space"""
    ivs = []
    for lo, w, l, r, inf in rs:
        a, b = m + lo * sd / 4, m + (lo + w) * sd / 4
        if inf == 0:
            a, l = -INF, EXC
        elif inf == 1:
            b, r = INF, EXC
        if a == b:
            l = r = INC
        ivs.append((a, b, l, r))
    out = []
    for iv in sorted(ivs):
        if not out or iv[0] > out[-1][1]:
            out.append(iv)
    return out


@subcheck('V01', 'numeric', st.fixed_dictionaries({'x': DATA, 's': SCALE, 'sh': st.sampled_from([0., 0., 50., -1000.]), 'plain': st.sampled_from([False, False, False, True]),
                                                   'q': st.lists(st.integers(-40, 40), min_size=2, max_size=6), 'rs': RS}), quick=8000, thorough=100000, shards=2,
          rule='scaled variable, more than one query point')
def numeric(ctx, case):
    """numeric domains: linear bijection, order, intervals and unions of intervals with their ends"""
    from jpt.base.intervals import ContinuousSet, RealSet
    from jpt.variables import LabelAssignment, ValueAssignment
    t, m, sd, var = mk_num(case)
    if not case['plain'] and sd < 1e-9 * abs(m) and len(set(case['x'])) == 1:
        sd = float(t.scaler.scale)          # the standard deviation of a constant is rounding noise
    at = 1e-9 * max(1, abs(m) / sd)
    ctx.nontrivial(not case['plain'] and len(set(case['q'])) > 1)
    pts = sorted({m + k * sd / 4 for k in case['q']})
    vs = [t.label2value(x) for x in pts]
    for x, v in zip(pts, vs):
        check_close(v, (x - m) / sd, 'label2value(%r)', x, rtol=1e-7, atol=at)
        check_close(t.value2label(v), x, 'round trip of %r', x, rtol=1e-9, atol=1e-9 * sd)
        check_close(t.label2value(t.value2label(v)), v, 'round trip of value %r', v, rtol=1e-9, atol=at)
        check_close(var.domain.values[x], v, 'values[%r]', x, rtol=0, atol=0)
        check_close(t.label2value(np.float64(x)), v, 'numpy number', rtol=0, atol=0)
    check(all(a < b for a, b in zip(vs, vs[1:])), 'order not preserved: %r -> %r', pts, vs)
    for x in (-INF, INF):
        check(t.label2value(x) == x and t.value2label(x) == x, 'infinity')
    ivs = intervals(case['rs'], m, sd)
    objs = [ContinuousSet(*iv) for iv in ivs]
    for o in objs + [RealSet(objs)] + [ContinuousSet(*ivs[0])]:
        keep = o.copy()
        v = t.label2value(o)
        check(type(v) is type(o), 'type of %r is %s', o, type(v).__name__)
        back = t.value2label(v)
        parts = lambda s: sorted([(c.lower, c.upper, c.left, c.right) for c in (s.intervals if isinstance(s, RealSet) else [s])])
        po, pv, pb = parts(o), parts(v), parts(back)
        check(len(po) == len(pv) == len(pb), '%s -> %s -> %s', o, v, back)
        for a, b, c in zip(po, pv, pb):
            check(a[2:] == b[2:] == c[2:], 'ends of %s -> %s -> %s', o, v, back)
            for i in (0, 1):
                check_close(b[i], a[i] if np.isinf(a[i]) else (a[i] - m) / sd, '%s -> %s', o, v, rtol=1e-7, atol=at)
                check_close(c[i], a[i], '%s -> %s -> %s', o, v, back, rtol=1e-9, atol=1e-9 * sd)
        check(o == keep, 'argument modified: %s, was %s', o, keep)
        # membership is preserved
        for x in pts:
            d = min([abs(x - e) for a in po for e in a[:2]] + [INF])
            if d > 1e-6 * sd:
                check((t.label2value(x) in v) == (x in o), '%r in %s, %r in %s', x, o, t.label2value(x), v)
        la = LabelAssignment([(var, o)])
        va = la.value_assignment()
        check(va[var] == v, 'assignment: %s, expected %s', va[var], v)
        check(type(va) is ValueAssignment and type(va.label_assignment()) is LabelAssignment and va.label_assignment()[var] == back, 'assignment back')
    for bad in ('x', None, [0, 1], {1}, (0, 1)):
        raises(lambda: t.label2value(bad), TypeError)
        raises(lambda: t.value2label(bad), TypeError)
        raises(lambda: LabelAssignment([(var, bad)]), TypeError)
        raises(lambda: ValueAssignment([(var, bad)]), TypeError)


ASG = st.lists(st.tuples(st.one_of(DISC, st.fixed_dictionaries({'k': st.just('num'), 'x': DATA, 's': SCALE, 'sh': st.just(0.), 'plain': st.booleans()})),
                         st.integers(0, 2), st.lists(st.integers(0, 11), min_size=1, max_size=4), RS).map(list), min_size=1, max_size=5)


@subcheck('V01', 'assignments', st.fixed_dictionaries({'a': ASG}), quick=4000, thorough=50000, shards=1, rule='two or more variables with different kinds of values')
def assignments(ctx, case):
    """assignments translate entry by entry, both ways, scalars to scalars and sets to sets"""
    from jpt.base.intervals import ContinuousSet, RealSet
    from jpt.variables import IntegerVariable, LabelAssignment, NumericVariable, SymbolicVariable, ValueAssignment
    pairs, exp = [], []
    kinds = set()
    for j, (c, form, idx, rs) in enumerate(case['a']):
        if c['k'] == 'num':
            t, m, sd, _ = mk_num(c)
            v = NumericVariable('v%d' % j, t)
            if form == 0:
                x = m + idx[0] * sd / 4
            else:
                x = RealSet([ContinuousSet(*iv) for iv in intervals(rs, m, sd)])
                if form == 1:
                    x = x.intervals[0]
            pairs.append((v, x))
            exp.append(t.label2value(x))
        else:
            t, labels, _ = mk_disc(c)
            v = (IntegerVariable if c['k'] == 'int' else SymbolicVariable)('v%d' % j, t)
            ii = [i % len(labels) for i in idx]
            if form == 0:
                pairs.append((v, labels[ii[0]]))
                exp.append(ii[0])
            else:
                pairs.append((v, {labels[i] for i in ii}))
                exp.append(set(ii))
        kinds.add((c['k'], form))
    ctx.nontrivial(len(kinds) > 1)
    la = LabelAssignment(pairs)
    va = la.value_assignment()
    check(type(va) is ValueAssignment, 'type %s', type(va).__name__)
    check([v.name for v in va] == [v.name for v, _ in pairs], 'variables %r', list(va))
    for (v, x), e in zip(pairs, exp):
        same(va[v], e, 'value of %r', x)
        check(la[v] == x, 'the label assignment has been modified')
    back = va.label_assignment()
    check(type(back) is LabelAssignment and len(back) == len(la), 'back')
    for v, x in pairs:
        if v.numeric:
            same(back[v], v.domain.value2label(va[v]), 'label of %r', va[v])
            continue
        same(back[v], x, 'label of %r', va[v])
    # all values as sets
    for a in (la, va):
        s = a.scalar2sets()
        check(type(s) is type(a) and len(s) == len(a), 'scalar2sets: %r', s)
        for v in a:
            x = a[v]
            e = (ContinuousSet(x, x) if v.numeric else {x}) if isinstance(x, (int, float, str)) else x
            check(s[v] == e, 'scalar2sets of %r: %r', x, s[v])


@subcheck('V01', 'scaler', st.fixed_dictionaries({'x': st.lists(st.integers(-40, 40).map(lambda k: k / 4), min_size=1, max_size=8), 'q': st.lists(st.integers(-200, 200).map(lambda k: k / 8), min_size=1, max_size=6),
                                                  's': st.sampled_from([1., .01, 1000.])}), quick=2000, thorough=20000, rule='two or more distinct values')
def scaler(ctx, case):
    """arrays are scaled like their elements, in place or as a copy, and back"""
    from jpt.distributions.utils import DataScaler
    x = np.array([v * case['s'] for v in case['x']])
    keep = x.copy()
    d = DataScaler(x)
    check((x == keep).all(), 'fitting modified the data')
    ctx.nontrivial(len(set(case['x'])) > 1)
    z = d.transform(x)
    check((x == keep).all() and z is not x, 'transform modified its argument')
    sd = float(np.std(keep))
    if sd > 1e-9 * case['s']:
        check_close(float(np.mean(z)), 0, 'mean of scaled data', atol=1e-9)
        check_close(float(np.std(z)), 1, 'deviation of scaled data', atol=1e-9)
    else:
        check(np.abs(z).max() <= 1e-6 and np.isfinite(z).all(), 'scaled constant %r', z)
    for v, w in zip(keep, z):
        check_close(float(d.transform(float(v))), float(w), 'scaling of a number', atol=1e-12)
    q = np.array([v * case['s'] for v in case['q']])
    for f, g in ((d.transform, d.inverse_transform), (d.inverse_transform, d.transform)):
        a = q.copy()
        b = f(a)
        check((a == q).all(), 'argument modified')
        c = f(a, make_copy=False)
        check(c is a and np.array_equal(a, b), 'in place: %r, as a copy: %r', a, b)
        back = g(a, make_copy=False)
        check(back is a and np.allclose(a, q, rtol=1e-9, atol=1e-9 * case['s'] * max(1, np.abs(keep).max())), '%r scaled and back: %r', q, a)
    r = DataScaler.from_json(json.loads(json.dumps(d.to_json())))
    check(r == d and np.array_equal(r.transform(q), d.transform(q)), 'restored scaler')
    check(d[INF] == INF and d[-INF] == -INF, 'infinite values')
