"""V03: spellings of queries."""
import copy
import json

import numpy as np
from hypothesis import strategies as st

from vp.core import Skip, check, check_close, fail, subcheck
from vp.jpts import *
from vp.plf import peval, read_plf

ASSUMPTIONS = ['The leaves of the model are read from the model; that they are right is T01.',
               'Single numbers bound with blur are only constrained inside the range of the training data.']
TOL = dict(rtol=1e-7, atol=1e-8)


def spell(v, val, k):
    """spelling number k of the canonical label value (set of labels, interval, real set)"""
    from jpt.base.intervals import ContinuousSet, RealSet
    if not v.numeric:
        s = sorted(val, key=str)
        out = [set(val)]
        if v.integer:
            lo, hi = min(val), max(val)
            if set(range(lo, hi + 1)) == set(val):
                out += [[lo, hi], [np.int64(lo), np.int64(hi)]]
            out.append({np.int64(x) for x in s})
        else:
            out += [list(s), list(reversed(s)) + s[:1]]
        if len(s) == 1:
            out += [s[0], s[0]]
            if v.integer:
                out += [np.int64(s[0]), np.int32(s[0])]
        return copy.deepcopy(out[k % len(out)])
    out = [val]
    if isinstance(val, ContinuousSet):
        lo, up, l, r = val.lower, val.upper, val.left, val.right
        out += [RealSet([val]), ContinuousSet(lo, up, l, r)]
        mid = (lo + up) / 2
        if np.isfinite(mid) and lo < mid < up:
            out += [RealSet([ContinuousSet(lo, mid, l, INC), ContinuousSet(mid, up, EXC, r)]), RealSet([ContinuousSet(mid, up, EXC, r), ContinuousSet(lo, mid, l, INC)])]
        if (l == INC or lo == -INF) and (r == INC or up == INF):
            out += [[lo, up], [np.float64(lo), up]]
            if lo == -INF:
                out += [[None, up], [..., up], [np.NINF, up], [-float('inf'), up]]
            if up == INF:
                out += [[lo, None], [lo, ...], [lo, np.PINF]]
            if lo == up:
                out += [lo, np.float64(lo)] * 2
                if lo == int(lo):
                    out += [int(lo), np.int64(lo)]
    else:
        ivs = list(val.intervals)
        out += [RealSet(list(reversed(ivs))), RealSet([*ivs, ivs[0]])]
    return copy.deepcopy(out[k % len(out)]) if ... not in (out[k % len(out)] if isinstance(out[k % len(out)], list) else []) else out[k % len(out)]


def canon(v, x):
    """canonical form of a bound label or value: sorted tuple"""
    from jpt.base.intervals import ContinuousSet, RealSet
    if isinstance(x, (ContinuousSet, RealSet)):
        s = x.simplify() if isinstance(x, RealSet) else x
        return tuple((float(i.lower), float(i.upper), i.left if i.lower != -INF else EXC, i.right if i.upper != INF else EXC) for i in (s.intervals if isinstance(s, RealSet) else [s]))
    if v.numeric:
        fail('numeric variable bound to %r', x)
    check(isinstance(x, set), 'discrete variable bound to %r', x)
    return tuple(sorted(x, key=str))


SP = st.lists(st.tuples(st.integers(0, 30), st.booleans()).map(list), min_size=4, max_size=4)


@st.composite
def spelled(draw):
    c = draw(with_events(MODELS))
    c['sp'] = [draw(SP), draw(SP)]
    c['pt'] = draw(st.lists(st.booleans(), min_size=2, max_size=2))
    c['how'] = draw(st.integers(0, 5))
    return c


def closed(q, mode):
    """replace intervals by closed ones or single numbers"""
    from jpt.base.intervals import ContinuousSet
    if not mode:
        return q
    out = {}
    for n, x in q.items():
        if isinstance(x, ContinuousSet):
            x = ContinuousSet(x.lower, x.upper, EXC if x.lower == -INF else INC, EXC if x.upper == INF else INC)
        out[n] = x
    return out


@subcheck('V03', 'spellings', spelled(), quick=6000, thorough=80000, shards=4, rule='a query of two or more variables, or one spelled differently from its canonical form')
def spellings(ctx, case):
    """every spelling of a query binds to the same event and has its probability; inputs are untouched"""
    from jpt.variables import LabelAssignment, ValueAssignment
    jpt = mk_jpt(case['m'])
    ref = Ref(jpt)
    q, _ = mk_event(case['q'], case['m'], ref)
    e, _ = mk_event(case['e'], case['m'], ref)
    q, e = closed(q, case['pt'][0]), closed(e, case['pt'][1])
    before = dump(jpt)
    pq = jpt.infer(q)
    pe = jpt.infer(e)
    pqe = jpt.infer(q, e) if pe > 1e-9 else None
    res = []
    for ev, sp in ((q, case['sp'][0]), (e, case['sp'][1])):
        s, byname = {}, {}
        for (n, x), (k, isname) in zip(ev.items(), sp):
            v = ref.vars[n]
            byname[n] = s[n if isname else v] = spell(v, x, k)
        ctx.nontrivial(len(s) > 1 or any(k for k, _ in sp))
        keep = dict(s)
        vals = [copy.deepcopy(x) if not (isinstance(x, list) and ... in x) else list(x) for x in s.values()]
        b = jpt.bind(s)
        check(type(b) is LabelAssignment, 'bind returns %s', type(b).__name__)
        exp = jpt.bind(ev)
        forms = {'dict': b, 'kwargs': jpt.bind(**byname), 'rebound': jpt.bind(dict(b.items())), 'with None': jpt.bind({**{v: None for v in jpt.variables if v.name not in ev}, **s}),
                 'canonical': exp, 'labels': jpt.bind(s, space='labels')}
        for f, a in forms.items():
            check({v.name for v in a} == set(ev), '%s of %r: variables %r', f, s, a)
            for v in a:
                check(v is ref.vars[v.name], 'variable object of %s', v)
                check(canon(v, a[v]) == canon(v, ev[v.name]) or same_points(v, a[v], ev[v.name]), '%s: %r is bound to %r, expected %r', f, byname, a, ev)
        # value space
        va = b.value_assignment()
        vb = jpt.bind({v: x for v, x in va.items()}, space='values')
        check(type(vb) is ValueAssignment, 'space=values returns %s', type(vb).__name__)
        for v in va:
            check(canon(v, va[v]) == canon(v, vb[v]) or same_points(v, va[v], vb[v]), 'value space: %r, expected %r', vb, va)
        check(list(s) == list(keep) and all(type(x) is type(y) and x == y for x, y in zip(s.values(), vals)), 'the query has been modified: %r, was %r', s, vals)
        res.append((s, forms, vb))
    (s, fs, sv), (t, ft, tv) = res
    for a, b in ((s, t), (fs['dict'], ft['kwargs']), (s, ft['dict']), (fs['with None'], t), (sv, tv)):
        check_close(jpt.infer(a), pq, 'P(%r)', a, **TOL)
        if pqe is not None:
            check_close(jpt.infer(a, b), pqe, 'P(%r | %r)', a, b, rtol=1e-7, atol=max(1e-9, 1e-10 / pe))
    if pe > 1e-9 and t:
        # other tasks take the same spellings
        how = case['how'] % 4
        if how == 0:
            x, y = jpt.posterior(evidence=t), jpt.posterior(evidence=e)
            check({v.name: str(d.to_json()) for v, d in x.items()} == {v.name: str(d.to_json()) for v, d in y.items()} or all(close_dist(v, x[v], y[v]) for v in x), 'posterior given %r and %r', t, e)
        elif how == 1:
            x, y = jpt.conditional_jpt(t), jpt.conditional_jpt(e)
            check([l for l in x.leaves] == [l for l in y.leaves], 'leaves of the conditional trees')
            for i in x.leaves:
                check_close(x.leaves[i].prior, y.leaves[i].prior, 'prior of leaf %d given %r', i, t, rtol=1e-6, atol=1e-9)
        elif how == 2:
            x, y = jpt.expectation(evidence=t), jpt.expectation(evidence=e)
            for v in x:
                if v.numeric or v.integer:
                    check_close(x[v], y[v], 'expectation of %s given %r', v.name, t, rtol=1e-6, atol=1e-7)
        else:
            x, y = [l.idx for l in jpt.apply(t)], [l.idx for l in jpt.apply(e)]
            check(x == y, 'leaves of %r: %r, expected %r', t, x, y)
    check(dump(jpt) == before, 'the model has been modified')


def close_dist(v, a, b):
    if not v.numeric:
        return np.allclose(a.probabilities, b.probabilities, rtol=1e-6, atol=1e-9)
    pa, pb = read_plf(a.cdf), read_plf(b.cdf)
    xs = [(lo + up) / 2 for lo, up, *_ in pa + pb if np.isfinite(lo + up)]
    return all(abs(peval(pa, x) - peval(pb, x)) < 1e-6 for x in xs)


def same_points(v, a, b):
    """equal up to rounding of the split points"""
    x, y = canon(v, a), canon(v, b)
    if not v.numeric or len(x) != len(y):
        return False
    return all(i[2:] == j[2:] and np.allclose(i[:2], j[:2], rtol=1e-12, atol=1e-12) for i, j in zip(x, y))


@subcheck('V03', 'rejections', st.fixed_dictionaries({'m': MODELS, 'k': st.integers(0, 40), 'v': st.integers(0, 3), 'task': st.integers(0, 3)}), quick=3000, thorough=30000, shards=2, rule='the model has variables of two kinds')
def rejections(ctx, case):
    """unknown variables, labels outside the domain and ill-typed values are refused by every task"""
    from jpt.base.errors import Unsatisfiability
    from jpt.variables import NumericVariable
    jpt = mk_jpt(case['m'])
    before = dump(jpt)
    vs = list(jpt.variables)
    ctx.nontrivial(len({v['k'] for v in case['m']['vars']}) > 1)
    v = vs[case['v'] % len(vs)]
    ok = v.numeric and 1. or v.domain.value2label(0)
    bad = [{'nope': 1.}, {'nope': 'x'}, {v.name + 'x': ok}, {v.name: ok, 'nope': {1}}]
    if v.numeric:
        bad += [{v.name: 'x'}, {v.name: {1., 2.}}, {v: (0., 1.)}, {v: [2., 1.]}, {v: [1.]}, {v: [1., 2., 3.]}, {v: {}}]
    elif v.symbolic:
        lab = v.domain.value2label(0)
        bad += [{v.name: 'not a label'}, {v: {'not a label'}}, {v: {lab, 'not a label'}}, {v: (lab,)}, {v: (lab, lab)}, {v.name: [lab, 'not a label']}, {v: 99}, {v: 1.5}]
    else:
        lo, hi = v.domain.lmin, v.domain.lmax
        bad += [{v.name: lo - 1}, {v: hi + 1}, {v: {lo, hi + 1}}, {v: [lo - 1, hi]}, {v: (lo, hi)}, {v: [lo]}, {v: 'x'}, {v: lo + .5}]
    q = bad[case['k'] % len(bad)]
    tasks = [lambda: jpt.infer(q), lambda: jpt.infer({}, q), lambda: jpt.posterior(evidence=q), lambda: jpt.conditional_jpt(q), lambda: jpt.expectation(evidence=q), lambda: jpt.mpe(q),
             lambda: jpt.bind(q).value_assignment(), lambda: jpt.bind(**{getattr(n, 'name', n): x for n, x in q.items()}).value_assignment()]
    for t, f in enumerate(tasks):
        try:
            r = f()
        except Unsatisfiability:
            fail('task %d: %r is reported as unsatisfiable', t, q)
        except Exception:
            continue
        fail('task %d accepts %r: %r', t, q, r)
    for f in (lambda: jpt.bind('x'), lambda: jpt.bind({}, {}), lambda: jpt.bind({}, foo=1), lambda: jpt.bind({}, space='nope'), lambda: jpt.bind([('a', 1)])):
        try:
            r = f()
        except ValueError:
            continue
        fail('ill-formed call of bind is accepted: %r', r)
    check(len(jpt.bind(None)) == 0 and len(jpt.bind({})) == 0 and len(jpt.bind()) == 0, 'empty query')
    check(dump(jpt) == before, 'the model has been modified')


@subcheck('V03', 'blur', st.fixed_dictionaries({'x': st.lists(st.integers(-20, 20).map(lambda k: k / 2), min_size=1, max_size=12), 'b': st.sampled_from([.01, .1, .2, .5]),
                                                'u': st.lists(st.integers(0, 20), min_size=1, max_size=4), 'p': st.sampled_from([None, .1]), 's': st.sampled_from([1., 100.])}),
          quick=3000, thorough=40000, shards=1, rule='three or more different data points')
def blur(ctx, case):
    """single numbers of a blurred variable denote the interval around them that holds the blur's share of the prior mass; scaled and plain variables alike"""
    from jpt.base.intervals import ContinuousSet
    from jpt.distributions.univariate import Numeric, NumericType
    from jpt.trees import JPT
    from jpt.variables import NumericVariable
    xs = [x * case['s'] for x in case['x']]
    lo, hi = min(xs), max(xs)
    ctx.nontrivial(len(set(xs)) > 2)
    ms = []
    for dom in (Numeric, NumericType('T', np.array(xs + [hi + case['s'] * 3]))):
        v = NumericVariable('x', dom, blur=case['b'], precision=case['p'])
        j = JPT([v], min_samples_leaf=1)
        j.learn(rows=[[x] for x in xs])
        ms.append((v, j))
    segs = {v: read_plf(j.priors['x'].cdf) for v, j in ms}
    knots = [[v.domain.value2label(s[0]) for s in segs[v][1:]] for v, _ in ms]
    alike = len(knots[0]) == len(knots[1]) and np.allclose(*knots)
    for u in case['u']:
        x = lo + (hi - lo) * u / 20
        out = []
        for v, j in ms:
            b = j.bind({'x': x})['x']
            check(isinstance(b, ContinuousSet), '%r bound to %r', x, b)
            val = j.bind({'x': v.domain.label2value(x)}, space='values')['x']
            val = v.domain.value2label(val)
            tol = 1e-7 * (1 + abs(hi) + abs(lo))
            check(b.lower - tol <= x <= b.upper + tol, '%r bound to %s which does not contain it', x, b)
            check(abs(b.lower - val.lower) < tol and min(abs(b.upper - val.upper), abs(min(b.upper, hi) - min(val.upper, hi))) < tol, '%r bound to %s, in value space %s', x, b, val)
            one = j.bind({'x': x}, allow_singular_values=True)['x']
            check(one == x, 'singular value %r bound to %r', x, one)
            fx, fl, fu = (peval(segs[v], v.domain.label2value(t)) for t in (x, b.lower, b.upper))
            if hi > lo:
                half = case['b'] / 2
                f0 = peval(segs[v], segs[v][0][1])
                check_close(fx - fl, min(half, fx - f0) if b.lower >= lo else fx - fl, 'prior mass of [%r, %r]', b.lower, x, rtol=0, atol=1e-6)
                check_close(fu - fx, min(half, 1 - fx), 'prior mass of [%r, %r]', x, b.upper, rtol=0, atol=1e-6)
            out.append((max(b.lower, lo), min(b.upper, hi)))
        check(not alike or all(abs(p - q) < tol for p, q in zip(*out)), '%r bound to %r, scaled %r', x, *out)


@subcheck('V03', 'reverse', st.tuples(with_events(MODELS, names=('q',), max_n=4), st.sampled_from([0., .01, .05, .3, .9, 1.])).map(list), quick=3000, thorough=40000, shards=1,
          rule='some leaves match and some do not')
def reverse(ctx, case):
    """reverse: the leaves giving every condition at least the confidence, best first"""
    case, conf = case
    jpt = mk_jpt(case['m'])
    ref = Ref(jpt)
    q, mq = mk_event(case['q'], case['m'], ref)
    got = jpt.reverse(q, confidence=conf)
    if not q:
        check(got == [], 'reverse of an empty query: %r', got)
        return
    exp = {l.idx: {n: ref.uni(l.d[n], mq[n]) for n in mq} for l in ref.leaves}
    idx = [l.idx for _, l in got]
    check(len(set(idx)) == len(idx) and all(jpt.leaves[l.idx] is l for _, l in got), 'leaves %r', idx)
    for i, ps in exp.items():
        if any(abs(p - conf) < 1e-9 for p in ps.values()) and conf:
            continue
        check((i in idx) is all(p >= conf for p in ps.values()), 'leaf %d with probabilities %r, confidence %r', i, ps, conf)
    ctx.nontrivial(0 < len(idx) < len(exp))
    for c, l in got:
        for v in jpt.variables:
            check_close(c[v], exp[l.idx].get(v.name, 1.), 'probability of %s in leaf %d', v.name, l.idx, **TOL)
    sums = [sum(c.values()) for c, _ in got]
    check(all(a >= b - 1e-9 for a, b in zip(sums, sums[1:])), 'order %r', sums)
    check([l.idx for _, l in jpt.reverse({**q, 'nope': 1}, confidence=conf)] == idx, 'unknown variables')
    check(jpt.reverse({'nope': 1}) == [], 'only unknown variables')
