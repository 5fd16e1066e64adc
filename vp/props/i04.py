"""I04: expectations and moments of a model."""
import numpy as np
from hypothesis import strategies as st

from vp.core import Skip, check, check_close, close, fail, subcheck
from vp.jpts import *
from vp.props.i02 import expected_value, forms

ASSUMPTIONS = ['Evidence consists of sets of positive width for numeric variables; its probability is at least 1e-6 (or zero).',
               'The leaves of the model are read from the model; that they are right is T01.']


def moment_of(d, ev, v, T, k, c):
    """E[(X - c)^k | ev] in label space, and the mass of ev"""
    if not isnum(v):
        idx = sorted(ev) if ev is not None else range(len(d))
        return sum(d[i] * (labels_of(v)[i] - c) ** k for i in idx), sum(d[i] for i in idx)
    ivs = ev if ev is not None else [(-INF, INF, EXC, EXC)]
    s = m = 0.
    lab = T.value2label
    for a, b, l, r in ivs:
        for seg in d:
            lo, up = max(a, seg[0]), min(b, seg[1])
            if lo < up and len(seg[4]) > 1 and seg[4][1]:
                p = seg[4][1] * (up - lo)
                x, y = lab(lo) - c, lab(up) - c
                # density is constant in label space too
                s += p * (y ** (k + 1) - x ** (k + 1)) / (k + 1) / (y - x) if y - x > 1e-9 * max(1, abs(x)) else p * x ** k
                m += p
        for x, h in jumps(d):
            if (a < x or a == x and l == INC) and (x < b or x == b and r == INC):
                s += h * (lab(x) - c) ** k
                m += h
    return s, m


def mixture_moment(ref, n, v, me, k, c):
    s = m = 0.
    for l in ref.leaves:
        w = l.prior
        for o, e in me.items():
            if o != n:
                w *= ref.uni(l.d[o], e)
        if w <= 0:
            continue
        a, b = moment_of(l.d[n], me.get(n), v, ref.vars[n].domain, k, c)
        s += w * a
        m += w * b
    return s / m


def label_range(ref, n, v):
    if not isnum(v):
        return max(1., abs(labels_of(v)[0]), abs(labels_of(v)[-1]))
    T = ref.vars[n].domain
    g = [T.value2label(x) for x in (ref.grid(n)[0], ref.grid(n)[-1])]
    return max(1., abs(g[0]), abs(g[1]))


def named(case):
    return [(vname(i, v), v) for i, v in enumerate(case['m']['vars'])]


@subcheck('I04', 'expectation', with_events(MODELS, names=('e',), max_n=2), quick=8000, thorough=80000, shards=4, rule='two or more leaves of positive weight and uncertain evidence')
def expectation(ctx, case):
    """expectation() is the posterior-weighted mean; symbolic variables give most probable labels"""
    jpt = mk_jpt(case['m'])
    ref = Ref(jpt)
    e, me = mk_event(case['e'], case['m'], ref)
    pe = ref.p(me)
    if pe < 1e-6:
        raise Skip()
    ctx.nontrivial(pe < 1 - 1e-9 and sum(w > 1e-9 for w in ref.weights(me)) > 1)
    for f, ev in forms(jpt, e):
        ex = jpt.expectation([n for n, _ in named(case)], ev)
        post = jpt.posterior(None, ev)
        for n, v in named(case):
            if v['k'] in ('num', 'scaled', 'int'):
                x = mixture_moment(ref, n, v, me, 1, 0.)
                tol = dict(rtol=1e-6, atol=1e-6 * label_range(ref, n, v))
                check_close(ex[n], x, 'expectation of %s given %s (as %s)', n, e, f, **tol)
                check_close(post[n].expectation(), x, 'expectation of the posterior of %s given %s', n, e, **tol)
            else:
                ls = labels_of(v)
                p = [ref.p(ev_inter({n: {i}}, me)) / pe for i in range(len(ls))]
                got = ex[n] if isinstance(ex[n], (set, frozenset)) else {ex[n]}
                check(got, 'no expected label of %s', n)
                for l in got:
                    check(l in ls, 'expected label %r of %s is no label', l, n)
                    check(p[ls.index(l)] >= max(p) - 1e-9, 'expected label %r of %s has probability %s, the largest is %s, given %s', l, n, p[ls.index(l)], max(p), e)
        rest = jpt.expectation(evidence=ev)
        for n, v in named(case):
            if n not in e:
                check(n in rest, 'default expectation lacks %s', n)
                check(rest[n] == ex[n] or close(rest[n], ex[n], 1e-9, 1e-9) if v['k'] in ('num', 'scaled', 'int') else rest[n] == ex[n], 'expectation of %s with and without explicit variables', n)
    one = jpt.expectation([named(case)[0][0]], e)
    check([v.name for v in one] == [named(case)[0][0]], 'expectation of one variable returns %s', list(one))


MOM = st.fixed_dictionaries({'b': with_events(MODELS, names=('e',), max_n=2), 'k': st.integers(1, 4), 'c': st.lists(st.one_of(st.none(), st.floats(-.2, 1.2)), min_size=4, max_size=4)})


@subcheck('I04', 'moments', MOM, quick=6000, thorough=60000, shards=4, rule='order two or more, some center given, two or more leaves')
def moments(ctx, case):
    """moment() around given centers"""
    from jpt.variables import LabelAssignment
    k, b = case['k'], case['b']
    jpt = mk_jpt(b['m'])
    ref = Ref(jpt)
    e, me = mk_event(b['e'], b['m'], ref)
    if ref.p(me) < 1e-6:
        raise Skip()
    center = LabelAssignment(variables=jpt.variables)
    cs = {}
    for (n, v), u in zip(named(b), case['c']):
        cs[n] = 0.
        if u is None or v['k'] not in ('num', 'scaled', 'int'):
            continue
        if v['k'] == 'int':
            cs[n] = labels_of(v)[int(max(0, min(.999, u)) * nsym(v))]
        else:
            T = ref.vars[n].domain
            lo, hi = T.value2label(ref.grid(n)[0]), T.value2label(ref.grid(n)[-1])
            cs[n] = lo + u * (hi - lo)
        center[jpt.varnames[n]] = cs[n]
    ctx.nontrivial(k > 1 and len(center) > 0 and len(ref.leaves) > 1)
    ev = jpt.bind(e)
    got = [('labels', jpt.moment(k, center, ev))]
    if len(center):
        got.append(('values', jpt.moment(k, center.value_assignment(), ev.value_assignment())))
    for form, ms in got:
        for n, v in named(b):
            if v['k'] not in ('num', 'scaled', 'int'):
                continue
            x = mixture_moment(ref, n, v, me, k, cs[n])
            r = label_range(ref, n, v) + abs(cs[n])
            check_close(ms[n], x, 'moment of order %s of %s around %s given %s (center as %s)', k, n, cs[n], e, form, rtol=1e-6, atol=1e-6 * r ** k)


@subcheck('I04', 'impossible', with_events(MODELS, names=('e',), max_n=3), quick=4000, thorough=40000, shards=2, rule='evidence of probability zero')
def impossible(ctx, case):
    """evidence of probability zero is refused"""
    jpt = mk_jpt(case['m'])
    ref = Ref(jpt)
    e, me = mk_event(case['e'], case['m'], ref)
    pe = ref.p(me)
    if 0 < pe < 1e-6:
        raise Skip()
    ctx.nontrivial(pe == 0)
    ev = jpt.bind(e)
    for what, fn in (('expectation', lambda **k: jpt.expectation(None, ev, **k)), ('moment', lambda **k: jpt.moment(1, None, ev, **k))):
        if pe > 0:
            check(fn() is not None and fn(fail_on_unsatisfiability=False) is not None, '%s given %s (probability %s) is empty', what, e, pe)
        else:
            check(fn(fail_on_unsatisfiability=False) is None, '%s given the impossible %s is not None', what, e)
            raises_unsat(fn, '%s given the impossible %s is not refused', what, e)
