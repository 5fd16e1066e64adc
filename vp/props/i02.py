"""I02: posteriors and conditional models agree with inference."""
import numpy as np
from hypothesis import strategies as st

from vp.core import Skip, check, check_close, close, fail, subcheck
from vp.jpts import *

ASSUMPTIONS = ['Evidence consists of sets of positive width for numeric variables; its probability is at least 1e-6.',
               'The leaves of the model (priors and univariate distributions) are read from the model; that they are right is T01.']


def p_dist(d, ev, v):
    """probability of an event in value space under one univariate distribution"""
    if isnum(v):
        return Ref.uni(read_plf(d.cdf), ev)
    return Ref.uni([float(x) for x in d.probabilities], ev)


def spec_of(case, name):
    return next(v for i, v in enumerate(case['m']['vars']) if vname(i, v) == name)


def forms(jpt, e):
    yield 'dict', e
    yield 'labels', jpt.bind(e)
    yield 'values', jpt.bind(e).value_assignment()


def expected_value(ref, n, v, me):
    """E[n | e] of numeric and integer variables, in value space for numeric ones"""
    num = den = 0.
    for l in ref.leaves:
        w = l.prior * ref.leaf_p(l, me)
        if w <= 1e-12:
            continue
        num += w * cond_mean(l.d[n], me.get(n), v)
        den += w
    return num / den


def cond_mean(d, ev, v):
    if not isnum(v):
        idx = sorted(ev) if ev is not None else range(len(d))
        p = np.array([d[i] for i in idx])
        return float(sum(p * np.array([labels_of(v)[i] for i in idx])) / p.sum())
    ivs = ev if ev is not None else [(-INF, INF, EXC, EXC)]
    s = m = 0.
    js = dict(jumps(d))
    for a, b, l, r in ivs:
        for seg in d:
            lo, up = max(a, seg[0]), min(b, seg[1])
            if lo < up and len(seg[4]) > 1:
                dens = seg[4][1]
                s += dens * (up * up - lo * lo) / 2
                m += dens * (up - lo)
        for x, h in js.items():
            if (a < x or a == x and l == INC) and (x < b or x == b and r == INC):
                s += x * h
                m += h
    return s / m


@subcheck('I02', 'posterior', with_events(MODELS, max_n=2), quick=8000, thorough=80000, shards=4, rule='two or more leaves of positive weight and uncertain evidence')
def posterior(ctx, case):
    """P_posterior(A) = P(A and e) / P(e) for every single variable"""
    jpt = mk_jpt(case['m'])
    ref = Ref(jpt)
    q, mq = mk_event(case['q'], case['m'], ref)
    e, me = mk_event(case['e'], case['m'], ref)
    pe = ref.p(me)
    if pe < 1e-6:
        raise Skip()
    ctx.nontrivial(1e-6 < pe < 1 - 1e-9 and sum(w > 1e-9 for w in ref.weights(me)) > 1)
    tol = dict(rtol=1e-6, atol=1e-7)
    for f, ev in forms(jpt, e):
        post = jpt.posterior(None, ev)
        check({v.name for v in post} == set(ref.vars), 'posterior of all variables: %s', list(post))
        for n, v in [(vname(i, v), v) for i, v in enumerate(case['m']['vars'])]:
            d = post[n]
            check_close(p_dist(d, [(-INF, INF, EXC, EXC)] if isnum(v) else set(range(nsym(v))), v), 1, 'total probability of the posterior of %s given %s', n, e, **tol)
            evs = [mq[n]] if n in mq else []
            evs += [me[n]] if n in me else []
            if not isnum(v):
                evs += [{k} for k in range(nsym(v))]
            else:
                g = ref.grid(n)
                evs += [[(-INF, x, EXC, INC)] for x in g] + [[((a + b) / 2, INF, EXC, EXC)] for a, b in zip(g, g[1:])]
            for A in evs:
                exp = ref.p(ev_inter({n: A}, me)) / pe
                check_close(p_dist(d, A, v), exp, 'posterior P(%s in %s | %s), evidence as %s', n, A, e, f, **tol)
    for n in mq:
        one = jpt.posterior([n], e)
        check([v.name for v in one] == [n], 'posterior of %s has %s', n, list(one))
        check_close(p_dist(one[n], mq[n], spec_of(case, n)), ref.p(ev_inter({n: mq[n]}, me)) / pe, 'posterior of %s alone, given %s', n, e, **tol)


@subcheck('I02', 'conditional', with_events(MODELS, names=('q', 'e', 'f'), max_n=2), quick=8000, thorough=80000, shards=4, rule='query uncertain given the evidence, evidence uncertain')
def conditional(ctx, case):
    """the model conditioned on e answers as the model does with e added to its evidence"""
    jpt = mk_jpt(case['m'])
    ref = Ref(jpt)
    q, mq = mk_event(case['q'], case['m'], ref)
    e, me = mk_event(case['e'], case['m'], ref)
    f, mf = mk_event(case['f'], case['m'], ref)
    pe = ref.p(me)
    if pe < 1e-6:
        raise Skip()
    for form, ev in forms(jpt, e):
        cj = jpt.conditional_jpt(ev)
        check(cj is not jpt, 'conditional_jpt returns the model itself')
        check_close(sum(l.prior for l in cj.leaves.values()), 1, 'sum of the priors given %s', e, rtol=0, atol=1e-9)
        check(all(l.prior > 0 for l in cj.leaves.values()), 'prior of a leaf is not positive')
    cref = Ref(cj)
    pq = ref.p(ev_inter(mq, me)) / pe
    ctx.nontrivial(1e-6 < pe < 1 - 1e-9 and 1e-9 < pq < 1 - 1e-9)
    what = 'P(%s | %s)' % (q, e)
    tol = dict(rtol=1e-6, atol=1e-7)
    check_close(cref.p(mq), pq, 'leaves of the conditional model: %s', what, **tol)
    check_close(cj.infer(q), pq, 'conditional model: %s', what, **tol)
    mef = ev_inter(me, mf)
    pf = ref.p(mef) / pe
    if any(not x for x in mef.values()) or pf < 1e-5:
        return
    pqf = ref.p(ev_inter(mq, mef)) / pe / pf
    what = 'P(%s | %s, %s)' % (q, e, f)
    tol = dict(rtol=1e-5, atol=1e-6)
    check_close(cj.infer(q, f), pqf, 'conditional model with evidence: %s', what, **tol)
    ccj = cj.conditional_jpt(cj.bind(f))
    check_close(ccj.infer(q), pqf, 'conditioning twice: %s', what, **tol)
    post = cj.posterior(None, f)
    ex = cj.expectation(list(cj.varnames), f)
    for n, v in [(vname(i, v), v) for i, v in enumerate(case['m']['vars'])]:
        if n in mq:
            check_close(p_dist(post[n], mq[n], v), ref.p(ev_inter({n: mq[n]}, mef)) / pe / pf, 'posterior of the conditional model: %s in %s given %s, %s', n, mq[n], e, f, **tol)
        if v['k'] in ('num', 'scaled', 'int'):
            x = expected_value(ref, n, v, mef)
            if isnum(v):
                x = ref.vars[n].domain.value2label(x)
                rng = ref.vars[n].domain.value2label(ref.grid(n)[-1]) - ref.vars[n].domain.value2label(ref.grid(n)[0])
            else:
                rng = 1
            check_close(ex[n], x, 'expectation of the conditional model: %s given %s, %s', n, e, f, rtol=1e-5, atol=1e-5 * max(1, rng))
    if not e:
        check(dump(cj) == dump(jpt), 'conditioning on nothing changes the model')


@subcheck('I02', 'points', st.fixed_dictionaries({'m': jptspec(min_vars=2, min_rows=6, kinds=('num', 'num', 'int', 'sym', 'bool')), 'u': st.integers(0, 200), 'e': st.integers(0, 9)}),
          quick=3000, thorough=30000, shards=2, rule='two or more leaves with density at the value')
def points(ctx, case):
    """conditioning on the value of a numeric variable weights the leaves by their densities"""
    jpt = mk_jpt(case['m'])
    ref = Ref(jpt)
    nums = [(i, v) for i, v in enumerate(case['m']['vars']) if isnum(v)]
    if not nums:
        raise Skip()
    i, v = nums[case['e'] % len(nums)]
    n = vname(i, v)
    g = ref.grid(n)
    k = case['u'] % max(1, len(g) - 1)
    if len(g) < 2 or g[k + 1] - g[k] < 1e-3:
        raise Skip()
    x = g[k] + (g[k + 1] - g[k]) * .37
    w = []
    for l in ref.leaves:
        seg = next(s for s in l.d[n] if s[0] <= x < s[1])
        w.append(l.prior * (seg[4][1] if len(seg[4]) > 1 else 0.))
    if sum(w) < 1e-9:
        raise Skip()
    ctx.nontrivial(sum(a > 0 for a in w) > 1)
    rep = ([x, x], x)[case['e'] % 2]
    post = jpt.posterior(None, {n: rep})
    cj = jpt.conditional_jpt(jpt.bind({n: rep}))
    cref = Ref(cj)
    for j, u in enumerate(case['m']['vars']):
        m = vname(j, u)
        if m == n:
            check_close(p_dist(post[m], [(x, x, INC, INC)], u), 1, 'posterior of %s given %s = %r', m, n, x)
            check_close(cref.p({m: [(x, x, INC, INC)]}), 1, 'conditional model given %s = %r', n, x)
            continue
        for A in ([{a} for a in range(nsym(u))] if not isnum(u) else [[(-INF, b, EXC, INC)] for b in ref.grid(m)]):
            p = sum(a * ref.uni(l.d[m], A) for a, l in zip(w, ref.leaves)) / sum(w)
            check_close(p_dist(post[m], A, u), p, 'posterior P(%s in %s | %s = %r)', m, A, n, x, rtol=1e-6, atol=1e-8)
            check_close(cref.p({m: A}), p, 'conditional model P(%s in %s | %s = %r)', m, A, n, x, rtol=1e-6, atol=1e-8)
