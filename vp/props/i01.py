"""I01: inferred probabilities."""
import itertools

import numpy as np
from hypothesis import strategies as st

from vp.core import Skip, check, check_close, close, fail, subcheck
from vp.jpts import *

from jpt.base.errors import Unsatisfiability

ASSUMPTIONS = ['The leaves of the model (priors and univariate distributions) are read from the model; that they are right is T01.',
               'Numeric conditions are unions of disjoint intervals of positive width; single numbers are covered by a separate sub-check.']
MODEL = MODELS
TOL = dict(rtol=1e-7, atol=1e-9)


@subcheck('I01', 'ratio', with_events(MODEL), quick=8000, thorough=80000, shards=4, rule='two or more leaves, query and evidence both neither certain nor impossible')
def ratio(ctx, case):
    """infer(q, e) = P(q and e) / P(e) over the leaves"""
    jpt = mk_jpt(case['m'])
    ref = Ref(jpt)
    q, mq = mk_event(case['q'], case['m'], ref)
    e, me = mk_event(case['e'], case['m'], ref)
    pe, pq = ref.p(me), ref.p(mq)
    pqe = ref.p(ev_inter(mq, me))
    ctx.nontrivial(len(ref.leaves) > 1 and 1e-9 < pe < 1 - 1e-9 and 1e-9 < pq < 1 - 1e-9)
    ctx.label('shared variables', bool(set(mq) & set(me)))
    if pe < 1e-9:
        return
    what = 'P(%s | %s)' % (q, e)
    exp = pqe / pe
    tol = max(1e-9, 1e-10 / pe)
    for f, args in (('kw', dict(query=jpt.bind(q), evidence=jpt.bind(e))), ('dict', dict(query=q, evidence=e)),
                    ('values', dict(query=jpt.bind(q).value_assignment(), evidence=jpt.bind(e).value_assignment())),
                    ('reversed', dict(query=dict(reversed(q.items())), evidence=dict(reversed(e.items()))))):
        p = jpt.infer(**args)
        check_close(p, exp, '%s, %s', what, f, rtol=1e-7, atol=tol)
        check(-1e-9 <= p <= 1 + 1e-9, '%s = %r', what, p)
    check_close(jpt.infer(q), pq, 'P(%s)', q, **TOL)
    # Bayes / chain rule
    p1 = jpt.infer({**{k: v for k, v in q.items()}}, {}) if not e else None
    if pq > 1e-6:
        check_close(jpt.infer(e, q) * pq, p * pe, 'P(e|q) P(q) = P(q|e) P(e)', rtol=1e-6, atol=1e-9)


@subcheck('I01', 'axioms', with_events(MODEL, max_n=2), quick=5000, thorough=40000, shards=3, rule='query that splits the probability mass')
def axioms(ctx, case):
    jpt = mk_jpt(case['m'])
    ref = Ref(jpt)
    q, mq = mk_event(case['q'], case['m'], ref)
    e, me = mk_event(case['e'], case['m'], ref)
    pe = ref.p(me)
    if pe < 1e-6 or not mq:
        return
    tol = dict(rtol=1e-6, atol=1e-8 / pe)
    infer = lambda m: jpt.infer(to_query(m, ref), e)
    p = infer(mq)
    ctx.nontrivial(1e-9 < p < 1 - 1e-9)
    check_close(jpt.infer({}, e), 1, 'P(anything | %s)', e, **tol)
    check_close(jpt.infer(e, e), 1, 'P(e | e), e = %s', e, **tol)
    for n in mq:                                # additivity: the complement on one variable
        v = next(v for i, v in enumerate(case['m']['vars']) if vname(i, v) == n)
        c = ev_compl(mq[n], v)
        rest = {k: x for k, x in mq.items() if k != n}
        pr = infer(rest)
        pc = infer({**rest, n: c}) if c else 0.
        check_close(p + pc, pr, 'P(%s in A) + P(%s not in A), A = %s', n, n, q[n], **tol)
        check(p <= pr + 1e-8 / pe, 'monotonicity')
        # disjoint parts of the condition
        parts = [[iv] for iv in mq[n]] if isinstance(mq[n], list) else [{x} for x in sorted(mq[n])]
        check_close(sum(infer({**rest, n: x}) for x in parts), p, 'parts of %s', q[n], **tol)
    whole = {vname(i, v): ([(-INF, INF, EXC, EXC)] if isnum(v) else set(range(nsym(v)))) for i, v in enumerate(case['m']['vars'])}
    check_close(infer(whole), 1, 'P(all values)', **tol)
    # chain rule P(q) = prod P(q_i | q_1..q_i-1, e)
    prod, given = 1., dict(me)
    for n in mq:
        pg = ref.p(given)
        if pg < 1e-6:
            return
        prod *= jpt.infer(to_query({n: mq[n]}, ref), to_query(given, ref))
        given = ev_inter(given, {n: mq[n]})
        if any(not x for x in given.values()):
            prod = 0.
            break
    check_close(prod, p, 'chain rule', rtol=1e-5, atol=1e-7 / pe)


POINT = st.tuples(st.integers(0, 10), st.integers(0, 50)).map(list)


@subcheck('I01', 'points', st.fixed_dictionaries({'m': jptspec(kinds=('num', 'num', 'sym', 'int'), min_rows=2, max_rows=12), 'p': POINT, 'l': st.integers(1, 2), 'q': st.integers(0, 3)}),
          quick=1500, thorough=20000, shards=1, rule='the value has a point mass in some leaf')
def points(ctx, case):
    """the probability of a single number is its point mass; closed and open intervals ending there differ by it"""
    jpt = mk_jpt(case['m'])
    ref = Ref(jpt)
    nums = [(i, v) for i, v in enumerate(case['m']['vars']) if isnum(v)]
    if not nums:
        raise Skip()
    i, v = nums[case['p'][0] % len(nums)]
    n = vname(i, v)
    g = ref.grid(n)
    x = g[case['p'][1] % len(g)]
    m = ref.p({n: [(x, x, INC, INC)]})
    ctx.nontrivial(m > 0)
    check_close(jpt.infer({n: x}), m, 'P(%s = %r)', n, x, **TOL)
    check_close(jpt.infer({n: [x, x]}), m, 'P(%s in [%r, %r])', n, x, x, **TOL)
    q = lambda a, b, l, r: jpt.infer(to_query({n: [(a, b, l, r)]}, ref))
    lo = q(-INF, x, EXC, EXC)
    check_close(q(-INF, x, EXC, INC) - lo, m, 'mass at %r', x, **TOL)
    check_close(q(x, INF, INC, EXC) - q(x, INF, EXC, EXC), m, 'mass at %r', x, **TOL)
    check_close(lo + q(x, INF, INC, EXC), 1, 'complementary half lines at %r', x, **TOL)
