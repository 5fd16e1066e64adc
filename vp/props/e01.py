"""E01: impossible evidence is reported uniformly and precisely."""
import math
from collections import defaultdict

import numpy as np
from hypothesis import strategies as st

from vp.core import Skip, check, check_close, close, fail, subcheck
from vp.jpts import *

ASSUMPTIONS = ['Evidence on numeric variables consists of sets of positive width unless single values are mentioned; probabilities below 1e-9 count neither as zero nor as positive.',
               'The leaves of the model are read from the model; that they are right is T01.']


@st.composite
def cells(draw, spec, max_n=3):
    """narrow conditions around cells of training rows, not necessarily of the same row: each possible, jointly often not"""
    n = len(spec['vars'])
    out = []
    for i in draw(st.lists(st.integers(0, n - 1), min_size=min(n, draw(st.sampled_from([1, 2, 2, 3]))), max_size=max_n, unique=True)):
        out.append([i, draw(st.integers(0, len(spec['rows']) - 1)), draw(st.sampled_from([1e-3, 1e-3, .02, .1, .5])), draw(st.sampled_from([0, 0, 0, -1, 1, 3, -20]))])
    return out


@st.composite
def models_cells(draw, n=3):
    m = draw(jptspec(min_vars=2, min_rows=8))
    return dict(m=m, c=draw(cells(m, n)), e=draw(evspec(m, 2)))


def mk_cells(case, ref):
    """-> (query with labels, event in values)"""
    from jpt.base.intervals import ContinuousSet
    m = case['m']
    rows = rows_of(m)
    q, me = {}, {}
    for i, r, w, off in case['c']:
        v = m['vars'][i]
        n = vname(i, v)
        if not isnum(v):
            q[n] = {rows[r][i]}
            me[n] = {ref.vars[n].domain.label2value(rows[r][i])}
            continue
        T = ref.vars[n].domain
        g = ref.grid(n)
        width = (g[-1] - g[0]) or 1.
        x = T.label2value(rows[r][i]) + off * w * width
        a, b = x - w * width, x + w * width
        q[n] = ContinuousSet(T.value2label(a), T.value2label(b), INC, INC)
        me[n] = [(T.label2value(q[n].lower), T.label2value(q[n].upper), INC, INC)]       # what remains after rounding
    return q, me


def total(ref, me):
    """probability of an event; not decided near zero"""
    p = ref.p(me)
    if 0 < p < 1e-9:
        raise Skip()
    for l in ref.leaves:
        if 0 < ref.leaf_p(l, me) < 1e-9:
            raise Skip()
    for n, e in me.items():
        if not isinstance(e, (set, frozenset)):
            for a, b, _, _ in e:
                for x in (a, b):
                    # translating bounds between spaces rounds: point masses on them are not decided
                    if abs(x) != INF and ref.vars[n].domain.__name__.startswith('T') and ref.has_jump_near(n, x, 1e-6):
                        raise Skip()
    return p


def tasks(jpt, ev):
    """name -> (call, is the answer empty)"""
    none = lambda x: x is None  # noqa
    q = {}
    return [('infer', lambda **k: jpt.infer(q, ev, **k), none),
            ('posterior', lambda **k: jpt.posterior(None, ev, **k), none),
            ('posterior with report', lambda **k: jpt.posterior(None, ev, report_inconsistencies=True, **k), none),
            ('expectation', lambda **k: jpt.expectation(None, ev, **k), none),
            ('moment', lambda **k: jpt.moment(1, None, ev if not isinstance(ev, dict) else jpt.bind(ev), **k), none),
            ('mpe', lambda **k: jpt.mpe(ev, **k), none),
            ('kmpe', lambda **k: list(jpt.kmpe(ev, k=2, **k)), lambda x: x == []),
            ('conditional model', lambda **k: jpt.conditional_jpt(ev, **k), none)]


def uniform_case(ctx, m, jpt, ref, e, me, form):
    p = total(ref, me)
    ev = dict(dict=e, bound=jpt.bind(e), values=jpt.bind(e).value_assignment())[form]
    for what, fn, empty in tasks(jpt, ev):
        if p == 0:
            raises_unsat(fn, '%s given %s (probability 0) is not refused', what, e)
            raises_unsat(lambda: fn(fail_on_unsatisfiability=True), '%s given %s (probability 0) is not refused', what, e)
            check(empty(fn(fail_on_unsatisfiability=False)), '%s given %s (probability 0), asked not to fail, is not empty', what, e)
        else:
            from jpt.base.errors import Unsatisfiability
            try:
                check(not empty(fn()), '%s given %s (probability %s) is empty', what, e, p)
                check(not empty(fn(fail_on_unsatisfiability=False)), '%s given %s (probability %s), asked not to fail, is empty', what, e, p)
            except Unsatisfiability as x:
                fail('%s given %s of probability %s is refused: %s', what, e, p, x)
    return p


FORM = st.sampled_from(['dict', 'bound', 'values'])


@subcheck('E01', 'uniform', st.fixed_dictionaries(dict(b=models_cells(), f=FORM, mix=st.booleans())), quick=4000, thorough=50000, shards=4, rule='conditions possible one by one but not together, or evidence of probability below 0.05')
def uniform(ctx, case):
    """every reasoning task refuses impossible evidence and answers possible evidence"""
    b = case['b']
    jpt = mk_jpt(b['m'])
    ref = Ref(jpt)
    if case['mix']:
        e, me = mk_event(b['e'], b['m'], ref)
    else:
        e, me = mk_cells(b, ref)
    p = uniform_case(ctx, b['m'], jpt, ref, e, me, case['f'])
    ctx.nontrivial(p < .05 and all(ref.p({n: x}) > 0 for n, x in me.items()))
    ctx.label('impossible', p == 0)


@subcheck('E01', 'reasons', models_cells(3), quick=6000, thorough=60000, shards=3, rule='two or more leaves explain the conflict')
def reasons(ctx, case):
    """the explanation of a conflict accounts for every leaf the evidence reaches"""
    jpt = mk_jpt(case['m'])
    ref = Ref(jpt)
    e, me = mk_cells(case, ref)
    if total(ref, me) > 0:
        raise Skip()
    ev = jpt.bind(e)
    x = raises_unsat(lambda: jpt.posterior(None, ev, report_inconsistencies=True), 'posterior given %s (probability 0) is not refused', e)
    got = list(x.reasons)
    exp = defaultdict(float)
    reached = [l.idx for l in jpt.apply(ev)]
    n = 0
    for l in ref.leaves:
        if l.idx not in reached:
            continue
        ps = {n: ref.uni(l.d[n], c) for n, c in me.items()}
        for n_, s in jpt.leaves[l.idx].path.items():
            if n_.name in me and not n_.numeric:
                ps[n_.name] = ref.uni(l.d[n_.name], me[n_.name] & set(s))
        exp[tuple(sorted(n for n in ps if ps[n] == 0))] += math.prod(q for q in ps.values() if q)
        n += 1
    ctx.nontrivial(n > 1)
    check(got, 'the conflict of %s is not explained', e)
    lik = [k for k, _ in got]
    check(all(a >= b for a, b in zip(lik, lik[1:])), 'reasons of the conflict of %s are not in decreasing order: %s', e, lik)
    sums = defaultdict(float)
    for k, a in got:
        sums[tuple(sorted(v.name for v in a.keys()))] += k
        for v, s in a.items():
            # the impossible condition: the part of the evidence in the region of the leaf
            if v.numeric:
                check(s.isempty() or jpt.varnames[v.name].domain.label2value(s) .intersects(ev.value_assignment()[v]), 'reason %s of %s has nothing to do with the evidence', a, e)
            else:
                check(set(s) <= set(e[v.name]), 'reason %s of %s is not about the evidence', a, e)
    check(set(sums) == set(exp) and all(close(sums[k], exp[k], 1e-6, 1e-9) for k in exp), 'the conflict of %s is explained by %s, the leaves have the conflicts %s', e, dict(sums), dict(exp))
    y = raises_unsat(lambda: jpt.posterior(None, ev), 'posterior given %s (probability 0) is not refused', e)
    short = list(y.reasons)
    check(short and all(set(v.name for v in a.keys()) <= set(me) and len(a) for _, a in short), 'short reasons of the conflict of %s: %s', e, short)
    for what, fn, _ in tasks(jpt, ev):
        if not what.startswith('posterior'):
            z = raises_unsat(fn, '%s given %s (probability 0) is not refused', what, e)
            list(z.reasons)                        # has to be readable whichever task failed


PT = st.fixed_dictionaries(dict(m=MODELS, c=st.lists(st.tuples(st.integers(0, 3), st.integers(0, 29), st.sampled_from([0, 0, 0, .25, -.3, 2.])).map(list), min_size=1, max_size=3, unique_by=lambda t: t[0]), f=FORM))


@subcheck('E01', 'points', PT, quick=4000, thorough=40000, shards=3, rule='a numeric variable is given by a single value')
def points(ctx, case):
    """tasks agree whether evidence of single values is possible: exactly if some leaf has positive density"""
    m = case['m']
    jpt = mk_jpt(m)
    ref = Ref(jpt)
    rows = rows_of(m)
    e, val = {}, {}
    for i, r, off in case['c']:
        i %= len(m['vars'])
        v = m['vars'][i]
        n = vname(i, v)
        x = rows[r % len(rows)][i]
        if isnum(v):
            g = ref.grid(n)
            T = ref.vars[n].domain
            x = float(T.value2label(T.label2value(x) + off * ((g[-1] - g[0]) or 1.)))
            y = T.label2value(x)
            # at the borders of the support, density is not decided
            if any(abs(y - k) < 1e-9 * max(1, abs(k)) for l in ref.leaves for k in (l.d[n][0][1], l.d[n][-1][0]) if k != l.d[n][0][1] or not any(j == y for j, _ in jumps(l.d[n]))):
                raise Skip()
        else:
            y = ref.vars[n].domain.label2value(x)
        e[n], val[n] = x, y
    ctx.nontrivial(any(jpt.varnames[n].numeric for n in e))
    w = {}
    for l in jpt.leaves.values():
        p = l.prior
        for n, y in val.items():
            v = jpt.varnames[n]
            d = l.distributions[v]
            q = d.pdf.eval(y) if v.numeric else d.probabilities[y]
            p *= 1. if q == INF else q
        w[l.idx] = p
    p = sum(w.values())
    if 0 < p < 1e-9:
        raise Skip()
    ev = dict(dict=e, bound=jpt.bind(e), values=jpt.bind(e).value_assignment())[case['f']]
    from jpt.base.errors import Unsatisfiability
    answers = {}
    for what, fn, empty in tasks(jpt, ev):
        if what == 'infer':                        # is about probability, that of single values is zero
            continue
        if p == 0:
            raises_unsat(fn, '%s given the impossible values %s is not refused', what, e)
            check(empty(fn(fail_on_unsatisfiability=False)), '%s given the impossible values %s, asked not to fail, is not empty', what, e)
        else:
            try:
                answers[what] = fn()
                check(not empty(answers[what]), '%s given %s (density %s) is empty', what, e, p)
            except Unsatisfiability as x:
                fail('%s given %s of density %s is refused: %s', what, e, p, x)
    if p == 0:
        return
    # the posterior is the mixture of the leaves weighted by their density at the values
    post, cond = answers['posterior'], answers['conditional model']
    cpost = cond.posterior(None, {})
    for i, v in enumerate(m['vars']):
        n = vname(i, v)
        var = jpt.varnames[n]
        if isnum(v):
            for x in ref.grid(n):
                exp = sum(w[l.idx] / p * peval(l.d[n], x) for l in ref.leaves) if n not in val else float(x >= val[n])
                if n in val and abs(x - val[n]) < 1e-9 * max(1, abs(x)):
                    continue
                if ref.has_jump_near(n, x) or any(abs(x - k) < 1e-7 * max(1, abs(x)) and x != k for k in ref.grid(n)):
                    continue
                for s, d in (('posterior', post[var]), ('conditional model', cpost[cond.varnames[n]])):
                    check_close(d.cdf.eval(x), exp, '%s: P(%s <= %s | %s)', s, n, x, e, rtol=1e-6, atol=1e-6)
        else:
            for k in range(nsym(v)):
                exp = sum(w[l.idx] / p * l.d[n][k] for l in ref.leaves) if n not in val else float(k == val[n])
                for s, d in (('posterior', post[var]), ('conditional model', cpost[cond.varnames[n]])):
                    check_close(d.probabilities[k], exp, '%s: P(%s = %s | %s)', s, n, labels_of(v)[k], e, rtol=1e-6, atol=1e-6)


@st.composite
def sliver(draw):
    m = draw(MODELS)
    nums = [i for i, v in enumerate(m['vars']) if isnum(v)]
    i = draw(st.sampled_from(nums)) if nums else None
    return dict(m=m, i=i, at=draw(st.integers(0, 60)), side=draw(st.sampled_from([-1, 1])), w=draw(st.sampled_from([1e-2, 1e-4, 1e-6, 1e-7])), f=draw(FORM))


@subcheck('E01', 'slivers', sliver(), quick=4000, thorough=40000, shards=3, rule='evidence of probability between 1e-9 and 1e-3')
def slivers(ctx, case):
    """narrow evidence at the borders of supports and regions is refused only if it has no probability"""
    from jpt.base.intervals import ContinuousSet
    if case['i'] is None:
        raise Skip()
    m, i = case['m'], case['i']
    jpt = mk_jpt(m)
    ref = Ref(jpt)
    n = vname(i, m['vars'][i])
    g = ref.grid(n)
    T = ref.vars[n].domain
    x = g[case['at'] % len(g)]
    w = case['w'] * ((g[-1] - g[0]) or 1.) * case['side']
    a, b = sorted([x, x + w])
    if b - a < 1e-8 * max(1, abs(a)) or abs(T.label2value(T.value2label(a)) - a) > 1e-12 * max(1, abs(a)):
        raise Skip()
    e = {n: ContinuousSet(T.value2label(a), T.value2label(b), INC, EXC)}
    me = {n: [(T.label2value(T.value2label(a)), T.label2value(T.value2label(b)), INC, EXC)]}
    p = uniform_case(ctx, m, jpt, ref, e, me, case['f'])
    ctx.nontrivial(0 < p < 1e-3)


@subcheck('E01', 'leaves', models_cells(3), quick=4000, thorough=40000, shards=2, rule='a leaf of positive and one of zero probability')
def leaves(ctx, case):
    """conditioning a leaf is refused exactly if the event is impossible in it, and consistency with events tells so"""
    from jpt.base.errors import Unsatisfiability
    jpt = mk_jpt(case['m'])
    ref = Ref(jpt)
    e, me = mk_cells(case, ref)
    total(ref, me)
    ev = jpt.bind(e)
    seen = set()
    for l in ref.leaves:
        p = ref.leaf_p(l, me)
        leaf = jpt.leaves[l.idx]
        seen.add(p > 0)
        check_close(leaf.probability(ev), p, 'probability of %s in leaf %s', e, l.idx, rtol=1e-6, atol=1e-9)
        check(leaf.consistent_with(ev.value_assignment()) == (p > 0), 'leaf %s is (not) consistent with %s of probability %s', l.idx, e, p)
        if p == 0:
            raises_unsat(lambda: leaf.conditional_leaf(ev), 'conditioning leaf %s on %s (probability 0 in it) is not refused', l.idx, e)
        else:
            try:
                c = leaf.conditional_leaf(ev)
            except Unsatisfiability as x:
                fail('conditioning leaf %s on %s of probability %s in it is refused: %s', l.idx, e, p, x)
            for n, s in me.items():
                d = c.distributions[jpt.varnames[n]]
                got = Ref.uni(read_plf(d.cdf) if jpt.varnames[n].numeric else list(d.probabilities), s)
                check_close(got, 1., 'probability of the condition on %s in leaf %s conditioned on %s', n, l.idx, e, rtol=1e-6)
    ctx.nontrivial(len(seen) == 2)
