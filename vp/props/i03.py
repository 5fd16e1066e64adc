"""I03: most probable explanations of a model."""
from itertools import islice, product

import numpy as np
from hypothesis import strategies as st

from vp.core import Skip, Violation, check, check_close, close, fail, subcheck
from vp.jpts import *

ASSUMPTIONS = ['The likelihood of an assignment is the largest prior-weighted product of densities any leaf gives it; a single value without density '
               '(point mass) counts as 2 / minimal distance of the values of the variable, as in JPT.likelihood.',
               'The univariate explanations are right (D04); conditioning is right (I02).']
LIMIT = 1500


def spec_of(case, name):
    return next(v for i, v in enumerate(case['m']['vars']) if vname(i, v) == name)


def cap_of(jpt, var):
    return 2. / jpt.minimal_distances[var]


def classes(jpt, leaf):
    """per variable the list of (region in value space, likelihood of its members)"""
    out = []
    for v in jpt.variables:
        k = leaf.distributions[v]._k_mpe()
        out.append([(r, cap_of(jpt, v) if l == INF else l) for r, l in k if l > 0])
    return out


def region_key(r):
    from jpt.base.intervals import ContinuousSet, RealSet
    if isinstance(r, (set, frozenset)):
        return ('S',) + tuple(sorted(r))
    if isinstance(r, ContinuousSet):
        r = RealSet([r])
    return ('R',) + tuple((float(i.lower), float(i.upper), i.left, i.right) for i in r.intervals if i.size() > 0)


def brute(jpt, cj):
    """every region of the conditional model: (likelihood, leaf number, key) in decreasing order"""
    out = []
    for n, leaf in enumerate(cj.leaves.values()):
        cl = classes(jpt, leaf)
        if np.prod([float(len(c)) for c in cl]) > LIMIT:
            raise Skip()
        for combo in product(*cl):
            l = leaf.prior
            for _, x in combo:
                l *= x
            out.append((l, n, tuple(region_key(r) for r, _ in combo)))
    out.sort(key=lambda t: -t[0])
    return out


def keys_of(jpt, assignment):
    va = assignment.value_assignment()
    return tuple(region_key(va[v]) for v in jpt.variables)


def approx_keys(a, b, tol=1e-6):
    """equal up to the rounding of label/value conversion"""
    for x, y in zip(a, b):
        if x[0] == 'S' or y[0] == 'S':
            if x != y:
                return False
            continue
        if len(x) != len(y):
            return False
        for (p, q, l, r), (s, t, k, m) in zip(x[1:], y[1:]):
            if not (close(p, s, tol, tol) and close(q, t, tol, tol)):
                return False
    return True


@st.composite
def case_strategy(draw):
    base = draw(st.sampled_from([jptspec(min_vars=1, max_vars=3, min_rows=3, max_rows=14), jptspec(min_vars=2, max_vars=3, min_rows=4, max_rows=10),
                                 jptspec(min_vars=2, max_vars=4, min_rows=4, max_rows=14, kinds=('int', 'sym', 'bool', 'num')),
                                 jptspec(min_vars=2, max_vars=4, min_rows=4, max_rows=20, kinds=('int', 'sym', 'bool'))]))
    out = draw(with_events(base, names=('e',), max_n=2))
    out['k'] = draw(st.sampled_from([0, 1, 2, 3, 7, 10000]))
    out['form'] = draw(st.integers(0, 2))
    return out


def setup(case):
    jpt = mk_jpt(case['m'])
    ref = Ref(jpt)
    e, me = mk_event(case['e'], case['m'], ref)
    if ref.p(me) < 1e-6:
        raise Skip()
    ev = [e, jpt.bind(e), jpt.bind(e).value_assignment()][case['form']]
    return jpt, ref, e, me, ev


@subcheck('I03', 'mpe', case_strategy(), quick=8000, thorough=80000, shards=4, rule='two or more leaves remain and evidence is uncertain')
def mpe(ctx, case):
    """mpe() names the maximum and only maximisers"""
    jpt, ref, e, me, ev = setup(case)
    res, lik = jpt.mpe(ev)
    pe = ref.p(me)
    cj = jpt.conditional_jpt(jpt.bind(e))
    ctx.nontrivial(len(cj.leaves) > 1 and pe < 1 - 1e-9)
    best = {}
    caps = {v.name: cap_of(jpt, v) for v in jpt.variables if v.numeric}
    facts = []
    for n, leaf in enumerate(cj.leaves.values()):
        l = leaf.prior
        fs = [leaf.prior]
        keys = []
        for v in jpt.variables:
            r, x = leaf.distributions[v]._k_mpe()[0]
            x = caps[v.name] if x == INF else x
            l *= x
            fs.append(x)
            keys.append(region_key(r))
        facts.append((l, tuple(fs), tuple(keys)))
    top = max(f[0] for f in facts)
    check_close(lik, top, 'likelihood of the most probable explanation given %s', e, rtol=1e-9, atol=0)
    # independent of the conditional model: density of the joint at the maximum over the probability of the evidence
    if case['m'] and not any(s and any(j for j in ref.leaves if jumps(j.d[n])) for n, s in me.items() if n in caps):
        dens = max((mode_density(ref, l, me, case, caps) for l in ref.leaves if l.prior * ref.leaf_p(l, me) > 1e-9), default=None)
        if dens is not None:
            check(lik >= dens / pe * (1 - 1e-5), 'mpe likelihood %r is below the density %r of an assignment given %s', lik, dens / pe, e)
    got = [keys_of(jpt, r) for r in res]
    check(got, 'no most probable explanation')
    exp = [f for f in facts if close(f[0], top, 1e-9, 0)]
    for g, r in zip(got, res):
        check({v.name for v in r} == set(ref.vars), 'explanation %s does not assign all variables', r)
        check(any(approx_keys(g, f[2]) for f in exp), 'explanation %s is not one of the maxima of any leaf (likelihood %s), given %s', r, lik, e)
    tops = [f for f in facts if f[1] == max(exp)[1] or f[0] == top and sorted(f[1]) == sorted(max(exp)[1])]
    if len(exp) == len([f for f in exp if sorted(f[1]) == sorted(exp[0][1])]):
        ctx.label('tie of leaves' if len(exp) > 1 else 'unique leaf')
        for f in exp:
            check(any(approx_keys(g, f[2]) for g in got), 'maximum %s (likelihood %s) is missing in %s', f[2], f[0], res)
        check(len(got) == len(exp), '%s explanations, expected %s', len(got), len(exp))


def mode_density(ref, l, me, case, caps):
    """prior-weighted density of a leaf at its modes within the evidence"""
    out = l.prior
    for n, d in l.d.items():
        ev = me.get(n)
        if n not in caps:
            out *= max(d[i] for i in (ev if ev is not None else range(len(d))))
            continue
        js = jumps(d)
        if js:
            out *= caps[n]          # leaf distributions with a jump are point masses
            if len(js) > 1 or js[0][1] < .999:
                return 0.
            continue
        best = 0.
        for seg in d:
            if len(seg[4]) > 1 and (ev is None or any(max(a, seg[0]) < min(b, seg[1]) - 1e-9 for a, b, _, _ in ev)):
                best = max(best, seg[4][1])
        out *= best
    return out


@subcheck('I03', 'kmpe', case_strategy(), quick=6000, thorough=60000, shards=4, rule='five or more regions from two or more leaves')
def kmpe(ctx, case):
    """kmpe() enumerates the regions of all leaves in decreasing order of likelihood"""
    jpt, ref, e, me, ev = setup(case)
    cj = jpt.conditional_jpt(jpt.bind(e))
    exp = brute(jpt, cj)
    k = case['k']
    n = min(k or len(exp), len(exp))
    ctx.nontrivial(len(exp) >= 5 and len(cj.leaves) > 1)
    ctx.label('all' if n == len(exp) else 'some')
    got = list(jpt.kmpe(ev, k=k))
    check(len(got) == n, '%s explanations for k=%s, there are %s regions', len(got), k, len(exp))
    for (_, a), (_, b) in zip(got, got[1:]):
        check(b <= a * (1 + 1e-9), 'likelihoods increase from %s to %s', a, b)
    for i, (r, l) in enumerate(got):
        check_close(l, exp[i][0], 'likelihood of explanation number %s given %s', i + 1, e, rtol=1e-6, atol=0)
    left = list(exp)
    for i, (r, l) in enumerate(got):
        g = keys_of(jpt, r)
        hit = next((x for x in left if close(x[0], l, 1e-6, 0) and approx_keys(g, x[2])), None)
        check(hit is not None, 'explanation number %s %s (likelihood %s) is not among the remaining regions', i + 1, r, l)
        left.remove(hit)
    m, lik = jpt.mpe(ev)
    check_close(got[0][1], lik, 'first of the k-best vs. mpe', rtol=1e-6, atol=0)


DISTS = st.fixed_dictionaries({'m': jptspec(min_vars=1, max_vars=4, min_rows=3, max_rows=14, hp=False), 'k': st.sampled_from([0, 1, 2, 5, 9]), 'div': st.sampled_from([None, None, .01, 1., 50.])})


@subcheck('I03', 'solver', DISTS, quick=4000, thorough=40000, shards=2, rule='three or more regions and two or more variables')
def solver(ctx, case):
    """the branch-and-bound solver over independent distributions agrees with exhaustive enumeration"""
    from jpt.distributions import Numeric
    from jpt.trees import MPESolver
    from jpt.variables import VariableMap
    case['m']['hp'] = {'msl': len(case['m']['rows'])}
    jpt = mk_jpt(case['m'])
    leaf = next(iter(jpt.leaves.values()))
    dists = leaf.distributions
    if any(l == INF for v in jpt.variables for _, l in dists[v]._k_mpe()):
        raise Skip()
    exp = brute(jpt, jpt)
    ctx.nontrivial(len(exp) > 2 and len(jpt.variables) > 1)
    k = case['k']
    got = list(MPESolver(VariableMap({v: dists[v] for v in jpt.variables}), **({'likelihood_divisor': case['div']} if case['div'] else {})).solve(k))
    n = min(k or len(exp), len(exp))
    check(len(got) == n, '%s solutions for k=%s, there are %s', len(got), k, len(exp))
    left = list(exp)
    for i, (r, l) in enumerate(got):
        check_close(l, exp[i][0], 'likelihood of solution number %s', i + 1, rtol=1e-6, atol=0)
        g = tuple(region_key(r[v]) for v in jpt.variables)
        hit = next((x for x in left if close(x[0], l, 1e-6, 0) and approx_keys(g, x[2])), None)
        check(hit is not None, 'solution number %s %s (likelihood %s) is not among the remaining regions', i + 1, r, l)
        left.remove(hit)
