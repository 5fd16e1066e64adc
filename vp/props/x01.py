"""X01: sequential models: fitting, exact marginals of the leaf chain, persistence."""
import json

import numpy as np
from hypothesis import strategies as st

from vp.core import Skip, check, check_close, fail, subcheck
from vp.jpts import *

ASSUMPTIONS = ['The chain is the factor graph the library documents: one factor per step holding the leaf probabilities given the evidence of that step, one per transition holding the transition weights.',
               'Marginals of exactly zero are deliberately lifted to a tenth of the smallest positive one before leaves excluded by the evidence are dropped.',
               'Sequences are at least as long as the number of jointly modelled steps; which leaf a row belongs to is decided by I05 and T01.']


def chain(T, phi):
    """posterior marginals of every step by enumeration of messages in both directions; None if no path has positive weight"""
    n = len(phi)
    a, b = [None] * n, [None] * n
    for t in range(n):
        a[t] = phi[t] * (a[t - 1] @ T if t else 1.)
        if not a[t].sum() > 0:
            return None
        a[t] = a[t] / a[t].sum()
    b[n - 1] = np.ones(len(T))
    for t in range(n - 2, -1, -1):
        b[t] = T @ (phi[t + 1] * b[t + 1])
        if not b[t].sum() > 0:
            return None
        b[t] = b[t] / b[t].sum()
    out = []
    for t in range(n):
        m = a[t] * b[t]
        if not m.sum() > 0:
            return None
        if m.sum() < 1e-8:
            raise Skip()  # the two directions (almost) contradict each other
        out.append(m / m.sum())
    return out


def lifted(m):
    if min(m) > 0:
        return m
    m = np.where(m > 0, m, min(x for x in m if x > 0) * .1)
    return m / m.sum()


@st.composite
def chain_case(draw):
    m = draw(st.one_of(jptspec(min_vars=1, max_vars=3, min_rows=5), jptspec(min_vars=2, max_vars=3, min_rows=8, max_rows=20)))
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5, 8, 12, 13] * 4 + [25, 25, 130]))
    distinct = draw(st.lists(evspec(m, 2), min_size=1, max_size=3))
    return dict(m=m, ev=distinct, steps=draw(st.lists(st.integers(0, 5), min_size=min(n, 6), max_size=min(n, 14))), n=n, T=draw(st.lists(st.sampled_from([0, 0, 0, 1, 1, 2, 5, .1, .003]), min_size=4, max_size=40)),
                form=draw(st.integers(0, 3)), q=draw(evspec(m, 2)))


def ev_of(case, ref, t):
    """evidence of step t: one of the drawn events or none"""
    k = case['steps'][t % len(case['steps'])]
    return mk_event(case['ev'][k], case['m'], ref) if k < len(case['ev']) else ({}, {})


def compare(seq, jpt, ref, evs, models, q, mq, T, what, tol=2e-4):
    from jpt.base.errors import Unsatisfiability
    phi = []
    for me in models:
        w = np.array(ref.weights(me))
        if 0 < w.sum() < 1e-9 or any(0 < x < 1e-9 for x in w):
            raise Skip()  # too close to impossible for the tolerances of the library
        phi.append(w / w.sum() if w.sum() else w)
    want = chain(T, phi) if all(p.sum() for p in phi) else None
    keep = dump(jpt)
    if want is None:
        raises_unsat(lambda: seq.independent_marginals(evs), '%s: impossible evidence sequence %s is answered', what, evs)
        return None
    got = seq.independent_marginals(evs)
    check(len(got) == len(evs), '%s: %d models for %d steps', what, len(got), len(evs))
    check(dump(jpt) == keep, '%s: the template has changed', what)
    idx = [l.idx for l in ref.leaves]
    for t, (g, m, me, w) in enumerate(zip(got, want, models, phi)):
        if any(0 < x < 1e-7 for x in m):
            raise Skip()
        m = lifted(m)
        inside = [i for i, x in zip(idx, w) if x > 0]
        check(set(g.leaves) == set(inside), '%s: step %d: leaves %r, expected %r', what, t, sorted(g.leaves), sorted(inside))
        z = sum(x for i, x in zip(idx, m) if i in g.leaves)
        for i, x in zip(idx, m):
            if i in g.leaves:
                check_close(g.leaves[i].prior, x / z, '%s: step %d of %d, evidence %s: prior of leaf %d (all: %r, expected %r)', what, t, len(evs), evs, i,
                            [l.prior for l in g.leaves.values()], [float(y / z) for j, y in zip(idx, m) if j in g.leaves], rtol=tol, atol=tol / 10)
        check_close(sum(l.prior for l in g.leaves.values()), 1, '%s: step %d: sum of priors', what, t, rtol=1e-9)
        p = sum(x / z * ref.leaf_p(l, ev_inter(mq, me)) / ref.leaf_p(l, me) for x, l in zip(m, ref.leaves) if l.idx in g.leaves)
        check_close(g.infer(q), p, '%s: step %d: P(%s) given %s', what, t, q, evs, rtol=10 * tol, atol=tol)
    return got


@subcheck('X01', 'chain', chain_case(), quick=2000, thorough=30000, shards=4, rule='two or more leaves and steps, evidence on some step, connected transitions')
def chain_marginals(ctx, case):
    """any transition matrix, any evidence sequence: the priors per step are the exact chain marginals; the template stays as it is; JSON round trip"""
    from jpt.sequential_trees import SequentialJPT
    jpt = mk_jpt(case['m'])
    ref = Ref(jpt)
    k = len(ref.leaves)
    T = np.array([[case['T'][(i * k + j) % len(case['T'])] for j in range(k)] for i in range(k)], dtype=np.float64)
    if not T.sum():
        T[0, 0] = 1
    T = T / T.sum()
    seq = SequentialJPT(jpt)
    seq.transition_model = T.copy()
    pairs = [ev_of(case, ref, t) for t in range(case['n'])]
    spell = [lambda q, t: q, lambda q, t: q, lambda q, t: jpt.bind(q), lambda q, t: None if not q else jpt.bind(q).value_assignment() if t % 2 else q][case['form']]
    evs = [spell(q, t) for t, (q, _) in enumerate(pairs)]
    q, mq = mk_event(case['q'], case['m'], ref)
    models = [m for _, m in pairs]
    ctx.nontrivial(k > 1 and case['n'] > 1 and any(models) and bool((T > 0).sum() > k))
    ctx.label('steps', case['n'])
    ctx.label('leaves', k)
    got = compare(seq, jpt, ref, evs, models, q, mq, T, 'chain')
    ctx.label('impossible sequences', int(got is None))
    check(np.array_equal(seq.transition_model, T), 'the transition weights have changed')
    if case['n'] < 10:
        r = SequentialJPT.from_json(json.loads(json.dumps(seq.to_json())))
        check(dump(r.template_tree) == dump(jpt), 'the restored template differs')
        check(np.array_equal(r.transition_model, T), 'the restored transition weights differ')
        evs = [q for q, _ in pairs]
        compare(r, r.template_tree, ref, evs, models, q, mq, T, 'restored')


@st.composite
def fit_case(draw):
    m = draw(jptspec(min_vars=1, max_vars=3, min_rows=6, max_rows=24, disc=False))
    n = len(m['rows'])
    if draw(st.booleans()):
        k = draw(st.integers(2, 5))
        m['rows'] = [m['rows'][i % k] for i in range(n)]
    return dict(m=m, cut=sorted(draw(st.lists(st.integers(2, n - 2), max_size=2))) if n > 5 else [], ts=draw(st.sampled_from([2, 2, 2, 3])), tgt=sorted(draw(st.sets(st.integers(0, len(m['vars']) - 1)))), ev=draw(st.lists(evspec(m, 2), min_size=1, max_size=3)), steps=draw(st.lists(st.integers(0, 5), min_size=2, max_size=6)),
                q=draw(evspec(m, 2)), n=draw(st.integers(2, 6)), again=draw(st.integers(0, 3)) == 0)


@subcheck('X01', 'fit', fit_case(), quick=2000, thorough=25000, shards=4, rule='two or more leaves and at least two different transitions')
def fit(ctx, case):
    """fitting: emission tree = tree learned from all windows, transition weights = shares of leaf pairs within sequences; marginals of the fitted model"""
    from jpt.sequential_trees import SequentialJPT
    from jpt.trees import JPT
    m = case['m']
    if not well_spaced(m):
        raise Skip()
    rows = rows_of(m)
    cuts = [0] + sorted(set(case['cut'])) + [len(rows)]
    seqs = [rows[a:b] for a, b in zip(cuts, cuts[1:])]
    ts, nv = case['ts'], len(m['vars'])
    if any(len(s) < max(2, ts) for s in seqs):
        raise Skip()
    dtype = np.float64 if all(isnum(v) for v in m['vars']) else object

    def mk(vs, targets):
        h = m['hp']
        return JPT(vs, targets=targets, min_samples_leaf=h.get('msl', 1), min_impurity_improvement=h.get('mii'), max_depth=h.get('depth'))
    vs = mk_vars(m)
    tgt = [i for i in case['tgt']] if case['tgt'] else None
    if tgt and len(tgt) == nv:
        tgt = None
    jpt = mk(vs, [vs[i] for i in tgt] if tgt else None)
    if case['again']:
        s = SequentialJPT(jpt)
        s.fit([np.array(rows[::-1], dtype=dtype)], timesteps=ts)  # a model from other data must leave no trace
    data = [np.array(s, dtype=dtype) for s in seqs]
    keep = [d.copy() for d in data]
    seq = SequentialJPT(jpt)
    seq.fit(data, timesteps=ts)
    check(all(np.array_equal(a, b) for a, b in zip(data, keep)), 'fitting has modified the sequences')
    # emission tree: learned from the windows with the following steps as targets
    ws = mk_vars(m)
    use = tgt or list(range(nv))
    shifted = []
    for k in range(1, ts):
        for i in use:
            v = mk_vars(m)[i]
            v._name = '%s+%d' % (v.name, k)
            shifted.append(v)
    ex = mk(ws + shifted, shifted)
    win = [list(s[t]) + [s[t + k][i] for k in range(1, ts) for i in use] for s in seqs for t in range(len(s) - ts + 1)]
    ex.learn(rows=win)
    check(list(jpt.leaves) == list(ex.leaves), 'leaves %r, expected %r', list(jpt.leaves), list(ex.leaves))
    for i, l in jpt.leaves.items():
        check_close(l.prior, ex.leaves[i].prior, 'prior of leaf %d', i, rtol=1e-12)
        check(sorted(v.name for v in l.distributions) == sorted(v.name for v in vs), 'leaf %d has distributions of %r', i, [v.name for v in l.distributions])
        for v in vs:
            a, b = l.distributions[v.name], ex.leaves[i].distributions[v.name]
            if v.numeric:
                check(np.allclose([c for x in read_plf(a.cdf) for c in x[2:] if not isinstance(c, (list, tuple))] or [0], [c for x in read_plf(b.cdf) for c in x[2:] if not isinstance(c, (list, tuple))] or [0])
                      and a.cdf == b.cdf, 'distribution of %s in leaf %d', v.name, i)
            else:
                check(np.allclose(list(a.probabilities), list(b.probabilities)), 'distribution of %s in leaf %d', v.name, i)
    ref = Ref(jpt)
    pos = {l.idx: k for k, l in enumerate(ref.leaves)}
    T = np.zeros((len(pos), len(pos)))
    for s in seqs:
        e = [pos[int(x)] for x in ex_encode(jpt, s, dtype)]
        for a, b in zip(e, e[1:]):
            T[a, b] += 1
    ctx.nontrivial(len(pos) > 1 and (T > 0).sum() > 1)
    ctx.label('leaves', len(pos))
    T /= T.sum()
    check(np.allclose(seq.transition_model, T, atol=1e-12), 'transition weights\n%r\nexpected\n%r', np.asarray(seq.transition_model).tolist(), T.tolist())
    pairs = [ev_of(case, ref, t) for t in range(case['n'])]
    q, mq = mk_event(case['q'], m, ref)
    compare(seq, jpt, ref, [q for q, _ in pairs], [m for _, m in pairs], q, mq, T, 'fitted')


def ex_encode(jpt, rows, dtype):
    """leaf of every row by the conditions on the paths to the leaves"""
    out = []
    for r in rows:
        hit = []
        for i, l in jpt.leaves.items():
            ok = True
            for v, c in l.path.items():
                x = r[[w.name for w in jpt.variables].index(v.name)]
                if v.numeric:
                    ok &= bool(c.contains_value(v.domain.label2value(x)))
                else:
                    ok &= v.domain.label2value(x) in c
            if ok:
                hit.append(i)
        check(len(hit) == 1, 'row %r reaches leaves %r', r, hit)
        out.append(hit[0])
    return out
