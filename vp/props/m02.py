"""M02: similarity and divergence measures."""
import json

import numpy as np
from hypothesis import strategies as st

from vp.core import Skip, check, check_close, close, fail, subcheck
from vp.dists import *
from vp.plf import read_plf

ASSUMPTIONS = ['What the library calls KL divergence is the expected absolute difference of the probabilities, as its tests document.',
               'The divergence of numeric distributions is recomputed for distributions without point masses only; with point masses the axioms are checked.']


def restored(d):
    from jpt.distributions.univariate import Distribution
    return Distribution.from_json(json.loads(json.dumps(d.to_json()))) if not hasattr(type(d), 'x') else d


def refused(f, *errs):
    try:
        r = f()
    except errs:
        return
    fail('accepted: %r', r)


@subcheck('M02', 'discrete', st.fixed_dictionaries({'dom': domain(), 'p': st.lists(st.sampled_from([0, 0, 1, 1, 2, 3, 7, 50]), min_size=8, max_size=8),
                                                    'q': st.lists(st.sampled_from([0, 0, 1, 1, 2, 3, 7, 50]), min_size=8, max_size=8), 'how': st.integers(0, 3)}),
          quick=6000, thorough=60000, shards=2, rule='two different distributions that overlap')
def discrete(ctx, case):
    """integer, symbolic, Boolean: Jaccard index and divergence against their sums"""
    T = mk_domain(case['dom'])
    n = len(dlabels(case['dom']))
    p, q = np.array(case['p'][:n], dtype=float), np.array(case['q'][:n], dtype=float)
    if case['how'] == 0:
        q = p.copy()
    if not p.any() or not q.any():
        raise Skip()
    p, q = p / p.sum(), q / q.sum()
    a, b = T().set(np.array(p)), T().set(np.array(q))
    ctx.nontrivial((p != q).any() and (p * q).any())
    e = np.minimum(p, q).sum() / np.maximum(p, q).sum()
    for d1, d2 in ((a, b), (b, a), (a.copy(), b), (T.from_json(a.to_json()), b)):
        check_close(T.jaccard_similarity(d1, d2), e, 'similarity of %r and %r', d1.probabilities, d2.probabilities, rtol=1e-9, atol=1e-12)
    check_close(T.jaccard_similarity(a, a), 1, 'similarity with itself')
    for d1, d2, u, v in ((a, b, p, q), (b, a, q, p), (a, a.copy(), p, p), (T.from_json(a.to_json()), b, p, q)):
        k = d1.kl_divergence(d2)
        check_close(k, (u * abs(u - v)).sum(), 'divergence of %r and %r', u, v, rtol=1e-9, atol=1e-12)
        check(0 <= k <= 1 + 1e-12, 'divergence %r', k)
    if (p != q).any():
        check(T.jaccard_similarity(a, b) < 1 and a.kl_divergence(b) + b.kl_divergence(a) > 0, 'different distributions %r, %r', p, q)
    check((a.probabilities == p).all() and (b.probabilities == q).all(), 'the distributions have been modified')
    from jpt.distributions.univariate import IntegerType, Numeric, SymbolicType
    for other in (IntegerType('Other', 0, n).__call__(), SymbolicType('Other', ['u', 'v'])(), Numeric().create_dirac_impulse(1.), None, 1):
        refused(lambda: a.kl_divergence(other), TypeError)


def pieces(*segs):
    ks = sorted({b for s in segs for x in s for b in x[:2] if abs(b) != INF})
    return list(zip(ks, ks[1:]))


@subcheck('M02', 'numeric', st.tuples(numspec(), numspec(), st.integers(0, 5)).map(list), quick=5000, thorough=60000, shards=3, rule='two different distributions that overlap')
def numeric(ctx, case):
    """numeric distributions: Jaccard index of the densities and divergence"""
    from jpt.distributions.univariate import Numeric
    sa, sb, how = case
    a = mk_numeric(sa)
    b = a.copy() if how == 0 else mk_numeric(sb)
    pa, pb = read_plf(a.cdf), read_plf(b.cdf)
    atoms = [x for s in (pa, pb) for x in jumps(s)]
    before = [json.dumps(d.to_json()) for d in (a, b)]
    J = Numeric.jaccard_similarity
    ks = pieces(pa, pb)
    ma, mb = [set_mass(pa, x, y, EXC, EXC) for x, y in ks], [set_mass(pb, x, y, EXC, EXC) for x, y in ks]
    ctx.nontrivial(pa != pb and any(x > 0 and y > 0 for x, y in zip(ma, mb)))
    ctx.label('point masses', bool(atoms))
    tiny = any(y - x < 1e-6 * max(1, abs(x)) and (u > 1e-9 or v > 1e-9) for (x, y), u, v in zip(ks, ma, mb))
    s = J(a, b)
    check(-1e-12 <= s <= 1 + 1e-9, 'similarity %r', s)
    check_close(J(b, a), s, 'symmetry', rtol=1e-9, atol=1e-12)
    for d in (a, b):
        check_close(J(d, d), 1, 'similarity with itself')
        check_close(J(d, d.copy()), 1, 'similarity with a copy')
        check_close(d.kl_divergence(d), 0, 'divergence from itself', atol=1e-12)
        check_close(d.kl_divergence(d.copy()), 0, 'divergence from a copy', atol=1e-12)
        r = Numeric.from_json(json.loads(json.dumps(d.to_json())))
        check_close(J(d, r), 1, 'similarity with the restored distribution')
        check_close(d.kl_divergence(r), 0, 'divergence from the restored distribution', atol=1e-12)
        o = b if d is a else a
        check_close(J(r, o), s, 'similarity of the restored distribution', rtol=1e-9, atol=1e-12)
        k = d.kl_divergence(o)
        check(k >= -1e-12, 'divergence %r', k)
        check_close(r.kl_divergence(o), k, 'divergence of the restored distribution', rtol=1e-9, atol=1e-12)
    pts = sorted({x for k in ks for x in k} | {x for x, _ in atoms})
    aa, ab = [set_mass(pa, x, x, INC, INC) for x in pts], [set_mass(pb, x, x, INC, INC) for x in pts]
    if not tiny:
        e = sum(min(x, y) for x, y in zip(ma + aa, mb + ab)) / sum(max(x, y) for x, y in zip(ma + aa, mb + ab))
        check_close(s, e, 'similarity', rtol=1e-6, atol=1e-7)
    if not atoms and not tiny:
        for d, o, u, v in ((a, b, ma, mb), (b, a, mb, ma)):
            check_close(d.kl_divergence(o), sum(x * abs(x - y) for x, y in zip(u, v)), 'divergence', rtol=1e-6, atol=1e-7)
    if not tiny and not any(x > 1e-9 and y > 1e-9 for x, y in zip(ma, mb)) and not atoms:
        check(s < 1e-7, 'disjoint distributions have similarity %r', s)
    check(before == [json.dumps(d.to_json()) for d in (a, b)], 'the distributions have been modified')
    from jpt.distributions.univariate import IntegerType
    for other in (IntegerType('O', 0, 1)().set(np.array([.5, .5])), None, 1.):
        refused(lambda: a.kl_divergence(other), TypeError)


@subcheck('M02', 'diracs', st.tuples(st.integers(-5, 5), st.integers(-5, 5), numspec()).map(list), quick=1500, thorough=10000, shards=1, rule='two different points')
def diracs(ctx, case):
    """point masses: similar iff at the same point"""
    from jpt.distributions.univariate import Numeric
    a, b = (Numeric().create_dirac_impulse(x / 2) for x in case[:2])
    ctx.nontrivial(case[0] != case[1])
    s = Numeric.jaccard_similarity(a, b)
    check_close(s, float(case[0] == case[1]), 'similarity of point masses at %r and %r', case[0] / 2, case[1] / 2)
    k = a.kl_divergence(b)
    check((k > 1e-9) is (case[0] != case[1]), 'divergence of point masses at %r and %r: %r', case[0] / 2, case[1] / 2, k)
    d = mk_numeric(case[2])
    for x, y in ((a, d), (d, a)):
        s = Numeric.jaccard_similarity(x, y)
        check(-1e-12 <= s <= 1 + 1e-9, 'similarity %r', s)
        if not jumps(read_plf(d.cdf)):
            check(s < 1e-7, 'similarity of a point mass and a distribution with a density: %r', s)


FN = st.lists(st.tuples(st.integers(1, 6), st.integers(0, 4), st.integers(-2, 2)).map(list), min_size=1, max_size=5)


@subcheck('M02', 'functions', st.tuples(FN, FN, st.integers(-5, 5), st.integers(0, 3)).map(list), quick=3000, thorough=30000, shards=1, rule='overlapping functions that differ')
def functions(ctx, case):
    """Jaccard index of non-negative piecewise constant and linear functions"""
    from jpt.base.functions import ConstantFunction, LinearFunction, PiecewiseFunction
    from jpt.base.intervals import ContinuousSet
    fs, ps = [], []
    lo = None
    for fn, off in ((case[0], 0), (case[1], case[2])):
        f = PiecewiseFunction()
        x, out = off * 1., [(-INF, off * 1., 0., 0.)]
        for w, h, sl in fn:
            m = sl / 4 if h + sl / 4 * w >= 0 else 0.
            out.append((x, x + w, m, h - m * x))
            x += w
        out.append((x, INF, 0., 0.))
        for a, b, m, c in out:
            f.intervals.append(ContinuousSet(a, b, EXC if a == -INF else INC, EXC))
            f.functions.append(LinearFunction(m, c) if m else ConstantFunction(c))
        fs.append(f)
        ps.append(out)
    if not all(any(c or m for _, _, m, c in p) for p in ps):
        raise Skip()

    def val(p, x):
        return next((m * x + c for a, b, m, c in p if a <= x < b), 0.)
    knots = sorted({b for p in ps for s in p for b in s[:2] if abs(b) != INF})
    imin = imax = 0.
    for a, b in zip(knots, knots[1:]):
        mid = (a + b) / 2
        (m1, c1), (m2, c2) = ([(m, c) for s, t, m, c in p if s <= mid < t][0] for p in ps)
        cuts = [a, b]
        if m1 != m2 and a < (c2 - c1) / (m1 - m2) < b:
            cuts.insert(1, (c2 - c1) / (m1 - m2))
        for s, t in zip(cuts, cuts[1:]):
            u, v = (m1 * (s + t) / 2 + c1) * (t - s), (m2 * (s + t) / 2 + c2) * (t - s)
            imin += min(u, v)
            imax += max(u, v)
    ctx.nontrivial(0 < imin < imax)
    J = PiecewiseFunction.jaccard_similarity
    iv = ContinuousSet(knots[0] - 1, knots[-1] + 1)
    for x, y in (fs, fs[::-1]):
        for args in ((), (iv,)) if case[3] else ((iv,),):
            check_close(J(x, y, *args), imin / imax, 'similarity', rtol=1e-7, atol=1e-9)
    check_close(J(fs[0], fs[0]), 1, 'similarity with itself')
