"""S01: the interval calculus is exact on points."""
import numpy as np
from hypothesis import strategies as st

from vp.core import check, fail, subcheck
from vp.sets import *

from jpt.base.intervals import ContinuousSet, RealSet

ASSUMPTIONS = ['Infinite ends are open, finite bounds have magnitude <= 1e12, NaN bounds are excluded.',
               'The oracle is exact over double-precision numbers (integer ranges over the order of doubles).']


def same(what, got, want, *ops):
    check(isinstance(got, (ContinuousSet, RealSet)), '%s returned %r', what, type(got))
    m = model(got)
    if m != want:
        fail('%s(%s) = %s denotes %s, expected %s', what, ', '.join(map(repr, ops)), got, show(m), show(want))


def simplified(what, s):
    """non-empty, non-overlapping constituents"""
    if isinstance(s, RealSet):
        ivs = [model(i) for i in s.intervals]
        check(all(ivs), '%s: empty constituent in %r', what, s)
        flat = sorted(r for i in ivs for r in i)
        check(all(x[1] < y[0] for x, y in zip(flat, flat[1:])), '%s: overlapping constituents in %r', what, s)


pair = st.fixed_dictionaries({'a': interval(), 'b': interval()})


@subcheck('S01', 'continuous_pair', pair, quick=12000, thorough=400000, shards=3,
          rule='both operands non-empty and not far apart (their hulls touch)')
def continuous_pair(ctx, case):
    a, b = mk_cs(case['a']), mk_cs(case['b'])
    ma, mb = model_of([case['a']]), model_of([case['b']])
    ra, rb = rep(a), rep(b)
    ctx.nontrivial(bool(ma and mb) and not (ma[0][1] + 1 < mb[0][0] or mb[0][1] + 1 < ma[0][0]))
    ctx.label('overlap', bool(m_inter(ma, mb)))
    same('intersection', a.intersection(b), m_inter(ma, mb), a, b)
    same('and', a & b, m_inter(ma, mb), a, b)
    same('union', a.union(b), m_union(ma, mb), a, b)
    same('or', a | b, m_union(ma, mb), a, b)
    same('difference', a.difference(b), m_diff(ma, mb), a, b)
    same('sub', a - b, m_diff(ma, mb), a, b)
    same('complement', a.complement(), m_compl(ma), a)
    same('copy', a.copy(), ma, a)
    same('simplify', a.simplify(), ma, a)
    same('xmirror', a.xmirror(), m_mirror(ma), a)
    check(bool(a.isempty()) == (not ma), 'isempty(%r) = %r', a, a.isempty())
    check(bool(a) == bool(ma), 'bool(%r)', a)
    check(bool(a.intersects(b)) != bool(a.isdisjoint(b)), 'isdisjoint(%r, %r)', a, b)
    if m_inter(ma, mb) or not fine([case['a'], case['b']]):
        check(bool(a.intersects(b)) == bool(m_inter(ma, mb)), 'intersects(%r, %r) = %r', a, b, a.intersects(b))
    check((a == b) == (ma == mb), '%r == %r is %r', a, b, a == b)
    check((a != b) == (ma != mb), '%r != %r is %r', a, b, a != b)
    if ma and mb:
        check(bool(a.contains_interval(b)) == (not m_diff(mb, ma)), '%r contains %r: %r', a, b, a.contains_interval(b))
        check((b in a) == (not m_diff(mb, ma)), '%r in %r', b, a)
    for x in probes([case['a'], case['b']]):
        check(bool(a.contains_value(x)) == m_has(ma, x), '%r contains %r: %r', a, x, a.contains_value(x))
        check((x in b) == m_has(mb, x), '%r in %r: %r', x, b, x in b)
    n = sum(q - p + 1 for p, q in ma)
    check(a.size() == (n if n <= 1 else np.inf) or n > 0 and fine([case['a']]), 'size(%r) = %r', a, a.size())
    if ma:
        p = a.any_point()
        check(m_has(ma, p), 'any_point(%r) = %r is not in the set', a, p)
        check(a.fst() == unord(ma[0][0]), 'fst(%r) = %r', a, a.fst())
        if abs(a.lower) != INF:
            check(a.min == a.lowermost() == unord(ma[0][0]), 'min(%r) = %r', a, a.min)
        if abs(a.upper) != INF:
            check(a.max == a.uppermost() == unord(ma[0][1]), 'max(%r) = %r', a, a.max)
        check(bool(a.isinf()) == (abs(a.lower) == INF or abs(a.upper) == INF), 'isinf(%r)', a)
    check(rep(a) == ra and rep(b) == rb, 'an operand was modified: %r %r -> %r %r', ra, rb, rep(a), rep(b))


@subcheck('S01', 'end_types', st.fixed_dictionaries({'a': interval(), 'b': interval(), 'l': st.sampled_from([0, 1, 2]),
                                                    'r': st.sampled_from([0, 1, 2])}),
          quick=4000, thorough=100000, shards=2, rule='non-empty set whose finite end changes its type')
def end_types(ctx, case):
    """re-expressing an end as open/closed denotes the same set and yields the requested end type"""
    a, b, l, r = mk_cs(case['a']), mk_cs(case['b']), case['l'], case['r']
    ma, mb = model(a), model(b)
    if not ma or abs(a.lower) == INF or abs(a.upper) == INF:
        return
    ctx.nontrivial((l and l != a.left) or (r and r != a.right))
    for name, s in (('boundaries', a.boundaries(l, r)), ('ends', a.ends(l or -1, r or -1))):
        same(name, s, ma, a, l, r)
        check(not l or s.left == l, '%s: left end type', name)
        check(not r or s.right == r, '%s: right end type', name)
    mi = m_inter(ma, mb)
    if mi:
        s = a.intersection(b, left=l, right=r)
        if abs(s.lower) != INF and abs(s.upper) != INF:
            same('intersection(left, right)', s, mi, a, b, l, r)
            check(not l or s.left == l, 'intersection: left end type')
            check(not r or s.right == r, 'intersection: right end type')


@subcheck('S01', 'real_sets', st.fixed_dictionaries({'a': st.one_of(realset(), disjoint(), disjoint()), 'b': st.one_of(realset(3), disjoint()), 'c': interval()}),
          quick=10000, thorough=300000, shards=4, rule='both sets non-empty, at least one with two or more pieces')
def real_sets(ctx, case):
    a, b, c = mk_rs(case['a']), mk_rs(case['b']), mk_cs(case['c'])
    ma, mb, mc = model_of(case['a']), model_of(case['b']), model_of([case['c']])
    ra, rb, rc = rep(a), rep(b), rep(c)
    ctx.nontrivial(bool(ma and mb) and max(len(ma), len(mb)) >= 2)
    ctx.label('pieces>=3', max(len(ma), len(mb)) >= 3)
    for x in probes(case['a'], case['b']):
        check((x in a) == m_has(ma, x), '%r in %r: %r', x, a, x in a)
        check(bool(a.contains_value(x)) == m_has(ma, x), 'contains_value(%r, %r)', a, x)
    for name, f, want in (
            ('simplify', lambda: a.simplify(), ma),
            ('intersection', lambda: a.intersection(b), m_inter(ma, mb)),
            ('and', lambda: a & b, m_inter(ma, mb)),
            ('union', lambda: a.union(b), m_union(ma, mb)),
            ('or', lambda: a | b, m_union(ma, mb)),
            ('difference', lambda: a.difference(b), m_diff(ma, mb)),
            ('intersection with interval', lambda: a.intersection(c), m_inter(ma, mc)),
            ('union with interval', lambda: a.union(c), m_union(ma, mc)),
            ('difference with interval', lambda: a.difference(c), m_diff(ma, mc)),
            ('interval difference', lambda: c.difference(a), m_diff(mc, ma)),
            ('interval union', lambda: c.union(a), m_union(mc, ma)),
            ('interval or', lambda: c | a, m_union(mc, ma)),
            ('interval and', lambda: c & a, m_inter(mc, ma)),
            ('complement', lambda: a.complement(), m_compl(ma))):
        s = f()
        same(name, s, want, a, b, c)
        if 'difference' not in name:
            simplified(name, s)
    same('copy', a.copy(), ma, a)
    same('xmirror', a.xmirror(), m_mirror(ma), a)
    check(bool(a.isempty()) == (not ma), 'isempty(%r)', a)
    check(bool(a) == bool(ma), 'bool(%r)', a)
    fuzzy = fine(case['a'], case['b'], [case['c']])
    ctx.label('neighbouring bounds', fuzzy)
    for o, m in ((b, mb), (c, mc)):
        if m_inter(ma, m) or not fuzzy:
            check(bool(a.intersects(o)) == bool(m_inter(ma, m)), 'intersects(%r, %r)', a, o)
        check(bool(a.isdisjoint(o)) != bool(a.intersects(o)), 'isdisjoint(%r, %r)', a, o)
        check((a == o) != (a != o), '%r != %r', a, o)
        if ma != m or not fuzzy:
            check((a == o) == (ma == m), '%r == %r is %r', a, o, a == o)
            check((o == a) == (ma == m), '%r == %r is %r', o, a, o == a)
    check(a == a.copy() and a == a.simplify(), '%r differs from its own copy or simplification', a)
    if ma and mc and not fuzzy:
        s = a.simplify()
        check(bool(s.contains_interval(c)) == (not m_diff(mc, ma)), '%r contains %r: %r', s, c, s.contains_interval(c))
        if mb:
            check(bool(s.contains_interval(b.simplify())) == (not m_diff(mb, ma)), '%r contains %r', s, b)
    n = sum(q - p + 1 for p, q in ma)
    check(a.size() == (n if all(p == q for p, q in ma) else np.inf) or n > 0 and fuzzy, 'size(%r) = %r', a, a.size())
    if ma:
        check(a.fst() == a.min == unord(ma[0][0]), 'fst(%r) = %r', a, a.fst())
        check(m_has(ma, a.any_point()), 'any_point(%r) = %r', a, a.any_point())
    check(rep(a) == ra and rep(b) == rb and rep(c) == rc, 'an operand was modified: %r -> %r, %r -> %r', ra, rep(a), rb, rep(b))


@subcheck('S01', 'disjoint_sets', st.fixed_dictionaries({'a': disjoint(), 'b': disjoint(), 'pts': st.lists(bound, max_size=4)}),
          quick=5000, thorough=150000, shards=3, rule='two non-empty sets of disjoint pieces')
def disjoint_sets(ctx, case):
    """pairwise intersections and chopping of sets made of disjoint pieces"""
    a, b = mk_rs(case['a']), mk_rs(case['b'])
    ma, mb = model_of(case['a']), model_of(case['b'])
    ctx.nontrivial(bool(ma and mb))
    s = a.intersections(b)
    same('intersections', s, m_inter(ma, mb), a, b)
    ms = [model(i)[0] for i in s.intervals]
    check(all(x[1] < y[0] for x, y in zip(ms, ms[1:])), 'intersections(%r, %r) is not sorted and disjoint: %r', a, b, s)
    want = norm_pieces([m_inter([p], [q]) for p in pieces(case['a']) for q in pieces(case['b'])])
    check(sorted(ms) == want, 'intersections(%r, %r) = %r are not the pairwise ones', a, b, s)
    parts = list(a.chop(case['pts']))
    mp = [model(p) for p in parts]
    check(all(len(m) == 1 for m in mp), 'chop(%r, %r): empty piece in %r', a, case['pts'], parts)
    flat = sorted(m[0] for m in mp)
    check(all(x[1] < y[0] for x, y in zip(flat, flat[1:])), 'chop: pieces overlap: %r', parts)
    check(norm(list(flat)) == ma, 'chop(%r, %r) = %r does not cover the set', a, case['pts'], parts)
    starts = {m[0] for m in flat}
    for x in case['pts']:
        if m_has(ma, x):
            check(ordn(x) in starts, 'chop(%r, %r): %r does not start a piece in %r', a, case['pts'], x, parts)
    inner = {ordn(x) for x in case['pts']} | {r[0] for r in ma}
    check(starts <= inner or fine(case['a']), 'chop(%r, %r) cuts at other points: %r', a, case['pts'], parts)


def pieces(case):
    return [iv_range(*i) for i in case]


def norm_pieces(lists):
    return sorted(r for m in lists for r in m)



@subcheck('S01', 'algebraic_laws', st.fixed_dictionaries({'a': realset(3), 'b': realset(3), 'c': realset(3)}),
          quick=2500, thorough=60000, shards=3, rule='three non-empty sets')
def algebraic_laws(ctx, case):
    """long chains of operations on results of operations (results are themselves valid operands)"""
    a, b, c = [mk_rs(case[k]) for k in 'abc']
    ma, mb, mc = [model_of(case[k]) for k in 'abc']
    ctx.nontrivial(bool(ma and mb and mc))

    def rs(s):
        return s if isinstance(s, RealSet) else RealSet([s])
    u = rs(rs(a.union(b)).difference(c))
    same('(a|b)-c', u, m_diff(m_union(ma, mb), mc), a, b, c)
    v = rs(rs(a.difference(c)).union(rs(b.difference(c))))
    same('(a-c)|(b-c)', v, m_diff(m_union(ma, mb), mc), a, b, c)
    check(u == v or fine(*case.values()), 'equal sets compare unequal: %r %r', u, v)
    w = rs(rs(rs(a.complement()).union(rs(b.complement()))).complement())
    same('~(~a|~b)', w, m_inter(ma, mb), a, b)
    check(w == a.intersection(b) or fine(*case.values()), 'De Morgan: %r', w)
    same('~~a', rs(a.complement()).complement(), ma, a)
    same('a&(b|c)', a.intersection(b.union(c)), m_inter(ma, m_union(mb, mc)), a, b, c)
    d = rs(a.intersection(b))
    if ma and m_inter(ma, mb) and not fine(*case.values()):
        check(rs(a.simplify()).contains_interval(d), '%r does not contain %r', a, d)


@subcheck('S01', 'sampling', st.fixed_dictionaries({'a': st.one_of(disjoint(min_size=1), realset()), 'n': st.integers(1, 30), 'seed': st.integers(0, 2**31)}),
          quick=1500, thorough=30000, shards=2, rule='a set with two or more pieces')
def sampling(ctx, case):
    """sampled points and linear spacings lie in the set"""
    a = mk_rs(case['a'])
    ma = model(a)
    ctx.nontrivial(len(ma) > 1)
    if not ma or any(abs(i[0]) == INF or abs(i[1]) == INF for i in case['a']):
        return
    np.random.seed(case['seed'])
    xs = a.sample(case['n'])
    check(len(xs) == case['n'], 'sample size')
    for x in xs:
        check(m_has(ma, x), 'sample(%r) = %r is outside the set', a, x)
    for i in case['a']:
        s = mk_cs(i)
        if not model(s):
            continue
        xs = s.sample(case['n'])
        check(len(xs) == case['n'], 'sample size')
        for x in xs:
            check(m_has(model(s), x), 'sample(%r) = %r is outside the set', s, x)
