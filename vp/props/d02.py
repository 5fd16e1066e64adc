"""D02: integer, symbolic and Boolean distributions are finite probability spaces."""
import numpy as np
from hypothesis import strategies as st

from vp.core import Skip, check, check_close, close, fail, subcheck
from vp.dists import *

from jpt.base.errors import Unsatisfiability
from jpt.distributions.univariate import Bool, Integer, Multinomial

ASSUMPTIONS = ['Domains of up to 8 labels, chains of up to 8 operations on a growing pool of distributions.']

U = st.integers(0, 10 ** 6)
OPS = ['set', 'set', 'fit', 'fit', 'crop', 'crop', 'crop', 'crop1', 'merge', 'merge', 'update', 'copy', 'query', 'query']


@st.composite
def history(draw):
    dom = draw(domain())
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        op = draw(st.sampled_from(OPS))
        ops.append([op, draw(U), draw(U), draw(st.lists(st.integers(0, 7), max_size=12))])
    return dict(dom=dom, ops=ops, first=draw(st.lists(st.sampled_from([0, 1, 1, 2, 5]), min_size=8, max_size=8)))


def same(d, m, labels, what):
    ps = [float(p) for p in d.probabilities]
    check(len(ps) == len(labels), '%s: %d probabilities for %d labels', what, len(ps), len(labels))
    for l, p in zip(labels, ps):
        check_close(p, m[l], '%s: probability of %r', what, l, atol=1e-9)


def queries(d, m, labels, sub, T):
    ev = [labels[i % len(labels)] for i in sub]
    e = sum(m[l] for l in set(ev))
    for q in (set(ev), list(ev), tuple(ev)):
        b = list(q)
        check_close(d.p(q), e, 'P(%r)', q, atol=1e-9)
        check(list(q) == b, 'the query was modified')
        check_close(d._p(T.label2value(q)), e, '_P(%r)', q, atol=1e-9)
    check_close(d.p(set(labels)), 1, 'P(all labels)', atol=1e-9)
    check_close(d.p(set(labels) - set(ev)) if set(labels) - set(ev) else 0, 1 - e, 'P of the complement of %r', ev, atol=1e-9)
    for v, l in enumerate(labels):
        check_close(d.p(l), m[l], 'P(%r)', l, atol=1e-9)
        check_close(d.pdf(l), m[l], 'pdf(%r)', l, atol=1e-9)
        check_close(d[l], m[l], '[%r]', l, atol=1e-9)
        check_close(d._p(v), m[l], '_P(%r)', v, atol=1e-9)
        check_close(d._pdf(v), m[l], '_pdf(%r)', v, atol=1e-9)
    for (p, l), k in zip(d.items(), labels):
        check(l == k and close(p, m[k], 0, 1e-9), 'items(): %r', (p, l))
    s = list(d.sorted())
    check(sorted(map(str, (l for _, l in s))) == sorted(map(str, labels)) and all(a[0] >= b[0] for a, b in zip(s, s[1:])) and
          all(close(p, m[l], 0, 1e-9) for p, l in s), 'sorted(): %r', s)
    for bad in (99, 'nope'):
        for q in (bad, [bad], {bad, labels[0]}):
            try:
                d.p(q)
            except (ValueError, TypeError):
                continue
            fail('a label outside of the domain was accepted: %r', q)


@subcheck('D02', 'history', history(), quick=6000, thorough=100000, shards=4, rule='three or more operations beyond construction, on two or more labels')
def run_history(ctx, case):
    dom = case['dom']
    T = mk_domain(dom)
    labels = dlabels(dom)
    n = len(labels)
    first = case['first'][:n]
    if not any(first):
        first = [1] * n
    pool = [(T().set(normw(first)), dict(zip(labels, normw(first))))]
    ctx.nontrivial(n > 1 and len(case['ops']) >= 3)
    ctx.label(dom['k'])
    for op, a, b, seq in case['ops']:
        d, m = pool[a % len(pool)]
        e, me = pool[b % len(pool)]
        inplace = None
        if op == 'set':
            w = [(i % 5) for i in seq[:n]] + [0] * (n - len(seq[:n]))
            if not any(w):
                w[0] = 1
            w = normw(w)
            if dom['k'] == 'bool' and a % 2:
                x, mx = T().set(w[1]), dict(zip(labels, [1 - w[1], w[1]]))
            else:
                x, mx = T().set(w), dict(zip(labels, w))
            for bad in (w + [0.], w[:-1]):
                if n > 1 and dom['k'] != 'bool':
                    try:
                        T().set(bad)
                    except ValueError:
                        continue
                    fail('a parameter vector of length %d was accepted', len(bad))
        elif op == 'fit':
            vals = [i % n for i in seq] or [0]
            data = np.zeros((len(vals) + 2, 3))
            col = a % 3
            rng = np.random.RandomState(b % 1000)
            data[:] = rng.randint(0, n, data.shape)
            rows = rng.permutation(len(vals) + 2)[:len(vals)].astype(np.int64)
            data[rows, col] = vals
            keep = data.copy()
            if dom['k'] == 'int' and a % 2:
                x = T().fit(data + dom['lo'], rows, col)
            else:
                x = T()._fit(data, rows, col)
            check((data == keep).all(), 'fitting modified the data')
            mx = {l: vals.count(i) / len(vals) for i, l in enumerate(labels)}
            y = T()._fit(np.array(vals, dtype=np.float64).reshape(-1, 1))
            same(y, mx, labels, 'fit on all rows')
        elif op in ('crop', 'crop1'):
            ev = [labels[i % n] for i in seq] if op == 'crop' else [labels[b % n]]
            tot = sum(m[l] for l in set(ev))
            kind = (set, list, tuple)[b % 3]
            q = kind(ev) if op == 'crop' else ev[0]
            if dom['k'] == 'sym' and isinstance(q, int) and not isinstance(labels[0], int):
                continue
            mx = None
            for call in (lambda: d.crop(q), lambda: d._crop(T.label2value(q))):
                if tot == 0:
                    try:
                        x = call()
                    except Unsatisfiability:
                        continue
                    fail('restriction of %r to %r without probability gives %r', d, q, x)
                x = call()
                mx = {l: (m[l] / tot if l in ev else 0.) for l in labels}
                same(x, mx, labels, 'restriction to %r' % (q,))
            if mx is None:
                same(d, m, labels, 'refused restriction')
                continue
        elif op == 'merge':
            k = 1 + a % 3
            comp = [pool[(a // 3 + i * (b % 5)) % len(pool)] for i in range(k)]
            w = normw([1 + (a // 7 + i) % 4 if i else a % 3 for i in range(k)]) if k > 1 else [1.]
            x = T.merge([c for c, _ in comp], w)
            mx = {l: sum(v * c[l] for v, (_, c) in zip(w, comp)) for l in labels}
            try:
                T.merge([c for c, _ in comp], [v * 1.1 for v in w])
            except ValueError:
                pass
            else:
                fail('weights that do not sum to one were accepted')
        elif op == 'update':
            w = [0., .25, .5, 1.][(a + b) % 4]
            if d is e:
                continue
            r = d.update(e, w)
            check(r is d, 'update does not return the distribution')
            m.update({l: m[l] * (1 - w) + me[l] * w for l in labels})
            x, mx = None, None
        elif op == 'copy':
            x, mx = d.copy(), dict(m)
            check(x == d and x is not d, 'a copy differs from its source')
        else:
            queries(d, m, labels, seq, T)
            x = None
        if x is not None:
            pool.append((x, mx))
            same(x, mx, labels, op)
            check(type(x) is T, 'type of the result of %s: %r', op, type(x))
        for y, my in pool:
            same(y, my, labels, 'after %s, %r' % (op, y))
    for y, my in pool[-2:]:
        queries(y, my, labels, case['ops'][0][3], T)


@subcheck('D02', 'refit', st.fixed_dictionaries({'dom': domain(), 'a': st.lists(st.integers(0, 7), min_size=1, max_size=10), 'b': st.lists(st.integers(0, 7), min_size=1, max_size=10)}),
          quick=1500, thorough=20000, shards=1, rule='both samples have two or more distinct values')
def refit(ctx, case):
    """updating with the share of the new data is the same as fitting to all data"""
    T = mk_domain(case['dom'])
    n = len(dlabels(case['dom']))
    a, b = [i % n for i in case['a']], [i % n for i in case['b']]
    ctx.nontrivial(len(set(a)) > 1 and len(set(b)) > 1)
    f = lambda v: T()._fit(np.array(v, dtype=np.float64).reshape(-1, 1))
    d = f(a).update(f(b), len(b) / (len(a) + len(b)))
    for x, y in zip(d.probabilities, f(a + b).probabilities):
        check_close(x, y, 'updated vs. refitted', atol=1e-9)
    m = T.merge([f(a), f(b)], [len(a) / (len(a) + len(b)), len(b) / (len(a) + len(b))])
    for x, y in zip(m.probabilities, f(a + b).probabilities):
        check_close(x, y, 'merged vs. refitted', atol=1e-9)


@subcheck('D02', 'types', st.fixed_dictionaries({'a': domain(), 'b': domain()}), quick=800, thorough=5000, shards=1, rule='different domains')
def types(ctx, case):
    """distributions over different domains are not equal and cannot be merged; illegal domains are refused"""
    A, B = mk_domain(case['a'], 'X'), mk_domain(case['b'], 'X')
    la, lb = dlabels(case['a']), dlabels(case['b'])
    same_dom = case['a'] == case['b']
    ctx.nontrivial(not same_dom)
    check(A.equiv(B) == same_dom and B.equiv(A) == same_dom, 'equivalence of %r and %r', case['a'], case['b'])
    da, db = A().set([1. / len(la)] * len(la)), B().set([1. / len(lb)] * len(lb))
    if same_dom:
        check(da == db, 'equal distributions compare unequal')
    else:
        if issubclass(A, Multinomial) == issubclass(B, Multinomial):
            check(not da == db, 'distributions over different domains compare equal: %r %r', la, lb)
        try:
            A.merge([da, db], [.5, .5])
        except TypeError:
            pass
        else:
            fail('distributions over %r and %r were merged', la, lb)
    if case['a']['k'] == 'sym':
        from jpt.distributions.univariate import SymbolicType
        for bad in (la + la[:1], []):
            try:
                SymbolicType('Y', bad)
            except ValueError:
                continue
            fail('labels %r were accepted', bad)
    elif case['a']['k'] == 'int':
        from jpt.distributions.univariate import IntegerType
        try:
            IntegerType('Y', 2, 1)
        except ValueError:
            pass
        else:
            fail('an empty integer domain was accepted')


@subcheck('D02', 'assign', st.fixed_dictionaries({'w': st.lists(st.integers(0, 9), min_size=2, max_size=6), 'i': st.integers(0, 5), 'p': st.integers(0, 16).map(lambda k: k / 16), 'bool': st.booleans()}), quick=1500, thorough=10000,
          rule='a probability strictly between 0 and 1')
def assign(ctx, case):
    """setting the probability of one label"""
    from jpt.distributions.univariate import Bool, SymbolicType
    w, p = case['w'], case['p']
    if not sum(w):
        raise Skip()
    ctx.nontrivial(0 < p < 1)
    if case['bool']:
        v = bool(case['i'] % 2)
        d = Bool().set(w[0] / (sum(w[:2]) or 1))
        d[v] = p
        for q in (d, d.copy()):
            check_close(q.p(v), p, 'P(%r)', v)
            check_close(q.p(not v), 1 - p, 'P(not %r)', v)
            check_close(q.p({True, False}), 1., 'P(anything)')
        return
    T = SymbolicType('T', ['l%d' % k for k in range(len(w))])
    ps = [k / sum(w) for k in w]
    d = T().set(ps)
    i = case['i'] % len(w)
    # swap the probabilities of two labels
    j = (i + 1) % len(w)
    d['l%d' % i] = ps[j]
    d['l%d' % j] = ps[i]
    ps[i], ps[j] = ps[j], ps[i]
    for k, x in enumerate(ps):
        check_close(d.p('l%d' % k), x, 'P(l%d)', k)
