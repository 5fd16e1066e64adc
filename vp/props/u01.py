"""U01: utility containers and numeric helpers."""
import math
import random

import numpy as np
from hypothesis import strategies as st

from vp.core import check, check_close, fail, subcheck

ASSUMPTIONS = ['Items with equal keys leave the priority queue in insertion order (reverse insertion order with a negative increment).',
               'NaN is not sorted; weights are finite.',
               'Drawing is decided by the index the roulette wheel assigns to a position, not by the random generator.']

KEYS = {'id': lambda x: x[0], 'neg': lambda x: -x[0], 'abs': lambda x: abs(x[0]), 'const': lambda x: 0}


@st.composite
def heap_case(draw):
    item = st.integers(-4, 4)
    return dict(key=draw(st.sampled_from(list(KEYS))), inc=draw(st.sampled_from([1, 1, 1, -1, 2])), init=draw(st.lists(item, max_size=8)), form=draw(st.integers(0, 2)),
                ops=draw(st.lists(st.one_of(st.tuples(st.just('push'), item), st.tuples(st.just('pop'), st.just(0)), st.tuples(st.just('del'), st.integers(0, 30)),
                                            st.tuples(st.just('look'), st.integers(0, 30))).map(list), max_size=30)))


@subcheck('U01', 'heap', heap_case(), quick=6000, thorough=80000, shards=2, rule='three or more items popped while others have been pushed or deleted')
def heap(ctx, case):
    """any history of push/pop/delete: items leave in (key, insertion) order and exactly the pushed ones are there"""
    from jpt.base.utils import Heap
    key = KEYS[case['key']]
    n = 0
    model = []
    init = [(x, i) for i, x in enumerate(case['init'])]  # the second component tells equal items apart
    h = Heap(init if case['form'] == 0 else tuple(init) if case['form'] == 1 else None, key=key, inc=case['inc']) if init or case['form'] else Heap(key=key, inc=case['inc'])
    if case['form'] == 2:
        for x in init:
            h.push(x)
    model = list(init)
    n = len(init)
    order = lambda x: (key(x), x[1] if case['inc'] > 0 else -x[1])
    pops = mix = 0
    for op, a in case['ops'] + [['drain', 0]]:
        if op == 'push':
            h.push((a, n))
            model.append((a, n))
            n += 1
            mix += 1
        elif op == 'pop':
            if model:
                want = min(model, key=order)
                got = h.pop()
                check(got == want, 'popped %r, expected %r of %r', got, want, model)
                model.remove(want)
                pops += 1
            else:
                try:
                    r = h.pop()
                except IndexError:
                    pass
                else:
                    fail('popped %r from an empty queue', r)
        elif op == 'del':
            if model:
                item = h[a % len(model)]
                check(item in model, 'item %r at %d, expected one of %r', item, a, model)
                check(h.index(item) == a % len(model), 'index of item %d is %r', a % len(model), h.index(item))
                del h[a % len(model)]
                model.remove(item)
                mix += 1
        elif op == 'look':
            check(sorted(h) == sorted(model), 'content %r, expected %r', list(h), model)
            check(list(reversed(h)) == list(h)[::-1], 'reversed iteration %r of %r', list(reversed(h)), list(h))
            if model:
                check(h[0] == min(model, key=order), 'first item %r, expected %r', h[0], min(model, key=order))
            try:
                h.index((99, 99))
            except ValueError:
                pass
            else:
                fail('index of an item that is not in the queue')
        else:
            rest = [h.pop() for _ in range(len(h))]
            check(rest == sorted(model, key=order), 'the remaining items are %r, expected %r', rest, sorted(model, key=order))
            pops += len(rest)
            model = []
        check(len(h) == len(model) and bool(h) == bool(model), 'length %d, expected %d', len(h), len(model))
    ctx.nontrivial(pops > 2 and mix > 0)


def killer(n):
    """values on which median-of-three quicksort degenerates: an adversary (McIlroy 1999) answers the comparisons of a quicksort"""
    val, gas, st_ = {}, object(), dict(solid=0, cand=None)

    def less(a, b):
        if a not in val and b not in val:
            k = a if a == st_['cand'] else b
            val[k] = st_['solid']
            st_['solid'] += 1
        if a not in val:
            st_['cand'] = a
        elif b not in val:
            st_['cand'] = b
        return val.get(a, math.inf) < val.get(b, math.inf)

    def qs(x, lo, n, depth):
        while n > 1 and depth < 4 * n + 64:
            depth += 1
            a, b, c = x[lo], x[lo + n // 2], x[lo + n - 1]
            if less(a, b):
                p = b if less(b, c) else c if less(a, c) else a
            elif less(b, c):
                p = a if less(a, c) else c
            else:
                p = b
            i = l = 0
            r = n
            while i < r:
                e = x[lo + i]
                if e != p and less(e, p):
                    x[lo + i], x[lo + l] = x[lo + l], x[lo + i]
                    i += 1
                    l += 1
                elif e != p and less(p, e):
                    r -= 1
                    x[lo + i], x[lo + r] = x[lo + r], x[lo + i]
                else:
                    i += 1
            qs(x, lo, l, depth)
            lo += r
            n -= r
    qs(list(range(n)), 0, n, 0)
    return [float(val.get(i, n)) for i in range(n)]


@st.composite
def sort_case(draw):
    how = draw(st.sampled_from(['list', 'list', 'list', 'pattern', 'pattern', 'killer']))
    c = dict(how=how, part=draw(st.sampled_from([None, None, 0, 1, 2, 3])), seed=draw(st.integers(0, 999)))
    if how == 'list':
        c['x'] = draw(st.lists(st.one_of(st.integers(-3, 3), st.floats(allow_nan=False), st.sampled_from([math.inf, -math.inf, 0., 1e-300, 1e300])), min_size=1, max_size=60))
    else:
        c['n'] = draw(st.sampled_from([1, 2, 3, 5, 8, 16, 17, 31, 33, 64, 100, 200]))
        c['p'] = draw(st.sampled_from(['up', 'down', 'organ', 'saw', 'const', 'two', 'rand', 'inter']))
    return c


def pattern(c):
    n, p, r = c['n'], c['p'], random.Random(c['seed'])
    return {'up': lambda i: i, 'down': lambda i: -i, 'organ': lambda i: min(i, n - i), 'saw': lambda i: i % 7, 'const': lambda i: 3, 'two': lambda i: r.randint(0, 1),
            'rand': lambda i: r.random(), 'inter': lambda i: i if i % 2 else n + i}[p]


@subcheck('U01', 'sort', sort_case(), quick=6000, thorough=80000, shards=2, rule='ten or more values that are not sorted already')
def sort(ctx, case):
    """the array becomes ascending, the index array follows it, elements behind the sorted part stay"""
    from jpt.base.cutils import test_sort as csort
    x = case['x'] if case['how'] == 'list' else [pattern(case)(i) for i in range(case['n'])] if case['how'] == 'pattern' else killer(case['n'])
    x = np.array(x, dtype=np.float64)
    n = len(x) if case['part'] is None else max(1, len(x) * case['part'] // 3)
    idx = np.array(random.Random(case['seed']).sample(range(1000), len(x)), dtype=np.int64)
    of = {int(i): v for i, v in zip(idx, x)}
    a, b = x.copy(), idx.copy()
    csort(a, b, n) if case['part'] is not None else csort(a, b)
    ctx.nontrivial(n > 9 and bool(np.any(np.diff(x[:n]) < 0)))
    ctx.label(case['how'])
    check(a[:n].tolist() == sorted(x[:n].tolist()), 'sorting the first %d of %r gives %r', n, x.tolist(), a.tolist())
    check(a[n:].tolist() == x[n:].tolist() and b[n:].tolist() == idx[n:].tolist(), 'elements behind position %d of %r have changed: %r', n, x.tolist(), a.tolist())
    check(sorted(b.tolist()) == sorted(idx.tolist()), 'the indices %r have become %r', idx.tolist(), b.tolist())
    check(all(of[int(i)] == v for i, v in zip(b, a)), 'the indices %r do not follow the values: %r', b.tolist(), a.tolist())


WEIGHT = st.one_of(st.sampled_from([0, 0, 0., 1, 1., 2, .5, 1e-9, 1e9, 3]), st.floats(0, 100).map(lambda x: round(x, 6)))


@st.composite
def norm_case(draw):
    return dict(w=draw(st.lists(WEIGHT, min_size=1, max_size=8)), sign=draw(st.lists(st.sampled_from([1, 1, -1]), min_size=8, max_size=8)), neg=draw(st.booleans()),
                form=draw(st.sampled_from(['list', 'dict', 'array', 'iarray'])), zeros=draw(st.sampled_from([0., 0., .1, .5, 1.])), ident=draw(st.booleans()))


@subcheck('U01', 'normalized', norm_case(), quick=5000, thorough=60000, rule='two or more different positive weights')
def normalized(ctx, case):
    """sum one, same proportions, sign and form of the input kept, zeros replaced as asked; improper inputs refused; input untouched"""
    from jpt.base.utils import normalized
    w = [x * s for x, s in zip(case['w'], case['sign'])] if case['neg'] else list(case['w'])
    f = case['form']
    if f == 'iarray':
        w = [int(x) for x in w]
    arg = dict(zip('abcdefgh', w)) if f == 'dict' else np.array(w, dtype=np.int64 if f == 'iarray' else np.float64) if 'array' in f else list(w)
    keep = dict(arg) if f == 'dict' else list(arg)
    kw = dict(allow_neg=case['neg'], zeros=case['zeros'], identity_on_zeros=case['ident'])
    out = lambda r: list(r.values()) if f == 'dict' else [float(x) for x in r]
    ctx.nontrivial(len({abs(x) for x in w if x}) > 1)
    if not any(w):
        if case['ident']:
            check(out(normalized(arg, **kw)) == w, 'all zero: %r', normalized(arg, **kw))
            return
        try:
            r = normalized(arg, **kw)
        except ValueError:
            return
        fail('normalising %r gives %r', w, r)
    r = normalized(arg, **kw)
    check(type(r) is type(arg), 'normalising a %s gives a %s', type(arg).__name__, type(r).__name__)
    check((dict(arg) if f == 'dict' else list(arg)) == keep, 'the input has been modified')
    check(f != 'dict' or list(r) == list(arg), 'keys %r', r)
    r = out(r)
    check_close(sum(abs(x) for x in r), 1, 'sum of absolute values of %r', r, rtol=1e-9)
    m = [abs(x) for x in w]
    if case['zeros']:
        lo = min(x for x in m if x) * case['zeros']
        m = [x or lo for x in m]
    for x, a, b in zip(w, m, r):
        check_close(abs(b), a / sum(m), 'normalising %r with %r gives %r', w, kw, r, rtol=1e-9, atol=1e-15)
        check(x == 0 or b == 0 or (x > 0) == (b > 0), 'signs of %r: %r', w, r)
    if any(x < 0 for x in w):
        try:
            r = normalized(arg, allow_neg=False)
        except ValueError:
            return
        fail('negative weights %r accepted: %r', w, r)


@subcheck('U01', 'wheel', st.fixed_dictionaries({'w': st.lists(WEIGHT, min_size=1, max_size=8), 'norm': st.booleans(), 'u': st.lists(st.floats(0, 1), min_size=1, max_size=6),
                                                 'n': st.integers(0, 6)}), quick=4000, thorough=40000, rule='two or more positive weights')
def wheel(ctx, case):
    """roulette wheel: each position belongs to the element whose cumulative share covers it; only elements of positive weight are drawn"""
    from jpt.base.sampling import RouletteWheelSampler, wchoice, wchoiced, wchoicei, wsample, wsamplei
    w = case['w']
    el = ['e%d' % i for i in range(len(w))]
    t = sum(w)
    if not t:
        return
    ctx.nontrivial(sum(x > 0 for x in w) > 1)
    s = RouletteWheelSampler(el, list(w), normalize=case['norm'])
    scale = 1 if case['norm'] else t
    b = np.cumsum(w) / t
    for u in case['u']:
        u = min(u, 1 - 1e-9)
        i = s.index(u * scale)
        check(w[i] > 0, 'position %r of weights %r is assigned to an element of weight zero', u, w)
        check((b[i - 1] if i else 0) - 1e-9 <= u <= b[i] + 1e-9, 'position %r of weights %r is assigned to element %d', u, w, i)
        check(s[u * scale] == el[i], 'element %r at position %r', s[u * scale], u)
    for bad in (-.1, scale * 1.01):
        try:
            r = s.index(bad)
        except IndexError:
            continue
        fail('position %r accepted: %r', bad, r)
    random.seed(1)
    pos = {e for e, x in zip(el, w) if x > 0}
    k = case['n']
    for r in (wsample(el, w, k), s.sample(k)):
        check(len(r) == k and set(r) <= pos, 'sample of %d: %r', k, r)
    r = wsamplei(el, w, k)
    check(len(r) == k and all(e in pos and el[i] == e for e, i in r), 'indexed sample of %d: %r', k, r)
    e, i = wchoicei(el, w)
    check(wchoice(el, w) in pos and wchoiced(dict(zip(el, w))) in pos and e in pos and el[i] == e, 'choices from %r', w)
    try:
        RouletteWheelSampler(el, list(w) + [1])
    except ValueError:
        return
    fail('elements and weights of different length accepted')


@subcheck('U01', 'format', st.fixed_dictionaries({'s': st.lists(st.integers(-12, 25), min_size=0, max_size=14), 'lim': st.integers(0, 9), 'lo': st.integers(-20, 20), 'w': st.integers(0, 9),
                                                  'x': st.tuples(st.floats(-9, 9), st.integers(0, 5), st.floats(-9, 9), st.integers(0, 5)).map(list),
                                                  'p': st.lists(WEIGHT, min_size=1, max_size=6), 'num': st.integers(1, 12)}),
          quick=4000, thorough=40000, rule='a set of four or more numbers, some of them consecutive')
def formatting(ctx, case):
    """formatted integer sets parse back; truncation; interval and set conversion; entropy and impurity; equally spaced samples"""
    from jpt.base.cutils import linspace
    from jpt.base.utils import entropy, gini, list2interval, list2intset, list2set, mapstr, max_entropy, pairwise, prod, rel_entropy, setstr, setstr_int
    xs, lim = case['s'], case['lim']
    s = set(xs)
    ctx.nontrivial(len(s) > 3 and any(x + 1 in s and x + 2 in s for x in s))
    got = set()
    txt = setstr_int(s)
    for part in txt.split(', ') if txt else []:
        a, _, b = part.partition('...')
        got |= set(range(int(a), int(b or a) + 1))
    check(got == s, '%r is formatted as %s', sorted(s), txt)
    check(mapstr(xs) == [str(x) for x in xs] and mapstr(xs, fmt=lambda e: '<%s>' % e) == ['<%s>' % x for x in xs], 'mapstr of %r', xs)
    r = mapstr(xs, limit=lim)
    full = [str(x) for x in xs]
    if not lim or lim >= len(xs):
        check(r == full, 'mapstr(%r, limit=%d) = %r', xs, lim, r)
    else:
        i = r.index('...')
        head, tail = r[:i], r[i + 1:]
        check(len(head) + len(tail) <= lim and head and head == full[:len(head)] and tail == full[len(full) - len(tail):], 'mapstr(%r, limit=%d) = %r', xs, lim, r)
    check(setstr(xs, limit=lim, sep=';') == ';'.join(r), 'setstr')
    check(list(pairwise(iter(xs))) == list(zip(xs, xs[1:])), 'pairwise %r', xs)
    lo, hi = case['lo'], case['lo'] + case['w']
    check(list2intset([lo, hi]) == {i for i in range(-60, 60) if lo <= i <= hi}, 'list2intset(%r)', [lo, hi])
    check(list2set(full) == set(full), 'list2set')
    for bad in ([], [1], [1, 2, 3]):
        try:
            list2intset(bad)
        except ValueError:
            continue
        fail('list2intset(%r)', bad)
    a, ka, b, kb = case['x']
    a, b = min(a, b), max(a, b)
    lo = (a, -math.inf, None, ..., a, a)[ka]
    hi = (b, math.inf, None, ..., b, b)[kb]
    i = list2interval([lo, hi])
    check((i.lower, i.upper) == (-math.inf if ka in (1, 2, 3) else a, math.inf if kb in (1, 2, 3) else b), 'list2interval(%r) = %s', [lo, hi], i)
    check((math.isinf(i.lower) or i.contains_value(i.lower)) and (math.isinf(i.upper) or i.contains_value(i.upper)), 'list2interval(%r) = %s', [lo, hi], i)
    p = [x / sum(case['p']) for x in case['p']] if sum(case['p']) else None
    if p:
        h = -sum(x * math.log2(x) for x in p if x)
        check_close(entropy(p), h, 'entropy of %r', p, rtol=1e-9, atol=1e-12)
        check_close(entropy(dict(enumerate(p))), h, 'entropy of %r', p, rtol=1e-9, atol=1e-12)
        check_close(max_entropy(len(p)), math.log2(len(p)), 'maximal entropy of %d', len(p), rtol=1e-9, atol=1e-12)
        check_close(rel_entropy(p), h / math.log2(len(p)) if len(p) > 1 else 0, 'relative entropy of %r', p, rtol=1e-9, atol=1e-12)
        check_close(gini(p), sum(x * (1 - x) for x in p) / len(p), 'gini of %r', p, rtol=1e-9, atol=1e-12)
        check_close(prod(p), np.prod(p), 'product of %r', p, rtol=1e-9, atol=1e-300)
    n = case['num']
    g = np.asarray(linspace(a, b, n)).tolist()
    check(len(g) == n and np.allclose(g, np.linspace(a, b, n) if n > 1 else [(a + b) / 2], atol=1e-12), 'linspace(%r, %r, %d) = %r', a, b, n, g)
