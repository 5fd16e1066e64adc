"""T01: a learned tree is a correct partition of its training data."""
import numpy as np
from hypothesis import strategies as st

from vp.core import Skip, check, check_close, close, fail, subcheck
from vp.dists import cprobes
from vp.jpts import *
from vp.props.i05 import as_ivs, constraints
from vp.props.t02 import t2spec

ASSUMPTIONS = ['How a univariate distribution is fitted to given values is Q01/D01; here the distributions of a tree are compared with direct fits to the rows they stand for.',
               'Gaps between neighbouring leaves are closed as documented: mass 1/(2n) of a leaf is spread over the gaps to the borders of its region.']


def leaves_in_order(jpt):
    """[(leaf, depth, [(variable, split) ...])] by walking down from the root"""
    from jpt.trees import Leaf
    out, inner, todo = [], [], [(jpt.root, 0, [])]
    while todo:
        node, depth, path = todo.pop()
        if isinstance(node, Leaf):
            out.append((node, depth, path))
            continue
        inner.append((node, depth))
        check(len(node.children) == len(node.splits) == 2, 'inner node %s has %s children and %s splits', node.idx, len(node.children), len(node.splits))
        for c, s in zip(node.children, node.splits):
            check(c.parent is node, 'child %s of node %s has another parent', c.idx, node.idx)
            todo.append((c, depth + 1, path + [(node.variable, s)]))
    return out, inner


def inside(x, var, s):
    if not var.numeric:
        return x in s
    return any((a < x or a == x and l == INC) and (x < b or x == b and r == INC) for a, b, l, r in as_ivs(s))


def columns(jpt, rows):
    """value space matrix"""
    return [[v.domain.label2value(x) for v, x in zip(jpt.variables, r)] for r in rows]


def check_structure(jpt, spec, rows):
    """partition of rows and input space, counters, limits; -> [(leaf, row numbers)]"""
    h = spec.get('hp', {})
    X = columns(jpt, rows)
    n = len(rows)
    leaves, inner = leaves_in_order(jpt)
    check({l.idx for l, _, _ in leaves} == set(jpt.leaves) and all(jpt.leaves[l.idx] is l for l, _, _ in leaves), 'leaves of the tree %s, registered leaves %s', sorted(l.idx for l, _, _ in leaves), sorted(jpt.leaves))
    check({m.idx for m, _ in inner} == set(jpt.innernodes) and all(jpt.innernodes[m.idx] is m for m, _ in inner), 'inner nodes of the tree and registered ones differ')
    check(not set(jpt.leaves) & set(jpt.innernodes), 'a leaf and an inner node have the same number')
    pos = {v.name: i for i, v in enumerate(jpt.variables)}
    region = {}
    for l, d, path in leaves:
        region[l.idx] = path
        check({v.name for v, _ in path} == {v.name for v in l.path}, 'path of leaf %s: %s, constraints above it: %s', l.idx, l.path, path)
        check(l.depth() == d, 'depth of leaf %s is %s, %s', l.idx, l.depth(), d)
    home = {l.idx: [] for l, _, _ in leaves}
    for i, x in enumerate(X):
        on = [l.idx for l, _, path in leaves if all(inside(x[pos[v.name]], v, s) for v, s in path)]
        check(len(on) == 1, 'row %s lies in the regions of leaves %s', rows[i], on)
        l = jpt.leaves[on[0]]
        check(all(inside(x[pos[v.name]], v, s) for v, s in l.path.items()), 'path of leaf %s (%s) excludes its row %s', l.idx, l.path, rows[i])
        home[on[0]].append(i)
    m = h.get('msl', 1)
    msl = max(1, int(m * n)) if isinstance(m, float) else m
    for l, d, _ in leaves:
        k = len(home[l.idx])
        check(l.samples == k, 'leaf %s claims %s samples, it has %s', l.idx, l.samples, k)
        check_close(l.prior, k / n, 'prior of leaf %s with %s of %s rows', l.idx, k, n, rtol=1e-12)
        check(k >= msl or len(leaves) == 1, 'leaf %s has %s rows, required: %s', l.idx, k, msl)
        check(not h.get('depth') or d <= h['depth'], 'leaf %s in depth %s, limit %s', l.idx, d, h.get('depth'))
        if l.s_indices is not None and len(l.s_indices):
            check(sorted(int(i) for i in l.s_indices) == home[l.idx], 'samples kept in leaf %s: %s, its rows: %s', l.idx, sorted(l.s_indices), home[l.idx])
    check_close(sum(l.prior for l, _, _ in leaves), 1., 'sum of the priors', rtol=1e-9)
    check(jpt.total_samples() == n, 'total samples %s of %s rows', jpt.total_samples(), n)
    depth = max((d for _, d, _ in leaves), default=0)
    check(jpt.depth() == depth, 'depth() is %s, the deepest leaf is in depth %s', jpt.depth(), depth)
    nv = len(jpt.variables)
    feats = set(h.get('features') or ([i for i in range(nv) if i not in h['targets']] if h.get('targets') else range(nv)))
    for node, d in inner:
        check(pos[node.variable.name] in feats, 'split by %s, which is no feature', node.variable)
        below = [l.idx for l, _, path in leaves if node in ancestors(l)]
        check(node.samples == sum(len(home[i]) for i in below), 'inner node %s claims %s samples', node.idx, node.samples)
        a, b = node.splits
        if node.variable.numeric:
            (p,), (q,) = as_ivs(a), as_ivs(b)
            check(p[0] == -INF and q[1] == INF and p[1] == q[0] and p[3] != q[2], 'splits %s, %s of node %s do not partition the line', a, b, node.idx)
        else:
            check(not set(a) & set(b) and set(a) | set(b) == set(range(node.variable.domain.n_values)), 'splits %s, %s of node %s do not partition the domain', a, b, node.idx)
    return [(l, path, home[l.idx]) for l, _, path in leaves], X


def ancestors(node):
    out = []
    while node.parent is not None:
        node = node.parent
        out.append(node)
    return out


def fits(a, b, what, *args):
    """two numeric distributions are the same"""
    p, q = read_plf(a.cdf), read_plf(b.cdf)
    for x in cprobes(p, q):
        check_close(peval(p, x), peval(q, x), (what + ' at %r') % (args + (x,)), rtol=1e-9, atol=1e-9)


def gap_cdf(base, lo, up, n):
    """reference of a fitted distribution with the gaps to the region (lo, up) closed: function and probes"""
    a, b = base[0][1], base[-1][0]
    gl, gr = (lo if -INF < lo < a else None), (up if b < up < INF else None)
    if len(base) == 2:                             # a single value becomes uniform up to the borders
        s, e = a if gl is None else gl, b if gr is None else gr
        if not e > s:
            return None
        return lambda x: min(1., max(0., (x - s) / (e - s)))
    gaps = [g for g in ((gl, a) if gl is not None else None, (b, gr) if gr is not None else None) if g]
    if not gaps:
        return None
    w = 1. / (2 * n)
    return lambda x: (1 - w) * peval(base, x) + w * sum(min(1., max(0., (x - s) / (e - s))) for s, e in gaps) / len(gaps)


@subcheck('T01', 'partition', t2spec(min_vars=1, max_vars=5, min_rows=1, max_rows=60), quick=6000, thorough=80000, shards=5, rule='three or more leaves')
def partition(ctx, case):
    """rows and input space are partitioned, distributions are fitted to the rows of the leaves"""
    from jpt.trees import JPT
    if not well_spaced(case):
        raise Skip()
    rows = rows_of(case)
    jpt = new_jpt(case)
    ccg = case['hp']['ccg']
    check(jpt.learn(rows=[list(r) for r in rows], keep_samples=True, close_convex_gaps=ccg) is jpt, 'learn() does not return the model')
    ls, X = check_structure(jpt, case, rows)
    ctx.nontrivial(len(ls) > 2)
    A = np.array(X, dtype=np.float64)
    for i, v in enumerate(jpt.variables):
        every = [(jpt.priors[v], list(range(len(rows))), [], 'prior')] + [(l.distributions[v], idx, path, 'leaf %s' % l.idx) for l, path, idx in ls]
        for d, idx, path, what in every:
            check(type(d) is type(v.distribution()), '%s: distribution of %s is a %s', what, v, type(d).__name__)
            if not v.numeric:
                p = np.bincount(A[idx, i].astype(int), minlength=v.domain.n_values) / len(idx)
                check(np.allclose(d.probabilities, p, rtol=1e-9, atol=1e-12), '%s: probabilities of %s are %s, frequencies %s', what, v, list(d.probabilities), list(p))
                continue
            direct = v.distribution()._fit(data=A, rows=np.array(idx, dtype=np.int64), col=i)
            lo, up = max([-INF] + [as_ivs(s)[0][0] for w, s in path if w is v]), min([INF] + [as_ivs(s)[-1][1] for w, s in path if w is v])
            ref = gap_cdf(read_plf(direct.cdf), lo, up, len(rows)) if ccg and any(w is v for w, _ in path) else None
            if ref is None:
                fits(d, direct, '%s: distribution of %s differs from a fit to the rows %s,' % (what, v, [rows[k][i] for k in idx]))
                continue
            p = read_plf(d.cdf)
            base = read_plf(direct.cdf)
            for x in cprobes(p, base):
                if abs(x) != INF and (len(base) > 2 and any(abs(x - j) < 1e-9 * max(1, abs(j)) for j in (base[0][1], base[-1][0]))):
                    continue                       # jumps at the ends of the samples
                check_close(peval(p, x), ref(x), '%s: distribution of %s with its gaps closed (fit to %s, region %s to %s) at %r', what, v, [rows[k][i] for k in idx], lo, up, x, rtol=1e-6, atol=1e-6)
            if not (lo == -INF and up == INF):
                check(p[0][1] >= lo - 1e-9 * max(1, abs(lo)) if lo != -INF else True, '%s: %s has support below its region', what, v)
                check(p[-1][0] <= up + 1e-9 * max(1, abs(up)) if up != INF else True, '%s: %s has support above its region', what, v)
        if v.numeric:
            u = np.unique(A[:, i])
            check_close(jpt.minimal_distances[v], np.diff(u).min() if len(u) > 1 else 2., 'minimal distance of %s', v, rtol=1e-9)


SP = st.fixed_dictionaries(dict(m=t2spec(min_vars=1, max_vars=4, min_rows=4, max_rows=30), pts=st.integers(0, 2 ** 20)))


@subcheck('T01', 'space', SP, quick=4000, thorough=40000, shards=3, rule='three or more leaves')
def space(ctx, case):
    """every point of the input space, seen or unseen, lies in the region of exactly one leaf"""
    m = case['m']
    jpt = mk_jpt(m)
    leaves, inner = leaves_in_order(jpt)
    ctx.nontrivial(len(leaves) > 2)
    rng = np.random.RandomState(case['pts'])
    cuts = {}
    for node, _ in inner:
        if node.variable.numeric:
            cuts.setdefault(node.variable.name, []).append(as_ivs(node.splits[0])[0][1])
    for _ in range(20):
        x = {}
        for v in jpt.variables:
            if v.numeric:
                c = cuts.get(v.name, [0.])[rng.randint(len(cuts.get(v.name, [0.])))]
                x[v.name] = float([c, np.nextafter(c, -INF), np.nextafter(c, INF), c + rng.randn(), rng.randn() * 100, 1e300, -1e300][rng.randint(7)])
            else:
                x[v.name] = int(rng.randint(v.domain.n_values))
        on = [l.idx for l, _, path in leaves if all(inside(x[v.name], v, s) for v, s in path)]
        check(len(on) == 1, 'the point %s lies in the regions of leaves %s', x, on)
        by_path = [l.idx for l in jpt.leaves.values() if all(inside(x[v.name], v, s) for v, s in l.path.items())]
        check(by_path == on, 'the point %s lies in leaf %s, on the path of leaves %s', x, on, by_path)


@st.composite
def neighbours(draw):
    """values that are hardly different"""
    s = draw(jptspec(1, 2, ('num', 'num', 'sym'), 2, 12))
    base = draw(st.sampled_from([.1, .3, 1., -1., 1e6, -.7, 123.456]))
    for i, v in enumerate(s['vars']):
        if isnum(v):
            for r in s['rows']:
                x = base
                for _ in range(draw(st.integers(0, 3))):
                    x = float(np.nextafter(x, INF))
                r[i] = x if draw(st.integers(0, 3)) else base + draw(st.integers(-2, 2))
    return s


@subcheck('T01', 'neighbours', neighbours(), quick=4000, thorough=40000, shards=3, rule='a split between neighbouring floating point numbers')
def close_values(ctx, case):
    """learning from values that differ in the last digits only (as rounding produces them)"""
    rows = rows_of(case)
    jpt = new_jpt(case)
    jpt.learn(rows=[list(r) for r in rows], keep_samples=True, close_convex_gaps=case['hp'].get('ccg', True))
    ls, X = check_structure(jpt, case, rows)
    for node in jpt.innernodes.values():
        if node.variable.numeric:
            c = as_ivs(node.splits[0])[0][1]
            i = jpt.variables.index(node.variable)
            ctx.nontrivial(any(0 < abs(r[i] - c) < 1e-9 for r in X))
    code = jpt.encode([list(r) for r in rows])
    for l, _, idx in ls:
        check(all(code[i] == l.idx for i in idx), 'encoding of the rows of leaf %s', l.idx)
