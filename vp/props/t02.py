"""T02: every split is the best admissible one."""
import numpy as np
from hypothesis import strategies as st

from vp.core import Skip, check, check_close, close, fail, subcheck
from vp.jpts import *

ASSUMPTIONS = ['The improvements of several numeric targets are combined with the weights the code uses (1, 1/2, ... accumulated; see the listed finding), not by their mean.',
               'Splits whose improvements differ by less than 1e-9 count as equally good.']
EPS = 1e-9


def admissible(sv, col):
    """all splits of rows by one variable: boolean masks of the left sides"""
    u = np.unique(col)
    if len(u) < 2:
        return
    if sv['k'] in ('sym', 'bool'):
        for x in u:
            yield col == x
    else:
        for x in u[1:]:
            yield col < x


class Score:
    def __init__(self, spec, data, use_mean=False):
        self.spec, self.X, self.use_mean = spec, data, use_mean
        vs = spec['vars']
        h = spec.get('hp', {})
        n = len(vs)
        self.targets = sorted(h.get('targets') or range(n))
        self.features = sorted(h.get('features') or ([i for i in range(n) if i not in self.targets] if h.get('targets') else range(n)))
        deps = h.get('deps')
        self.deps = {f: (deps[str(f)] if deps else self.targets) for f in self.features}
        self.issym = [v['k'] in ('sym', 'bool') for v in vs]
        self.wnum = sum(not self.issym[t] for t in self.targets) / len(self.targets)

    def gini(self, t, rows):
        v = self.spec['vars'][t]
        k = nsym(v)
        if k == 1:
            return 0.
        p = np.bincount(self.X[rows, t].astype(int), minlength=k) / len(rows)
        g = (1 - (p ** 2).sum()) / (1 - 1. / k)
        return 1 - g if v.get('set', {}).get('invert_impurity') else g

    def __call__(self, f, rows, left):
        L, R = rows[left], rows[~left]
        wl, wr = len(L) / len(rows), len(R) / len(rows)
        s, n = 0., 0
        nums = [t for t in self.targets if not self.issym[t] and t != f]
        rel = []
        for t in nums:
            if t not in self.deps[f] or len(np.unique(self.X[rows, t])) == 1:
                continue
            c = self.X[:, t]
            v = np.var(c[rows])
            rel.append(1 - (wl * np.var(c[L]) + wr * np.var(c[R])) / v)
        if self.use_mean:
            s = np.mean(rel) if rel else 0.
        else:
            for i, r in enumerate(rel):
                s = s * i + r / (i + 1)
        s *= self.wnum
        syms = [t for t in self.targets if self.issym[t] and t in self.deps[f]]
        if syms:
            g = np.mean([self.gini(t, rows) for t in syms])
            if g > 1e-12:
                s += (1 - self.wnum) * (1 - (wl * np.mean([self.gini(t, L) for t in syms]) + wr * np.mean([self.gini(t, R) for t in syms])) / g)
        return s

    def best(self, rows, msl):
        b = (-INF, None, None)
        for f in self.features:
            for left in admissible(self.spec['vars'][f], self.X[rows, f]):
                if min(left.sum(), (~left).sum()) >= msl:
                    s = self(f, rows, left)
                    if s > b[0]:
                        b = (s, f, left)
        return b


@st.composite
def t2spec(draw, kinds=('num', 'num', 'scaled', 'int', 'sym', 'sym', 'bool'), min_vars=1, max_vars=4, min_rows=2, max_rows=25):
    s = draw(jptspec(min_vars, max_vars, kinds, min_rows, max_rows))
    n = len(s['vars'])
    for v in s['vars']:
        if v['k'] in ('sym', 'bool') and draw(st.integers(0, 5)) == 0:
            v['set'] = dict(invert_impurity=True)
    h = s['hp']
    h['mii'] = draw(st.sampled_from([None, 0., .05, .2, .4, .7]))
    if draw(st.integers(0, 3)) == 0:
        t = h.get('targets') or list(range(n))
        f = h.get('features') or ([i for i in range(n) if i not in t] if h.get('targets') else list(range(n)))
        h['deps'] = {str(i): sorted(draw(st.sets(st.sampled_from(t)))) for i in f}
    return s


def rows_below(node):
    from jpt.trees import Leaf
    if isinstance(node, Leaf):
        return [int(i) for i in node.s_indices]
    return [i for c in node.children for i in rows_below(c)]


def score_data(spec):
    """cells as numbers: labels of numeric and integer variables, indices of symbolic ones"""
    return np.array([[x + v['lo'] if v['k'] == 'int' else x for x, v in zip(r, spec['vars'])] for r in spec['rows']], dtype=float)


@subcheck('T02', 'large', t2spec(min_vars=2, max_vars=6, min_rows=20, max_rows=120), quick=1200, thorough=20000, shards=4, rule='at least one split of three or more rows')
def large(ctx, case):
    best(ctx, case)


@subcheck('T02', 'best', t2spec(min_vars=1), quick=8000, thorough=120000, shards=4, rule='at least one split of three or more rows')
def best(ctx, case):
    from jpt.trees import Leaf
    jpt = mk_jpt(case, keep_samples=True)
    X = score_data(case)
    sc = Score(case, X, ctx.finding)
    h = case['hp']
    m = h['msl']
    msl = max(1, int(m * len(X))) if isinstance(m, float) else m
    mii = h['mii'] or 0
    todo = [(jpt.root, 0)]
    while todo:
        node, depth = todo.pop()
        rows = np.array(sorted(rows_below(node)))
        g, f, _ = sc.best(rows, msl)
        if isinstance(node, Leaf):
            if h['depth'] and depth >= h['depth']:
                ctx.label('depth limit')
                continue
            check(g < mii + EPS, 'rows %s are not split, though variable %s improves by %r (required: %r)', list(rows), f, g, mii)
            ctx.label('leaf')
            continue
        check(not h['depth'] or depth < h['depth'], 'node at depth %s split', depth)
        var = jpt.variables.index(node.variable)
        check(var in sc.features, 'split by %s, which is no feature', node.variable)
        L = set(rows_below(node.children[0]))
        left = np.array([i in L for i in rows])
        col = X[rows, var]
        ok = any((a == left).all() or case['vars'][var]['k'] in ('sym', 'bool') and (a == ~left).all() for a in admissible(case['vars'][var], col))
        check(ok, 'rows %s, by %s: %s is no split of that variable', list(rows), node.variable, sorted(L))
        check(min(left.sum(), (~left).sum()) >= msl, 'leaf of less than %s samples', msl)
        s = sc(var, rows, left)
        check(s >= g - EPS, 'rows %s are split by %s, left %s, with an improvement of %r; best: variable %s with %r', list(rows), node.variable, sorted(L), s, f, g)
        check(g >= mii - EPS, 'split with an improvement of %r, required %r', g, mii)
        ctx.label('split')
        if len(rows) > 2:
            ctx.nontrivial()
        todo += [(c, depth + 1) for c in node.children]
