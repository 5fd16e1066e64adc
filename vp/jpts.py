"""Generated joint probability trees, events over them, and the leaf-mixture reference model."""
import json

import numpy as np
from hypothesis import strategies as st

from vp.core import Skip, check
from vp.dists import jumps, left_limit, mass_of, set_mass
from vp.plf import peval, poly, read_plf
from vp.sets import EXC, INC, INF

SYMLABELS = [['A', 'B'], ['A', 'B', 'C'], ['lo', 'mid', 'hi', 'top'], ['only'], [3, 1, 2]]


@st.composite
def varspec(draw, kinds=('num', 'num', 'scaled', 'int', 'sym', 'sym', 'bool')):
    k = draw(st.sampled_from(kinds))
    v = dict(k=k)
    if k == 'int':
        v['lo'] = draw(st.integers(-4, 4))
        v['hi'] = v['lo'] + draw(st.integers(0, 6))
    elif k == 'sym':
        v['labels'] = draw(st.sampled_from(SYMLABELS))
    if k in ('num', 'scaled'):
        v['prec'] = draw(st.sampled_from([None, None, .05, .2, 0.]))
    return v


def nsym(v):
    return {'int': lambda: v['hi'] - v['lo'] + 1, 'sym': lambda: len(v['labels']), 'bool': lambda: 2}[v['k']]()


def labels_of(v):
    return list(range(v['lo'], v['hi'] + 1)) if v['k'] == 'int' else v['labels'] if v['k'] == 'sym' else [False, True]


def isnum(v):
    return v['k'] in ('num', 'scaled')


@st.composite
def rowspec(draw, vs, min_rows=1, max_rows=30):
    """rows of labels: numeric cells are numbers, discrete ones indices of labels"""
    n = draw(st.integers(min_rows, max_rows))
    kind = draw(st.sampled_from(['list', 'cluster', 'cluster', 'rand']))
    grid = draw(st.sampled_from([1., 1., .5, .25, 10.]))
    if kind == 'list':
        n = min(n, max(min_rows, 10))
        return [[draw(st.integers(-4, 8)) * grid if isnum(v) else draw(st.integers(0, nsym(v) - 1)) for v in vs] for _ in range(n)]
    rng = np.random.RandomState(draw(st.integers(0, 2 ** 20)))
    k = draw(st.integers(1, 4))
    cl = rng.randint(0, k, n)
    ties = draw(st.booleans())
    out = []
    cent = [[rng.randint(-8, 9) if isnum(v) else rng.randint(0, nsym(v)) for v in vs] for _ in range(k)]
    for c in cl:
        row = []
        for j, v in enumerate(vs):
            if isnum(v):
                x = (cent[c][j] if kind == 'cluster' else 0) + (rng.randint(-2, 3) / 2 if ties else round(float(rng.randn()) * 1.5, 2))
                row.append(float(x) * grid)
            else:
                row.append(int(cent[c][j] if kind == 'cluster' and rng.rand() < .8 else rng.randint(0, nsym(v))))
        out.append(row)
    return out


@st.composite
def jptspec(draw, min_vars=1, max_vars=4, kinds=('num', 'num', 'scaled', 'int', 'sym', 'sym', 'bool'), min_rows=1, max_rows=30, hp=True, disc=True):
    vs = draw(st.lists(varspec(kinds), min_size=min_vars, max_size=max_vars))
    s = dict(vars=vs, rows=draw(rowspec(vs, min_rows, max_rows)), hp={})
    if hp:
        h = dict(msl=draw(st.sampled_from([1, 1, 2, 3, 5, 8, .1, .3])), mii=draw(st.sampled_from([None, None, 0., .05, .2])), depth=draw(st.sampled_from([None, None, None, 1, 2, 4])),
                 ccg=draw(st.booleans()))
        if disc and len(vs) > 1 and draw(st.integers(0, 3)) == 0:
            h['targets'] = sorted(draw(st.sets(st.integers(0, len(vs) - 1), min_size=1, max_size=len(vs) - 1)))
            if draw(st.booleans()):
                h['features'] = sorted(draw(st.sets(st.integers(0, len(vs) - 1), min_size=1)))
        s['hp'] = h
    return s


# mostly several variables and leaves, some degenerate
MODELS = st.one_of(jptspec(min_vars=2, min_rows=5), jptspec(min_vars=2, min_rows=8), jptspec())


def vname(i, v):
    return '%s%d' % (v['k'][0], i)


def mk_vars(spec):
    from jpt.distributions.univariate import Bool, IntegerType, NumericType, SymbolicType
    from jpt.variables import IntegerVariable, NumericVariable, SymbolicVariable
    out = []
    for i, v in enumerate(spec['vars']):
        n = vname(i, v)
        if v['k'] == 'num':
            out.append(NumericVariable(n, precision=v.get('prec'), **v.get('set', {})))
        elif v['k'] == 'scaled':
            col = [r[i] for r in spec['rows']]
            out.append(NumericVariable(n, NumericType('T' + n, np.array(col + [min(col) - 1., max(col) + 2.])), precision=v.get('prec'), **v.get('set', {})))
        elif v['k'] == 'int':
            out.append(IntegerVariable(n, IntegerType('T' + n, v['lo'], v['hi']), **v.get('set', {})))
        else:
            out.append(SymbolicVariable(n, Bool if v['k'] == 'bool' else SymbolicType('T' + n, v['labels']), **v.get('set', {})))
    return out


def rows_of(spec):
    """rows of labels"""
    ls = [None if isnum(v) else labels_of(v) for v in spec['vars']]
    return [[x if l is None else l[x] for x, l in zip(r, ls)] for r in spec['rows']]


def well_spaced(spec):
    """numeric columns whose different values are clearly different"""
    for i, v in enumerate(spec['vars']):
        if isnum(v):
            u = np.unique([r[i] for r in spec['rows']])
            if len(u) > 1 and np.diff(u).min() < 1e-4 * max(1, np.abs(u).max()):
                return False
    return True


def new_jpt(spec, variables=None):
    from jpt.trees import JPT
    vs = variables or mk_vars(spec)
    h = spec.get('hp', {})
    return JPT(vs, targets=[vs[i] for i in h['targets']] if h.get('targets') else None, features=[vs[i] for i in h['features']] if h.get('features') else None,
               min_samples_leaf=h.get('msl', 1), min_impurity_improvement=h.get('mii'), max_depth=h.get('depth'),
               dependencies={vs[int(k)]: [vs[i] for i in d] for k, d in h['deps'].items()} if h.get('deps') else None)


def mk_jpt(spec, **kw):
    if not well_spaced(spec):
        raise Skip()
    jpt = new_jpt(spec)
    jpt.learn(rows=rows_of(spec), close_convex_gaps=spec.get('hp', {}).get('ccg', True), **kw)
    return jpt


# ------------------------------------------------------------------------------------------------------ reference model

class RLeaf:
    def __init__(self, leaf, variables):
        self.idx, self.prior = leaf.idx, float(leaf.prior)
        self.d = {}
        for v in variables:
            d = leaf.distributions[v]
            self.d[v.name] = read_plf(d.cdf) if v.numeric else [float(p) for p in d.probabilities]


class Ref:
    """a snapshot of the leaves of a model: prior-weighted products of univariate distributions in value space"""

    def __init__(self, jpt):
        self.vars = {v.name: v for v in jpt.variables}
        self.leaves = [RLeaf(l, jpt.variables) for l in jpt.leaves.values()]

    @staticmethod
    def uni(d, ev):
        """probability of an event under one leaf distribution; ev: set of values or list of disjoint intervals"""
        if isinstance(ev, (set, frozenset)):
            return sum(d[i] for i in ev)
        return min(1., max(0., mass_of(d, ev)))

    def leaf_p(self, l, ev):
        p = 1.
        for n, e in ev.items():
            p *= self.uni(l.d[n], e)
        return p

    def p(self, ev):
        return sum(l.prior * self.leaf_p(l, ev) for l in self.leaves)

    def weights(self, ev):
        w = [l.prior * self.leaf_p(l, ev) for l in self.leaves]
        return w

    def has_jump_near(self, n, x, tol=1e-9):
        return any(abs(j - x) <= tol * max(1, abs(x)) for l in self.leaves for j, _ in jumps(l.d[n]))

    def grid(self, n):
        """all knots of the leaf distributions of a numeric variable"""
        return sorted({b for l in self.leaves for s in l.d[n] for b in s[:2] if abs(b) != INF})


def dump(jpt):
    """everything a model consists of, as comparable JSON text"""
    return json.dumps(jpt.to_json(), sort_keys=True, default=str)


# -------------------------------------------------------------------------------------------------------------- events

U = st.one_of(st.integers(-2, 12).map(lambda k: k / 10.), st.floats(-.2, 1.2).map(lambda x: round(x, 4)))
EPOS = st.one_of(st.none(), *[st.tuples(U, st.booleans()).map(list)] * 5)
EIV = st.tuples(EPOS, EPOS, st.integers(1, 2), st.integers(1, 2)).map(list)


@st.composite
def evspec(draw, spec, max_n=3, p_multi=True):
    """an event: conditions on some variables; numeric ones are intervals relative to the range of the variable, discrete ones masks"""
    n = len(spec['vars'])
    idx = draw(st.lists(st.integers(0, n - 1), min_size=draw(st.sampled_from([0, 1, 1, 1])), max_size=max_n, unique=True))
    out = []
    for i in idx:
        v = spec['vars'][i]
        if isnum(v):
            k = draw(st.sampled_from([1, 1, 1, 2, 3])) if p_multi else 1
            out.append([i, [draw(EIV) for _ in range(k)]])
        else:
            m = nsym(v)
            out.append([i, sorted(draw(st.sets(st.integers(0, m - 1), min_size=1)))])
    return out


@st.composite
def with_events(draw, base, names=('q', 'e'), max_n=3):
    s = draw(base)
    out = dict(m=s)
    for n in names:
        out[n] = draw(evspec(s, max_n))
    return out


def to_iv(iv, knots, snap):
    """-> (lo, up, l, r) in value space, bounds relative to the knots"""
    lo, hi = knots[0], knots[-1]

    def pos(p):
        x = lo + (hi - lo or 1.) * p[0]
        if p[1] and snap:
            x = min(knots, key=lambda b: abs(b - x))
        return x
    a = -INF if iv[0] is None else pos(iv[0])
    b = INF if iv[1] is None else pos(iv[1])
    if a > b:
        a, b = b, a
    return a, b, EXC if a == -INF else iv[2], EXC if b == INF else iv[3]


def mk_event(ev, spec, ref, positive=True):
    """-> (query with labels, event in value space).  Numeric sets are unions of disjoint intervals in ascending order.
    Single points and empty intervals are dropped unless positive is False."""
    from jpt.base.intervals import ContinuousSet, RealSet
    q, m = {}, {}
    for i, c in ev:
        v = spec['vars'][i]
        n = vname(i, v)
        if not isnum(v):
            q[n] = {labels_of(v)[k] for k in c}
            m[n] = set(c)
            continue
        T = ref.vars[n].domain
        ivs = []
        for iv in c:
            a, b, l, r = to_iv(iv, ref.grid(n), v['k'] == 'num')
            if positive and not b - a > 1e-6 * max(1, abs(a) if a != -INF else 1):
                continue
            if v['k'] == 'scaled':
                for x in (a, b):
                    if abs(x) != INF and ref.has_jump_near(n, x, 1e-6):
                        raise Skip()
            if all(b < x[0] or x[1] < a for x in ivs):
                ivs.append((a, b, l, r))
        if not ivs:
            raise Skip()
        ivs.sort()
        lab = [ContinuousSet(T.value2label(a), T.value2label(b), l, r) for a, b, l, r in ivs]
        q[n] = lab[0] if len(lab) == 1 else RealSet(lab)
        m[n] = ivs
    return q, m


def ev_inter(a, b):
    """conjunction of two events in value space"""
    out = dict(a)
    for n, e in b.items():
        if n not in out:
            out[n] = e
        elif isinstance(e, (set, frozenset)):
            out[n] = out[n] & e
        else:
            out[n] = iv_inter(out[n], e)
    return out


def iv_inter(p, q):
    out = []
    for a, b, l, r in p:
        for c, d, k, s in q:
            lo, ll = max((a, l), (c, k))                # EXC (2) is the later start
            up, rr = min((b, -r), (d, -s))              # EXC is the earlier end
            rr = -rr
            if lo < up or lo == up and ll == INC and rr == INC:
                out.append((lo, up, ll, rr))
    return sorted(out)


def ev_compl(e, v):
    """complement of a condition on one variable"""
    if isinstance(e, (set, frozenset)):
        return set(range(nsym(v))) - e
    out, cur, cl = [], -INF, EXC
    for a, b, l, r in e:
        if a != -INF:
            out.append((cur, a, cl, EXC if l == INC else INC))
        cur, cl = b, EXC if r == INC else INC
    if cur != INF:
        out.append((cur, INF, cl, EXC))
    return [iv for iv in out if iv[0] < iv[1] or iv[0] == iv[1] and iv[2] == iv[3] == INC]


def to_query(m, ref):
    """event in value space -> query with labels"""
    from jpt.base.intervals import ContinuousSet, RealSet
    q = {}
    for n, e in m.items():
        T = ref.vars[n].domain
        if isinstance(e, (set, frozenset)):
            q[n] = {T.value2label(k) for k in e}
        else:
            lab = [ContinuousSet(T.value2label(a), T.value2label(b), l, r) for a, b, l, r in e]
            q[n] = lab[0] if len(lab) == 1 else RealSet(lab)
    return q


import logging  # noqa

logging.disable(logging.WARNING)


def raises_unsat(fn, msg, *args):
    """check that the call raises the unsatisfiability error"""
    from jpt.base.errors import Unsatisfiability
    try:
        fn()
    except Unsatisfiability as e:
        return e
    check(False, msg, *args)
