"""T03: learning is deterministic and independent of input format and row order."""
import copy as copylib
import os
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from vp.core import Skip, check, check_close, close, fail, subcheck
from vp.dists import cprobes
from vp.jpts import *
from vp.props.t02 import EPS, Score, rows_below, score_data, t2spec

ASSUMPTIONS = ['Independence of the row order is claimed where at every node the best split is better than all others by more than 1e-6 (ties may be broken either way).']
SPEC = t2spec(min_vars=1, max_vars=4, min_rows=1, max_rows=25)


def frame(spec, rows, dtype):
    import pandas as pd
    cols = {}
    for j, v in enumerate(spec['vars']):
        c = [r[j] for r in rows]
        if dtype == 'object':
            cols[vname(j, v)] = pd.Series(c, dtype=object)
        elif isnum(v):
            whole = all(float(x).is_integer() for x in c)
            cols[vname(j, v)] = pd.Series([int(x) for x in c] if whole and dtype == 'int' else c, dtype='int64' if whole and dtype == 'int' else 'float64')
        elif v['k'] == 'int':
            cols[vname(j, v)] = pd.Series(c, dtype='float64' if dtype == 'float' else 'int64')
        elif v['k'] == 'bool':
            cols[vname(j, v)] = pd.Series(c, dtype=bool)
        else:
            cols[vname(j, v)] = pd.Series(c)
    return pd.DataFrame(cols)


def formats(spec, rows):
    n = len(spec['vars'])
    arr = np.empty((len(rows), n), dtype=object)
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            arr[i, j] = x
    yield 'rows', dict(rows=[list(r) for r in rows])
    yield 'columns', dict(columns=[[r[j] for r in rows] for j in range(n)])
    yield 'array of rows', dict(rows=arr)
    yield 'array of columns', dict(columns=arr.T.copy())
    yield 'list as data', dict(data=[list(r) for r in rows])
    yield 'array as data', dict(data=arr)
    for t in ('natural', 'int', 'float', 'object'):
        yield 'data frame (%s)' % t, dict(data=frame(spec, rows, t))
    df = frame(spec, rows, 'natural')
    df.index = df.index[::-1] * 3 + 5
    yield 'data frame with an index', dict(data=df)
    if all(isnum(v) for v in spec['vars']):
        yield 'array of numbers', dict(rows=np.array(rows, dtype=float))
        yield 'transposed array', dict(rows=np.array(rows, dtype=float).T.copy().T)


def same_data(a, b):
    if hasattr(a, 'equals'):
        return a.equals(b) and list(a.dtypes) == list(b.dtypes)
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and all(x == y and type(x) is type(y) for x, y in zip(a.ravel(), b.ravel()))
    return a == b


@subcheck('T03', 'formats', SPEC, quick=2000, thorough=40000, shards=4, rule='two or more leaves')
def input_formats(ctx, case):
    """rows, columns, arrays and data frames give the same model; inputs stay as they are"""
    if not well_spaced(case):
        raise Skip()
    rows = rows_of(case)
    first = None
    kw = dict(close_convex_gaps=case['hp']['ccg'])
    for f, data in formats(case, rows):
        vs = mk_vars(case)
        before_v = [json.dumps(v.to_json(), sort_keys=True, default=str) for v in vs]
        jpt = new_jpt(case, vs)
        given = copylib.deepcopy(data)
        jpt.learn(**data, **kw)
        d = dump(jpt)
        check(all(same_data(data[k], given[k]) for k in data), 'learning changed the data it was given as %s', f)
        check([json.dumps(v.to_json(), sort_keys=True, default=str) for v in vs] == before_v, 'learning changed the variables')
        if first is None:
            first = d
            ctx.nontrivial(len(jpt.leaves) > 1)
        check(d == first, 'the model learned from %s differs from that learned from rows', f)


@subcheck('T03', 'again', st.tuples(SPEC, st.integers(0, 2 ** 20)).map(list), quick=3000, thorough=40000, shards=3, rule='two or more leaves')
def again(ctx, case):
    """learning the same data again - in a new or a used model - gives the same model"""
    case, seed = case
    if not well_spaced(case):
        raise Skip()
    rows = rows_of(case)
    kw = dict(close_convex_gaps=case['hp']['ccg'])
    vs = mk_vars(case)
    one = new_jpt(case, vs)
    one.learn(rows=rows, **kw)
    d = dump(one)
    ctx.nontrivial(len(one.leaves) > 1)
    one.learn(rows=rows, **kw)
    check(dump(one) == d, 'learning a second time gives another model')
    rng = np.random.RandomState(seed)
    other = [rows[i] for i in rng.randint(0, len(rows), max(1, len(rows) // 2))]
    used = new_jpt(case, vs)
    used.learn(rows=other, **kw)
    used.learn(rows=rows, **kw)
    check(dump(used) == d, 'learning in a model used before gives another model')
    np.random.seed(seed % 2 ** 30)
    fresh = new_jpt(case)
    fresh.learn(rows=rows, **kw)
    check(dump(fresh) == d, 'learning in another model gives another model')
    check(dump(one) == d, 'learning in one model changed another')


def unique_splits(case, X, msl):
    """is every split decision of the tree clear without ties?"""
    sc = Score(case, X)
    from vp.props.t02 import admissible
    h = case['hp']
    mii = h['mii'] or 0
    todo = [(np.arange(len(X)), 0)]
    while todo:
        rows, depth = todo.pop()
        if h['depth'] and depth >= h['depth']:
            continue
        cands = []
        for f in sc.features:
            for left in admissible(case['vars'][f], X[rows, f]):
                if min(left.sum(), (~left).sum()) >= msl:
                    cands.append((sc(f, rows, left), left))
        if not cands:
            continue
        cands.sort(key=lambda c: -c[0])
        s, left = cands[0]
        if abs(s - mii) < 1e-6:
            return False
        if s < mii:
            continue
        for t, other in cands[1:]:
            if t < s - 1e-6:
                break
            return False                           # a tie, even one with the same rows on both sides, may be broken either way
        todo += [(rows[left], depth + 1), (rows[~left], depth + 1)]
    return True


PERM = st.tuples(t2spec(min_vars=1, max_vars=3, min_rows=3, max_rows=20), st.integers(0, 2 ** 20)).map(list)


@subcheck('T03', 'permutation', PERM, quick=6000, thorough=80000, shards=4, rule='two or more leaves and unique best splits')
def permutation(ctx, case):
    """permuting the rows does not change the represented distribution"""
    case, seed = case
    if not well_spaced(case):
        raise Skip()
    rows = rows_of(case)
    X = score_data(case)
    h = case['hp']
    m = h['msl']
    msl = max(1, int(m * len(X))) if isinstance(m, float) else m
    if not unique_splits(case, X, msl):
        raise Skip()
    vs = mk_vars(case)
    kw = dict(close_convex_gaps=h['ccg'], keep_samples=True)
    a = new_jpt(case, vs)
    a.learn(rows=rows, **kw)
    perm = np.random.RandomState(seed).permutation(len(rows))
    b = new_jpt(case, vs)
    b.learn(rows=[rows[i] for i in perm], **kw)
    ctx.nontrivial(len(a.leaves) > 1)
    la = {frozenset(int(i) for i in l.s_indices): l for l in a.leaves.values()}
    lb = {frozenset(int(perm[i]) for i in l.s_indices): l for l in b.leaves.values()}
    check(set(la) == set(lb), 'leaves group the rows %s, after permuting them %s', sorted(map(sorted, la)), sorted(map(sorted, lb)))
    for rs, l in la.items():
        k = lb[rs]
        check_close(l.prior, k.prior, 'prior of the leaf of rows %s after permuting the rows', sorted(rs), rtol=1e-12)
        pa, pb = {v.name: str(s) for v, s in l.path.items()}, {v.name: str(s) for v, s in k.path.items()}
        check(pa == pb, 'region of the leaf of rows %s: %s, after permuting them %s', sorted(rs), pa, pb)
        for v in vs:
            same_dist(v, l.distributions[v], k.distributions[v], 'distribution of %s in the leaf of rows %s after permuting the rows' % (v.name, sorted(rs)))
    for v in vs:
        same_dist(v, a.priors[v], b.priors[v], 'prior distribution of %s after permuting the rows' % v.name)


def same_dist(v, p, q, what):
    if not v.numeric:
        check(np.allclose(p.probabilities, q.probabilities, rtol=1e-9, atol=1e-12), '%s: %s and %s', what, list(p.probabilities), list(q.probabilities))
        return
    p, q = read_plf(p.cdf), read_plf(q.cdf)
    for x in cprobes(p, q):
        if not any(abs(j - x) <= 1e-9 * max(1, abs(x)) for s in (p, q) for j, _ in jumps(s)):
            check_close(peval(p, x), peval(q, x), '%s at %r', what, x, rtol=1e-9, atol=1e-9)


@subcheck('T03', 'refused', st.tuples(t2spec(min_vars=2, max_vars=4, min_rows=2, max_rows=8), st.integers(0, 5)).map(list), quick=800, thorough=10000, shards=2, rule='any')
def refused(ctx, case):
    """data that do not fit the variables are refused and leave a learned model as it is"""
    case, k = case
    if not well_spaced(case):
        raise Skip()
    rows = rows_of(case)
    jpt = new_jpt(case)
    jpt.learn(rows=rows)
    d = dump(jpt)
    ctx.nontrivial()
    df = frame(case, rows, 'natural')
    j = k % len(case['vars'])
    n = vname(j, case['vars'][j])
    bad = {'missing column': dict(data=df.drop(columns=[n])), 'unknown column': dict(data=df.assign(zzz=1)), 'renamed column': dict(data=df.rename(columns={n: 'zzz'})),
           'other order of columns': dict(data=df[list(df.columns)[::-1]]), 'nothing': {}, 'both rows and columns': dict(rows=rows, columns=[list(c) for c in zip(*rows)]), 'no rows': dict(rows=[])}
    if not isnum(case['vars'][j]):
        r = [list(x) for x in rows]
        r[-1][j] = 'no such label' if case['vars'][j]['k'] != 'int' else 99
        bad['unknown label'] = dict(rows=r)
        bad['unknown label in a data frame'] = dict(data=df.assign(**{n: [x[j] for x in r]}))
    for what, a in bad.items():
        try:
            jpt.learn(**a)
        except (ValueError, KeyError, TypeError):
            check(dump(jpt) == d, 'refused data (%s) changed the model', what)
            continue
        fail('learning from data with %s is not refused', what)


CHILD = r'''
import json, sys, hashlib
sys.path[:0] = json.loads(sys.argv[1])
from vp.jpts import *
for spec in json.loads(sys.stdin.read()):
    j = new_jpt(spec)
    j.learn(rows=rows_of(spec), close_convex_gaps=spec['hp']['ccg'])
    q = []
    for v in j.variables:
        q.append(str(j.expectation([v.name], {})) if v.numeric or v.integer else '')
    print(hashlib.md5((dump(j) + str(q)).encode()).hexdigest())
'''


@subcheck('T03', 'processes', st.lists(t2spec(min_vars=2, max_vars=5, min_rows=5, max_rows=30), min_size=8, max_size=16), quick=8, thorough=60, shards=2, rule='any')
def processes(ctx, case):
    """other processes with other hash seeds learn the same models"""
    specs = [s for s in case if well_spaced(s)]
    ctx.nontrivial(len(specs) > 2)
    import jpt
    root = os.path.dirname(os.path.dirname(os.path.abspath(jpt.__file__)))
    out = []
    for seed in ('0', '1', '4711'):
        r = subprocess.run([sys.executable, '-c', CHILD, json.dumps([root] + [p for p in sys.path if p])], input=json.dumps(specs), capture_output=True, text=True,
                           env=dict(os.environ, PYTHONHASHSEED=seed), timeout=120)
        check(r.returncode == 0, 'learning in another process failed: %s', r.stderr[-2000:])
        out.append(r.stdout.split())
    for i, hs in enumerate(zip(*out)):
        check(len(set(hs)) == 1, 'the model learned from %s depends on the hash seed of the process', specs[i])
