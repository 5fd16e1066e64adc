"""V04: variables inferred from a data frame."""
import json

import numpy as np
from hypothesis import strategies as st

from vp.core import check, close, fail, subcheck
from vp.sets import INF

ASSUMPTIONS = ['Columns are named by strings; missing values occur in floating point columns only.',
               'How a scaled domain shifts and scales its numbers is left open; that it is a finite increasing affine map is not.']

NUM = st.one_of(st.sampled_from([0., 1., -1., .5, 2., 3., 100., -.25]), st.floats(-1e6, 1e6, allow_nan=False).map(lambda x: float(np.float32(x))),
                st.integers(-50, 50).map(float))
ODD = st.sampled_from(['nan', 'inf', '-inf'])
COL = st.one_of(
    st.fixed_dictionaries({'k': st.just('str'), 'v': st.lists(st.sampled_from(['a', 'b', 'A', '', 'x y', '1', 'ä']), min_size=12, max_size=12)}),
    st.fixed_dictionaries({'k': st.just('obj'), 'v': st.lists(st.sampled_from(['a', 7, 2.5, 'b', -3]), min_size=12, max_size=12)}),
    st.fixed_dictionaries({'k': st.just('bool'), 'v': st.lists(st.booleans(), min_size=12, max_size=12)}),
    st.fixed_dictionaries({'k': st.sampled_from(['float64', 'float32']), 'v': st.lists(NUM, min_size=12, max_size=12)}),
    st.fixed_dictionaries({'k': st.sampled_from(['int64', 'int32']), 'v': st.lists(st.one_of(st.integers(-9, 9), st.integers(-1000, 1000)), min_size=12, max_size=12)}))
OPT = st.fixed_dictionaries({
    'scale': st.one_of(st.none(), st.booleans()), 'mii': st.one_of(st.none(), st.sampled_from([0, .05, .5])), 'blur': st.one_of(st.none(), st.just(.1)),
    'std': st.one_of(st.none(), st.just(.25)), 'prec': st.one_of(st.none(), st.sampled_from([.05, .001])), 'unique': st.booleans()})
CASE = st.fixed_dictionaries({'cols': st.lists(COL, min_size=1, max_size=4), 'n': st.integers(1, 12), 'opt': OPT,
                              'own': st.lists(st.sampled_from([None, None, None, 'same', 'num', 'sym', 'int']), min_size=4, max_size=4)})


def frame(cols, n):
    import pandas as pd
    d = {}
    for i, c in enumerate(cols):
        v = [float(x) if isinstance(x, str) and c['k'].startswith('float') else x for x in c['v'][:n]]
        d['%s %d' % (c['k'], i)] = pd.Series(v, dtype={'str': object, 'obj': object}.get(c['k'], c['k']))
    return pd.DataFrame(d)


def kwargs(o):
    kw = dict(min_impurity_improvement=o['mii'], blur=o['blur'], max_std=o['std'], precision=o['prec'], unique_domain_names=o['unique'])
    if o['scale'] is not None:
        kw['scale_numeric_types'] = o['scale']
    return {k: v for k, v in kw.items() if v is not None}


def own_domain(want, c, vals):
    """a user-provided domain for a column, if there is one of this kind"""
    from jpt.distributions import Bool, IntegerType, Numeric, SymbolicType
    k = c['k']
    whole = k.startswith('int') or (k.startswith('float') and all(float(v).is_integer() for v in vals))
    if want == 'same':
        want = {'str': 'sym', 'obj': 'sym', 'bool': 'sym'}.get(k, 'int' if k.startswith('int') else 'num')
    if want == 'num' and k[:3] in ('int', 'flo'):
        return Numeric
    if want == 'int' and whole:
        return IntegerType('OWN', int(min(vals)) - 2, int(max(vals)) + 1)
    if want == 'sym':
        return Bool if k == 'bool' else SymbolicType('OWN', list(dict.fromkeys(list(vals) + (['z'] if k in ('str', 'obj') else [4711]))))
    return None


@subcheck('V04', 'columns', CASE, quick=4000, thorough=40000, shards=3, rule='two or more columns and two or more distinct values in one of them')
def columns(ctx, case):
    """one variable per column, of the kind and domain of its data or as given, with the settings given"""
    from jpt.distributions import Bool, Numeric, ScaledNumeric
    from jpt.trees import JPT
    from jpt.variables import IntegerVariable, NumericVariable, SymbolicVariable, Variable, infer_from_dataframe
    cols, n, o = case['cols'], case['n'], case['opt']
    df = frame(cols, n)
    keep = df.copy(deep=True)
    vals = [df[c].tolist() for c in df.columns]
    own = {}
    for i, c in enumerate(df.columns):
        d = own_domain(case['own'][i], cols[i], vals[i])
        if d is not None:
            own[c] = d
    kw = kwargs(o)
    if own:
        kw['excluded_columns'] = dict(own)
    ctx.nontrivial(len(cols) > 1 and any(len(set(v)) > 1 for v in vals))
    vs = infer_from_dataframe(df, **kw)
    check(df.equals(keep) and list(df.dtypes) == list(keep.dtypes), 'the data frame has been modified')
    check([v.name for v in vs] == list(df.columns), 'variables %r for columns %r', [v.name for v in vs], list(df.columns))
    for v, c, k, x in zip(vs, df.columns, [c['k'] for c in cols], vals):
        if c in own:
            check(v.domain is own[c], '%s: the domain is %r, not the one given', c, v.domain)
            dom = own[c]
            kind = 'bool' if dom is Bool else 'num' if dom is Numeric else 'int' if hasattr(dom, 'lmin') else 'sym'
        else:
            kind = {'str': 'sym', 'obj': 'sym', 'bool': 'bool'}.get(k, k[:3].replace('flo', 'num'))
        check(type(v) is {'sym': SymbolicVariable, 'bool': SymbolicVariable, 'int': IntegerVariable, 'num': NumericVariable}[kind], '%s is a %s', c, type(v).__name__)
        check((v.symbolic, v.integer, v.numeric) == (kind in ('sym', 'bool'), kind == 'int', kind == 'num'), '%s: kind', c)
        if c not in own:
            if kind == 'bool':
                check(v.domain is Bool, '%s: domain %r', c, v.domain)
            elif kind == 'sym':
                check(v.domain.n_values == len(set(x)), '%s: %d labels for %r', c, v.domain.n_values, x)
                check({v.domain.value2label(i) for i in range(v.domain.n_values)} == set(x), '%s: labels', c)
            elif kind == 'int':
                check((v.domain.lmin, v.domain.lmax) == (min(x), max(x)), '%s: %r..%r for %r', c, v.domain.lmin, v.domain.lmax, x)
                check([v.domain.label2value(l) for l in range(min(x), max(x) + 1)] == list(range(max(x) - min(x) + 1)), '%s: values', c)
            elif o['scale'] is False:
                check(v.domain is Numeric, '%s: domain %r', c, v.domain)
            else:
                check(issubclass(v.domain, ScaledNumeric), '%s: domain %r', c, v.domain)
                scaled(v.domain, x, c)
        for name, given, applies, default in (('min_impurity_improvement', o['mii'], True, 0), ('blur', o['blur'], kind == 'num', 0),
                                              ('max_std_lbl', o['std'], kind == 'num', 0), ('precision', o['prec'], kind == 'num', .01)):
            if applies:
                want = default if given is None else given
                check(getattr(v, name) == want, '%s: %s is %r, not %r', c, name, getattr(v, name), want)
        check(Variable.from_json(json.loads(json.dumps(v.to_json()))) == v, '%s: not restored from its JSON text', c)
    again = infer_from_dataframe(df, **kw)
    for a, b in zip(vs, again):
        if a.name in own or a.domain is Bool or a.domain is Numeric:
            check(a == b, '%s: inferred differently the second time', a.name)
        else:
            check(a.domain.equiv(b.domain) != o['unique'], '%s: unique domain names %s, but the domains are %s', a.name, o['unique'], 'equal' if o['unique'] else 'different')
            check((a.domain.__name__ == b.domain.__name__) != o['unique'], '%s: domain names %s, %s', a.name, a.domain.__name__, b.domain.__name__)
    jpt = JPT(vs, min_samples_leaf=max(1, n // 2))
    jpt.learn(df)
    check(close(sum(l.prior for l in jpt.leaves.values()), 1, 1e-9), 'the leaf priors of the model learned')
    for v, x in zip(vs, vals):
        p = sum(l.prior * float(l.distributions[v].p({t if not isinstance(t, bool) else t for t in x} if not v.numeric else interval(min(x), max(x)))) for l in jpt.leaves.values())
        check(p > 0 and (v.numeric or close(p, 1, 1e-9)), '%s: the model gives its training values probability %r', v.name, p)


def interval(a, b):
    from jpt.base.intervals import ContinuousSet
    return ContinuousSet(a, b)


def scaled(dom, x, c):
    y = [dom.label2value(float(t)) for t in x]
    check(all(np.isfinite(t) for t in y), '%s: values %r of %r', c, y, x)
    m = max([abs(t) for t in x] + [1e-300])
    for a, b in zip(x, y):
        check(abs(dom.value2label(b) - a) <= 1e-6 * m, '%s: %r translates to %r and back to %r', c, a, b, dom.value2label(b))
    s = sorted(zip(x, y))
    for (a, ya), (b, yb) in zip(s, s[1:]):
        check(ya <= yb and (ya < yb or a == b or (b - a) < 1e-6 * m), '%s: %r < %r, but %r, %r', c, a, b, ya, yb)
    check(dom.label2value(INF) == INF and dom.label2value(-INF) == -INF, '%s: infinite values', c)


@subcheck('V04', 'missing', st.fixed_dictionaries({'k': st.sampled_from(['float64', 'float32']), 'v': st.lists(st.one_of(NUM, NUM, ODD), min_size=2, max_size=10), 'opt': OPT}),
          quick=4000, thorough=30000, shards=2, rule='missing or infinite values and two or more others')
def missing(ctx, case):
    """remove_nan: the numeric domain is that of the finite values"""
    from jpt.variables import infer_from_dataframe
    fin = [x for x in case['v'] if not isinstance(x, str)]
    if not fin:
        from vp.core import Skip
        raise Skip()
    ctx.nontrivial(len(fin) < len(case['v']) and len(set(fin)) > 1)
    col = {'k': case['k'], 'v': case['v']}
    df, clean = frame([col], len(case['v'])), frame([{'k': case['k'], 'v': fin}], len(fin))
    kw = kwargs(dict(case['opt'], unique=False, scale=True))
    keep = df.copy(deep=True)
    v, = infer_from_dataframe(df, remove_nan=True, **kw)
    check(df.equals(keep), 'the data frame has been modified')
    w, = infer_from_dataframe(clean, **kw)
    scaled(v.domain, fin, v.name)
    for x in fin:
        a, b = v.domain.label2value(float(x)), w.domain.label2value(float(x))
        check(abs(a - b) <= 1e-6 * max(1, abs(b)), 'the value of %r is %r with missing data and %r without', x, a, b)
    check(v.domain.equiv(w.domain) and v == w, 'the variable differs from that inferred from the finite values')


@subcheck('V04', 'other', st.fixed_dictionaries({'k': st.sampled_from(['category', 'datetime64[ns]', 'complex128', 'timedelta64[ns]']), 'at': st.integers(0, 2), 'cols': st.lists(COL, min_size=2, max_size=2), 'n': st.integers(1, 5)}),
          quick=300, thorough=2000, rule='always')
def other(ctx, case):
    """columns of a type there is no variable for are refused"""
    import pandas as pd
    from jpt.variables import infer_from_dataframe
    ctx.nontrivial(True)
    n = case['n']
    df = frame(case['cols'], n)
    raw = {'category': ['a', 'b', 'a', 'c', 'b'], 'complex128': [1j, 2, 3, 4, 5]}.get(case['k'], [1, 2, 3, 4, 5])[:n]
    df.insert(min(case['at'], 2), 'odd', pd.Series(raw).astype(case['k']) if case['k'] != 'timedelta64[ns]' else pd.to_timedelta(raw))
    try:
        vs = infer_from_dataframe(df)
    except TypeError:
        return
    fail('a %s column became %r', case['k'], vs)
