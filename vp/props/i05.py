"""I05: likelihood of rows, density of assignments, leaf assignment."""
import numpy as np
from hypothesis import strategies as st

from vp.core import Skip, check, check_close, close, fail, subcheck
from vp.jpts import *

ASSUMPTIONS = ['The leaves of the model are read from the model; that they are right is T01.',
               'Infinite densities (point masses of numeric variables) count with the documented replacement dirac_scaling / minimal distance of the variable.']


def mixture(jpt, row, inf, leaves=None):
    """mixture density at {name: value}; inf: replacement of infinite densities"""
    s = 0.
    for l in jpt.leaves.values():
        if leaves is not None and l.idx not in leaves:
            continue
        p = 1.
        for n, x in row.items():
            d = l.distributions[jpt.varnames[n]]
            # that densities belong to the distribution functions is D01
            q = d.pdf.eval(x) if jpt.varnames[n].numeric else float(d.probabilities[int(x)])
            q = inf[n] if q == INF else q
            p = 0. if 0 in (p, q) else p * q
        s += l.prior * p
    return s


def within(x, a, b, msg, *args):
    if not (close(x, a, 1e-9, 1e-12) or close(x, b, 1e-9, 1e-12)):
        fail('%s is %r, expected %r', msg % args, x, a)


@st.composite
def model_rows(draw, lo=1, hi=8):
    m = draw(MODELS)
    n = draw(st.integers(lo, hi))
    rows = []
    for _ in range(n):
        if draw(st.booleans()):
            rows.append(draw(st.integers(0, len(m['rows']) - 1)))       # a training row
        else:
            # each cell: relative position, a training value, or a knot of some leaf
            rows.append([[draw(st.sampled_from('utk')), draw(U) if isnum(v) else draw(st.integers(0, nsym(v) - 1)), draw(st.integers(0, 50))] for v in m['vars']])
    return dict(m=m, rows=rows, perm=draw(st.permutations(list(range(n)))))


def mk_rows(case, ref):
    """-> rows of labels"""
    m, out = case['m'], []
    train = rows_of(m)
    for r in case['rows']:
        if isinstance(r, int):
            out.append(train[r])
            continue
        row = []
        for i, (v, (k, x, j)) in enumerate(zip(m['vars'], r)):
            if not isnum(v):
                row.append(labels_of(v)[x])
            elif k == 't':
                row.append(train[j % len(train)][i])
            else:
                g = ref.grid(vname(i, v))
                y = g[j % len(g)] if k == 'k' else g[0] + x * ((g[-1] - g[0]) or 1.)
                row.append(float(ref.vars[vname(i, v)].domain.value2label(y)))
        out.append(row)
    return out


def to_values(ref, m, row):
    return {vname(i, v): ref.vars[vname(i, v)].domain.label2value(x) for i, (v, x) in enumerate(zip(m['vars'], row))}


LK = st.tuples(model_rows(), st.sampled_from([None, None, 1., 3.]), st.booleans()).map(list)


@subcheck('I05', 'likelihood', LK, quick=8000, thorough=80000, shards=4, rule='two or more leaves and a row of positive likelihood')
def likelihood(ctx, case):
    """likelihood of rows: leaf mixture; bulk evaluation is row-by-row evaluation in every format and order"""
    import pandas as pd
    from jpt.variables import VariableMap
    case, scale, own = case
    m = case['m']
    jpt = mk_jpt(m)
    ref = Ref(jpt)
    rows = mk_rows(case, ref)
    kw = {} if scale is None else dict(dirac_scaling=scale)
    md = {v.name: jpt.minimal_distances[v] for v in jpt.variables if v.numeric}
    if own and md:
        md = {n: .25 * (i + 1) for i, n in enumerate(md)}
        kw['min_distances'] = VariableMap({jpt.varnames[n]: x for n, x in md.items()}.items(), variables=jpt.variables)
    got = jpt.likelihood([list(r) for r in rows], **kw)
    check(len(got) == len(rows), 'likelihood of %s rows has %s entries', len(rows), len(got))
    ctx.nontrivial(len(ref.leaves) > 1 and any(x > 0 for x in got))
    inf = {n: (2. if scale is None else scale) / x for n, x in md.items()}
    for r, x in zip(rows, got):
        check_close(x, mixture(jpt, to_values(ref, m, r), inf), 'likelihood of the row %s with %s', r, kw, rtol=1e-9, atol=1e-12)
    one = [float(jpt.likelihood([list(r)], **kw)[0]) for r in rows]
    check(all(close(a, b, 1e-12, 0) for a, b in zip(one, got)), 'likelihood of rows one by one %s and in bulk %s', one, list(got))
    p = jpt.likelihood([list(rows[i]) for i in case['perm']], **kw)
    check(all(close(p[k], got[i], 1e-12, 0) for k, i in enumerate(case['perm'])), 'likelihood depends on the order of the rows')
    arr = np.empty((len(rows), len(m['vars'])), dtype=object)
    for i, r in enumerate(rows):
        arr[i] = r
    df = pd.DataFrame({vname(j, v): pd.Series([r[j] for r in rows], dtype=None if isnum(v) else object) for j, v in enumerate(m['vars'])})
    before = df.copy()
    for f, q in (('array', arr), ('data frame', df)):
        x = jpt.likelihood(q, **kw)
        check(all(close(a, b, 1e-12, 0) for a, b in zip(x, got)), 'likelihood of %s as list %s and as %s %s', rows, list(got), f, list(x))
    check(df.equals(before), 'likelihood changed the data frame it was given')


PDF = st.tuples(model_rows(1, 3), st.integers(0, 2 ** 4 - 1)).map(list)


@subcheck('I05', 'pdf', PDF, quick=8000, thorough=80000, shards=4, rule='two or more leaves and positive density of a non-empty assignment')
def pdf(ctx, case):
    """density of full and partial assignments, in label and value space"""
    from jpt.base.intervals import ContinuousSet
    from jpt.variables import LabelAssignment, ValueAssignment
    case, mask = case
    m = case['m']
    jpt = mk_jpt(m)
    ref = Ref(jpt)
    for row in mk_rows(case, ref):
        val = to_values(ref, m, row)
        lab = dict(zip(val, row))
        for keep in ([n for i, n in enumerate(val) if mask >> i & 1], list(val)):
            hi = mixture(jpt, {n: val[n] for n in keep}, {n: INF for n in val})
            # a leaf whose region does not contain the point may be left out
            cons = [l.idx for l in jpt.leaves.values() if all(v.name not in keep or (val[v.name] in s if not v.numeric else s.contains_value(val[v.name])) for v, s in l.path.items())]
            lo = mixture(jpt, {n: val[n] for n in keep}, {n: INF for n in val}, cons)
            la, va = LabelAssignment(variables=jpt.variables), ValueAssignment(variables=jpt.variables)
            ls, vs = LabelAssignment(variables=jpt.variables), ValueAssignment(variables=jpt.variables)
            for n in keep:
                v = jpt.varnames[n]
                la[v], va[v] = lab[n], val[n]
                ls[v], vs[v] = (ContinuousSet(lab[n], lab[n]), ContinuousSet(val[n], val[n])) if v.numeric else ({lab[n]}, {val[n]})
            for f, a in (('labels', la), ('values', va), ('label sets', ls), ('value sets', vs)):
                x = jpt.pdf(a)
                within(x, hi, lo, 'density of %s as %s' % ({n: lab[n] for n in keep}, f))
            ctx.nontrivial(len(ref.leaves) > 1 and x > 0 and keep)
            if not keep:
                check_close(x, 1., 'density of the empty assignment')


@subcheck('I05', 'encode', model_rows(), quick=8000, thorough=80000, shards=4, rule='two or more leaves; a row on the border of a region or not in the training data')
def encode(ctx, case):
    """encode names a leaf whose region contains the row, apply the leaves an event can reach"""
    m = case['m']
    jpt = mk_jpt(m)
    ref = Ref(jpt)
    rows = mk_rows(case, ref)
    code = jpt.encode([list(r) for r in rows])
    check(len(code) == len(rows), 'encoding of %s rows has %s entries', len(rows), len(code))
    ctx.nontrivial(len(ref.leaves) > 1 and any(not isinstance(r, int) for r in case['rows']))
    for r, c in zip(rows, code):
        val = to_values(ref, m, r)
        home = [i for i, l in jpt.leaves.items() if all(s.contains_value(val[v.name]) if v.numeric else val[v.name] in s for v, s in l.path.items())]
        check(len(home) == 1, 'row %s is in the regions of the leaves %s', r, home)
        check(c in home, 'row %s is encoded as leaf %s, its region is that of leaf %s', r, c, home)
        # apply and the consistency test agree about single rows
        from jpt.variables import ValueAssignment
        va = ValueAssignment(variables=jpt.variables)
        for n, x in val.items():
            va[jpt.varnames[n]] = x
        on = [l.idx for l in jpt.leaves.values() if l.path_consistent_with(va)]
        check(on == home, 'row %s is consistent with the paths of the leaves %s, it is in leaf %s', r, on, home)
    p = jpt.encode([list(rows[i]) for i in case['perm']])
    check(all(p[k] == code[i] for k, i in enumerate(case['perm'])), 'encoding depends on the order of the rows')


@subcheck('I05', 'apply', with_events(MODELS, names=('e',), max_n=3), quick=8000, thorough=80000, shards=4, rule='some but not all leaves are reached')
def apply(ctx, case):
    """apply yields exactly the leaves whose region meets the event; among them all leaves that give it positive probability"""
    jpt = mk_jpt(case['m'])
    ref = Ref(jpt)
    e, me = mk_event(case['e'], case['m'], ref)
    meets = set()
    for l in jpt.leaves.values():
        if all(v.name not in me or (iv_inter(as_ivs(s), me[v.name]) if v.numeric else set(s) & me[v.name]) for v, s in l.path.items()):
            meets.add(l.idx)
    each = {l.idx for l in jpt.leaves.values() if all(v.name not in me or (iv_inter(as_ivs(s), me[v.name]) if v.numeric else set(s) & me[v.name]) for v, s in constraints(l))}
    for f, q in (('dict', e), ('bound', jpt.bind(e)), ('values', jpt.bind(e).value_assignment())):
        got = [l.idx for l in jpt.apply(q)]
        check(len(set(got)) == len(got), 'apply(%s) yields a leaf twice: %s', e, got)
        # a union of intervals may meet all constraints on a path one by one but not their intersection
        check(meets <= set(got) <= each, 'apply(%s) (as %s) yields the leaves %s, the regions of %s meet the event', e, f, sorted(got), sorted(meets))
    for l in ref.leaves:
        check(ref.leaf_p(l, me) < 1e-9 or l.idx in meets, 'leaf %s gives %s positive probability, its region does not meet it', l.idx, e)
    on = {l.idx for l in jpt.leaves.values() if l.path_consistent_with(jpt.bind(e).value_assignment())}
    check(on == meets, 'the paths of the leaves %s are consistent with %s, the regions of %s meet it', sorted(on), e, sorted(meets))
    ap = {l.idx for l in jpt.leaves.values() if l.applies(jpt.bind(e))}
    check(ap == meets, 'the leaves %s apply to %s, the regions of %s meet it', sorted(ap), e, sorted(meets))
    ctx.nontrivial(0 < len(meets) < len(ref.leaves))


def constraints(node):
    """the splits above a node, one by one"""
    while node.parent is not None:
        p = node.parent
        yield p.variable, p.splits[[c is node for c in p.children].index(True)]
        node = p


def as_ivs(s):
    return [(i.lower, i.upper, EXC if i.lower == -INF else i.left, EXC if i.upper == INF else i.right) for i in getattr(s, 'intervals', [s])]
