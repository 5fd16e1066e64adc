"""V05: printed assignments, paths and trees."""
import re

from hypothesis import strategies as st

from vp.core import Skip, check, check_close, close, fail, subcheck
from vp.jpts import MODELS, isnum, labels_of, mk_jpt, mk_vars, nsym, varspec
from vp.sets import EXC, INC, INF

ASSUMPTIONS = ['Either bracket style for intervals, "..." between the ends of a run of three or more consecutive integers, and the order of the '
               'alternatives are presentation; symbolic labels in the generator contain no separators.',
               'Numbers of scaled variables agree within 1e-9 of their magnitude, those in logical notation within the printed precision.']


def num(s):
    s = s.strip()
    return INF if s == '∞' else -INF if s == '-∞' else float(s)


def parse_set(s):
    """'{2.0} ∪ [3.0,4.0)' -> list of (lo, up, l, r)"""
    out = []
    if s == '∅':
        return out
    for p in s.split(' ∪ '):
        m = re.fullmatch(r'\{([^{},]+)\}', p)
        if m:
            out.append((num(m[1]), num(m[1]), INC, INC))
            continue
        m = re.fullmatch(r'([\[\](])([^,]+),([^,]+)([\[\])])', p)
        check(m, 'cannot read %r', p)
        out.append((num(m[2]), num(m[3]), INC if m[1] == '[' else EXC, INC if m[4] == ']' else EXC))
    return out


def parse_logic(s, name, sep=' v '):
    """'1.000 < A ≤ 2.000 v A = 3' -> list of (lo, up, l, r)"""
    out = []
    for p in s.split(sep):
        m = re.fullmatch(r'%s = (\S+)' % re.escape(name), p)
        if m:
            out.append((num(m[1]), num(m[1]), INC, INC))
            continue
        m = re.fullmatch(r'(?:(\S+) ([<≤]) )?%s(?: ([<≤]) (\S+))?' % re.escape(name), p)
        check(m, 'cannot read %r', p)
        out.append((num(m[1]) if m[1] else -INF, num(m[4]) if m[4] else INF, INC if m[2] == '≤' else EXC, INC if m[3] == '≤' else EXC))
    return out


def same_ivs(got, want, tol, what):
    check(len(got) == len(want), '%s: %r for %r', what, got, want)
    for g, w in zip(sorted(got), sorted(want)):
        for x, y, i in ((g[0], w[0], 2), (g[1], w[1], 3)):
            ok = x == y if abs(y) == INF or abs(x) == INF else abs(x - y) <= tol + 1e-9 * max(1, abs(y))
            check(ok and (abs(y) == INF or g[i] == w[i]), '%s: %r, expected %r', what, got, want)


def parse_ints(s):
    out = []
    for t in s.split(', '):
        m = re.fullmatch(r'(-?\d+)\.\.\.(-?\d+)', t)
        out += range(int(m[1]), int(m[2]) + 1) if m else [int(t)]
    return out


P = st.integers(-40, 80).map(lambda k: k / 8)
PIECE = st.tuples(st.one_of(st.none(), P, P), st.one_of(st.none(), P, P), st.integers(1, 2), st.integers(1, 2)).map(list)


@st.composite
def acase(draw):
    v = draw(varspec())
    if v['k'] == 'int':
        v['hi'] = v['lo'] + draw(st.integers(0, 12))
    c = dict(v=v, prec=draw(st.sampled_from([None, 0, 1, 5])))
    if isnum(v):
        c['rows'] = draw(st.lists(P, min_size=2, max_size=4))
        c['how'] = draw(st.sampled_from(['one', 'many', 'number', 'list', 'numbers', 'tuples']))
        c['ivs'] = draw(st.lists(PIECE, min_size=1, max_size=4))
    else:
        c['how'] = draw(st.sampled_from(['set', 'set', 'one']))
        c['vals'] = draw(st.lists(st.integers(0, nsym(v) - 1), min_size=1, max_size=12))
    return c


@subcheck('V05', 'assignment', acase(), quick=12000, thorough=150000, shards=3, rule='two or more pieces or labels, or a scaled variable')
def assignment(ctx, c):
    """the text of an assignment in set and in logical notation reads back as the labels assigned"""
    from jpt.base.intervals import ContinuousSet, RealSet
    v = c['v']
    if not isnum(v):
        var, = mk_vars(dict(vars=[v], rows=[]))
        discrete(ctx, c, v, var)
        return
    var, = mk_vars(dict(vars=[v], rows=[[x] for x in c['rows']]))
    T = var.domain
    ivs = []
    for a, b, l, r in c['ivs']:
        a, b = -INF if a is None else a, INF if b is None else b
        if a > b:
            a, b = b, a
        ivs.append((a, b, l, r))
    how = c['how']
    val = lambda x: float(T.label2value(float(x))) if abs(x) != INF else x
    kw = {} if c['prec'] is None else dict(precision=c['prec'])
    tol = .5 * 10. ** -(3 if c['prec'] is None else c['prec'])
    fin = [x for i in ivs for x in i[:2] if abs(x) != INF]
    if how in ('number', 'numbers', 'list', 'tuples') and not fin:
        raise Skip()
    ctx.nontrivial(v['k'] == 'scaled' or len(ivs) > 1)
    if how == 'number':
        for f in ('set', 'logic'):
            s = var.str(val(fin[0]), fmt=f, **kw)
            same_ivs(parse_logic(s, var.name), [(fin[0], fin[0], INC, INC)], tol, s)
        return
    if how == 'numbers':
        xs = sorted(set(fin))
        if any(close(a, b, 1e-6) for a, b in zip(xs, xs[1:])):
            raise Skip()
        want = [(x, x, INC, INC) for x in xs]
        arg = lambda: {val(x) for x in xs}
    elif how in ('list', 'tuples'):
        pairs = [i for i in ivs if abs(i[0]) != INF and abs(i[1]) != INF][:1 if how == 'list' else None]
        if how == 'tuples':
            pairs = disjoint(pairs)
        if not pairs:
            raise Skip()
        want = [(a, b, INC, INC) for a, b, _, _ in pairs]
        arg = (lambda: [val(pairs[0][0]), val(pairs[0][1])]) if how == 'list' else (lambda: {(val(a), val(b)) for a, b, _, _ in pairs})
    else:
        ivs = disjoint([(a, b, INC if a == b else EXC if a == -INF else l, INC if a == b else EXC if b == INF else r) for a, b, l, r in ivs])
        if how == 'one':
            ivs = ivs[:1]
        want = ivs
        cs = [ContinuousSet(val(a), val(b), l, r) for a, b, l, r in ivs]
        arg = (lambda: cs[0].copy()) if how == 'one' else (lambda: RealSet([i.copy() for i in cs]))
    for f in ('set', 'logic'):
        a = arg()
        s = var.str(a, fmt=f, **kw)
        check(a == arg(), 'printing changed the assignment to %r', a)
        if f == 'set':
            check(s.startswith(var.name + ' ∈ '), 'printed as %r', s)
            same_ivs(parse_set(s[len(var.name) + 3:]), want, 0, s)
        else:
            same_ivs(parse_logic(s, var.name), want, tol, s)


def disjoint(ivs):
    """pieces that neither overlap nor touch"""
    out = []
    for i in sorted(ivs):
        if not out or i[0] > out[-1][1]:
            out.append(i)
    return out


def discrete(ctx, c, v, var):
    ls = labels_of(v)
    if c['how'] == 'one':
        i = c['vals'][0]
        for f in ('set', 'logic'):
            check(var.str(i, fmt=f) == '%s = %s' % (var.name, ls[i]), 'value %d printed as %r', i, var.str(i, fmt=f))
        ctx.nontrivial(len(ls) > 1)
        return
    vals = set(c['vals'])
    want = sorted(str(ls[i]) for i in vals)
    ctx.nontrivial(len(vals) > 1)
    arg = set(vals)
    s, t = var.str(arg, fmt='set'), var.str(arg, fmt='logic')
    check(arg == vals and var.str(arg) == s, 'printing changed the assignment')
    check(sorted(p[len(var.name) + 3:] for p in t.split(' v ')) == want and all(p.startswith(var.name + ' = ') for p in t.split(' v ')), '%r printed as %r', want, t)
    if len(vals) == 1:
        check(s == '%s = %s' % (var.name, want[0]), '%r printed as %r', want, s)
        return
    m = re.fullmatch(r'%s ∈ \{(.*)\}' % re.escape(var.name), s)
    check(m, 'printed as %r', s)
    got = [str(i) for i in parse_ints(m[1])] if v['k'] == 'int' else m[1].split(', ')
    check(sorted(got) == want, '%r printed as %r', want, s)


def label_ivs(T, s):
    from jpt.base.intervals import RealSet
    out = []
    for i in (s.intervals if isinstance(s, RealSet) else [s]):
        out.append((float(T.value2label(i.lower)), float(T.value2label(i.upper)), i.left, i.right))
    return out


@subcheck('V05', 'tree', MODELS, quick=4000, thorough=40000, shards=3, rule='two or more leaves')
def tree(ctx, case):
    """edges, paths and the printed tree name the splits of the model"""
    jpt = mk_jpt(case)
    ctx.nontrivial(len(jpt.leaves) > 1)
    for node in jpt.innernodes.values():
        v = node.variable
        check(node.str_node == v.name, 'node named %r', node.str_node)
        T = v.domain
        here = set(dict(node.path.items()).get(v, range(T.n_values))) if not v.numeric else None
        for i, s in enumerate(node.splits):
            e = node.str_edge(i)
            check('%s' % e in str(node), 'edge %r missing in %r', e, str(node))
            if v.numeric:
                same_ivs(parse_logic(e, v.name), label_ivs(T, s), 5e-4, e)
            elif v.integer:
                check(sorted(parse_ints(e)) == sorted(T.value2label(set(s))), 'edge %r of %r', e, s)
            else:
                names = {str(T.labels[k]): k for k in range(T.n_values)}
                got = set(names.values()) - {names[e[1:]]} if e.startswith('¬') else {names[e]}
                check(got & here == set(s) & here, 'edge %r of %r', e, s)
    for leaf in jpt.leaves.values():
        t = leaf.format_path()
        path = dict(leaf.path.items())
        parts = t.split(' ^ ') if path else []
        check(len(parts) == len(path) and (path or t == ''), 'path printed as %r', t)
        for p, (v, s) in zip(parts, path.items()):
            if v.numeric:
                same_ivs(parse_logic(p, v.name), label_ivs(v.domain, s), 5e-4, p)
            else:
                want = sorted('%s = %s' % (v.name, v.domain.labels[k]) for k in s)
                check(sorted(p.split(' v ')) == want, 'path %r printed as %r', s, p)
    lines = []

    def walk(node, depth):
        lines.append((depth, str(node)))
        for c in getattr(node, 'children', None) or []:
            walk(c, depth + 1)
    walk(jpt.root, 0)
    got = [l for l in jpt.pfmt().split('\n') if l]
    check(len(got) == len(lines) == len(jpt.allnodes), '%d lines for %d nodes', len(got), len(jpt.allnodes))
    for g, (d, s) in zip(got, lines):
        check(g.strip() == s and (len(g) - len(g.lstrip(' '))) == 4 * d, 'line %r for node %r at depth %d', g, s, d)
    check(jpt.pfmt() in str(jpt), 'printed model')
    for text in (str(jpt), repr(jpt)):
        m = re.search(r'#innernodes = (\d+), #leaves = (\d+) \((\d+) total\)', text)
        check(m and [int(x) for x in m.groups()] == [len(jpt.innernodes), len(jpt.leaves), len(jpt.allnodes)], 'counts in %r', text[-80:])
