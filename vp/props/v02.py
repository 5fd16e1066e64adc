"""V02: variable maps and assignments as dictionaries."""
import copy as copymod
import json
import pickle

from hypothesis import strategies as st

from vp.core import check, fail, subcheck
from vp.sets import EXC, INC, INF

ASSUMPTIONS = ['Deleting an entry also makes the map forget the variable (as the tests expect), so that its bare name is unknown afterwards.',
               'Whether a shallow copy shares the (mutable) sets it holds with its source is left open.']

NAMES = ['n', 'z', 's', 'k', 'i', 'b']      # plain and scaled numeric, strings, numbers as symbols, integer, Boolean
NS = 3

_val = st.tuples(st.integers(0, 3), st.integers(0, 20), st.integers(0, 20)).map(list)
_s = st.integers(0, NS - 1)
_v = st.integers(0, 5)
OP = st.one_of(
    st.tuples(st.just('set'), _s, _v, st.booleans(), _val).map(list),
    st.tuples(st.just('set'), _s, _v, st.booleans(), _val).map(list),
    st.tuples(st.just('set'), _s, _v, st.booleans(), _val).map(list),
    st.tuples(st.just('del'), _s, _v, st.booleans()).map(list),
    st.tuples(st.sampled_from(['update', 'iadd', 'isub']), _s, _s).map(list),
    st.tuples(st.just('isubvar'), _s, _v, st.booleans()).map(list),
    st.tuples(st.sampled_from(['copy', 'deep', 'pickle', 'deepcopy', 'json', 'ctor', 'ctordict']), _s, _s).map(list),
    st.tuples(st.just('new'), _s, st.lists(_v, max_size=4), st.lists(st.tuples(_v, _val).map(list), max_size=4), st.booleans()).map(list),
    st.tuples(st.just('bad'), _s, st.integers(0, 9), st.booleans()).map(list),
    st.tuples(st.sampled_from(['mutate']), _s, _v, st.integers(0, 20)).map(list),
    st.tuples(st.just('sets'), _s).map(list))

INIT = st.lists(st.tuples(_v, _val).map(list), max_size=4)


def pool():
    import numpy as np
    from jpt.distributions.univariate import Bool, IntegerType, NumericType, SymbolicType
    from jpt.variables import IntegerVariable, NumericVariable, SymbolicVariable
    return [NumericVariable('n'), NumericVariable('z', NumericType('Z', np.array([0., 2., 10.]))), SymbolicVariable('s', SymbolicType('S', ['lo', 'mid', 'hi'])),
            SymbolicVariable('k', SymbolicType('K', [3, 1, 2])), IntegerVariable('i', IntegerType('I', -2, 3)), SymbolicVariable('b', Bool)]


DOM = {'s': ['lo', 'mid', 'hi'], 'k': [3, 1, 2], 'i': [-2, -1, 0, 1, 2, 3], 'b': [False, True]}


def value(kind, n, spec):
    """the value a spec stands for in a map of the given kind"""
    from jpt.base.intervals import ContinuousSet, RealSet
    form, a, b = spec
    if kind == 'map':
        return [a, 'x%d' % b, [a, b], a / 4][form]
    if n in 'nz':
        if form == 0:
            return a / 2
        if form == 1:
            return ContinuousSet(a / 2, a / 2 + b / 4 + .25, 1 + a % 2, 1 + b % 2)
        if form == 2:
            return RealSet([ContinuousSet(a - 3., a - 2., INC, EXC), ContinuousSet(a + 0., INF, EXC, EXC)])
        return a
    d = DOM[n] if kind == 'label' else list(range(len(DOM[n])))
    x, y = d[a % len(d)], d[b % len(d)]
    return {0: x, 1: {x}, 2: {x, y}, 3: set(d)}[form]


def bads(kind, vs):
    """(key, value, error) that have to be refused"""
    from jpt.variables import NumericVariable
    out = [('nope', 1, ValueError), (5, 1, ValueError), (None, 1, ValueError)]
    if kind != 'map':
        out += [(vs[0], 'x', TypeError), (vs[1], {1, 2}, TypeError), (vs[0], [0, 1], TypeError), (vs[1], None, TypeError),
                (vs[2], 'bad' if kind == 'label' else 3, TypeError), (vs[2], {'lo', 'bad'} if kind == 'label' else {0, 3}, TypeError), (vs[5], 2, TypeError), (vs[3], {7}, TypeError)]
    return out


@subcheck('V02', 'history', st.fixed_dictionaries({'kind': st.sampled_from(['map', 'label', 'value']), 'init': st.lists(INIT, min_size=NS, max_size=NS), 'ops': st.lists(OP, min_size=3, max_size=25)}), quick=8000, thorough=200000, shards=4,
          rule='two or more maps with entries and a copy among the operations')
def history(ctx, case):
    """operation histories over three maps against dictionaries"""
    from jpt.variables import LabelAssignment, ValueAssignment, VariableMap
    cls = {'map': VariableMap, 'label': LabelAssignment, 'value': ValueAssignment}[case['kind']]
    kind = case['kind']
    vs = pool()
    byname = {v.name: v for v in vs}
    maps, mods = [], []                             # the latter: (entries, known names)
    for ini in case['init']:
        pairs = [(vs[k], value(kind, vs[k].name, x)) for k, x in ini]
        maps.append(cls(pairs))
        mods.append(({v.name: copymod.deepcopy(x) for v, x in pairs}, {v.name for v, _ in pairs}))
    copied = False
    for step, op in enumerate(case['ops']):
        o, i = op[0], op[1]
        m, (d, known) = maps[i], mods[i]
        what = 'after step %d %r' % (step, op)
        if o == 'set':
            v, val = vs[op[2]], value(kind, vs[op[2]].name, op[4])
            key = v.name if op[3] else v
            if op[3] and v.name not in known:
                refuse(lambda: m.__setitem__(key, val), ValueError, what)
            else:
                m[key] = val
                d[v.name] = copymod.deepcopy(val)
                known.add(v.name)
        elif o in ('del', 'isubvar'):
            v = vs[op[2]]
            key = v.name if op[3] else v
            if v.name in d:
                if o == 'del':
                    del m[key]
                else:
                    m -= key
                    maps[i] = m
                del d[v.name]
                known.discard(v.name)
            elif o == 'del':
                refuse(lambda: m.__delitem__(key), KeyError, what)
        elif o in ('update', 'iadd', 'isub'):
            e, k2 = mods[op[2]]
            if o == 'update':
                r = m.update(maps[op[2]])
                check(r is m, 'update returns %r', r)
                known |= k2
                d.update(copymod.deepcopy(e))
            elif o == 'iadd':
                m += maps[op[2]]
                d.update(copymod.deepcopy(e))
                known |= set(e)
            else:
                m -= maps[op[2]]
                for n in list(e):
                    if n in d:
                        del d[n]
                        known.discard(n)
            check(m is maps[i], 'the map is replaced')
        elif o in ('copy', 'deep', 'pickle', 'deepcopy', 'json', 'ctor', 'ctordict'):
            j = op[2]
            if o == 'copy':
                c = m.copy()
            elif o == 'deep':
                c = m.copy(deep=True)
            elif o == 'pickle':
                c = pickle.loads(pickle.dumps(m))
            elif o == 'deepcopy':
                c = copymod.deepcopy(m)
            elif o == 'json':
                t = json.dumps(m.to_json())
                c = cls.from_json(vs, json.loads(t))
                check(json.dumps(c.to_json()) == t or any(type(x) is set for x in d.values()), 'JSON of the restored map differs: %s', t)
            elif o == 'ctor':
                c = cls([(byname[n], x) for n, x in m.map.items()], variables=m.variables)
            else:
                c = cls({byname[n]: x for n, x in m.map.items()}, variables=m.variables)
            check(type(c) is cls and c is not m, 'copy is %r', c)
            if d and i != j:
                copied = True
            maps[j] = c
            if o in ('copy', 'ctor', 'ctordict'):   # may share values with the source: decouple
                for v in list(c):
                    c[v] = copymod.deepcopy(c[v])
            mods[j] = (copymod.deepcopy(d), set(d) if o == 'json' else set(known))
        elif o == 'new':
            knownv = [vs[k] for k in op[2]]
            pairs = [(vs[k], value(kind, vs[k].name, x)) for k, x in op[3]]
            maps[i] = cls(dict(pairs) if op[4] else pairs, variables=knownv)
            mods[i] = ({v.name: copymod.deepcopy(x) for v, x in pairs}, {v.name for v in knownv} | {v.name for v, _ in pairs})
        elif o == 'bad':
            b = bads(kind, vs)
            key, val, err = b[op[2] % len(b)]
            if op[3] and key in vs and key.name in known:
                key = key.name
            refuse(lambda: m.__setitem__(key, val), err, what)
        elif o == 'mutate':
            n = vs[op[2]].name
            if type(d.get(n)) is set and kind != 'map' and sum(mm.get(n) is m[n] for mm in maps) == 1:
                x = sorted(DOM[n])[op[3] % len(DOM[n])] if kind == 'label' else op[3] % len(DOM[n])
                m[n].add(x)
                d[n].add(x)
        elif o == 'sets' and kind != 'map':
            s = m.scalar2sets()
            check(type(s) is cls and s is not m and [v.name for v in s] == list(d), 'scalar2sets %r', s)
            for v, x in s.items():
                check(x == (d[v.name] if not isinstance(d[v.name], (int, float, str)) else {d[v.name]} if v.name not in 'nz' else v.assignment2set(d[v.name])) and not isinstance(x, (int, float, str)),
                      'scalar2sets: %r of %r', x, d[v.name])
        for m, (d, known) in zip(maps, mods):
            compare(m, d, known, byname, what)
        for a in range(NS):
            for b in range(NS):
                eq = mods[a] == mods[b]
                check((maps[a] == maps[b]) is eq and (maps[a] != maps[b]) is not eq, '%s: %r == %r is %r', what, maps[a], maps[b], not eq)
                if eq and kind != 'map':
                    check(hash(maps[a]) == hash(maps[b]), '%s: hashes of equal %r and %r', what, maps[a], maps[b])
    ctx.nontrivial(copied and sum(bool(d) for d, _ in mods) > 1)
    ctx.label('length of history', len(case['ops']))


def refuse(f, err, what):
    try:
        f()
    except err:
        return
    except Exception as e:
        fail('%s: %s: %s instead of %s', what, type(e).__name__, e, err.__name__)
    fail('%s was accepted', what)


def same(a, b):
    return type(a) is type(b) and a == b


def compare(m, d, known, byname, what):
    check(len(m) == len(d) and bool(m) is bool(d), '%s: length %d, expected %r', what, len(m), d)
    check([v.name for v in m] == list(d) and [v.name for v in m.keys()] == list(d), '%s: keys %r, expected %r', what, list(m), list(d))
    check([(v.name, x) for v, x in m.items()] == list(d.items()), '%s: %r, expected %r', what, m, d)
    check(all(map(same, m.values(), d.values())) and len(list(m.values())) == len(d), '%s: values %r, expected %r', what, m, d)
    check({v.name for v in m.variables} == known and set(m.varnames) == known, '%s: known variables %r, expected %r', what, m.variables, known)
    for n, v in byname.items():
        check((n in m) is (n in d) and (v in m) is (n in d), '%s: containment of %s', what, n)
        if n in d:
            check(same(m[n], d[n]) and same(m[v], d[n]) and same(m.get(n), d[n]) and same(m.get(v, 'other'), d[n]), '%s: entry %s is %r, expected %r', what, n, m[n], d[n])
        else:
            check(m.get(n) is None and m.get(v, 'dflt') == 'dflt', '%s: default of %s', what, n)
            for k in (n, v):
                refuse(lambda: m[k], KeyError, '%s: m[%r]' % (what, k))
    check(all(byname[v.name] == v for v in m), '%s: variables', what)
