"""P01: models, variables and distributions survive persistence."""
import copy as copylib
import io
import json
import os
import pickle
import random
import tempfile

import numpy as np
from hypothesis import strategies as st

from vp.core import Skip, check, check_close, close, fail, subcheck
from vp.dists import cprobes, dlabels, domain, mk_domain, mk_numeric, numspec, params
from vp.jpts import *
from vp.plf import read_plf
from vp.props.t02 import t2spec
from vp.props.t03 import frame

ASSUMPTIONS = ['Labels are strings, integers and truth values (JSON has no other scalar labels).',
               'Answers of original and restored model are compared up to 1e-9; documents are compared exactly.']


def tree(x):
    """answers as nested lists, numbers kept"""
    from jpt.base.intervals import NumberSet
    from jpt.distributions.univariate import Distribution
    from jpt.trees import JPT, Leaf
    if isinstance(x, JPT):
        return tree(x.to_json())
    if isinstance(x, Leaf):
        return ['leaf', x.idx]
    if isinstance(x, Distribution):
        return [type(x).__name__, tree(x.to_json())]
    if isinstance(x, NumberSet):
        return tree(x.to_json())
    if hasattr(x, 'items'):
        return sorted(([k.name if hasattr(k, 'name') else str(k), tree(v)] for k, v in x.items()), key=lambda t: t[0])
    if isinstance(x, (set, frozenset)):
        return sorted((tree(y) for y in x), key=str)
    if isinstance(x, np.ndarray):
        return tree(x.tolist())
    if isinstance(x, (list, tuple)):
        return [tree(y) for y in x]
    if isinstance(x, (bool, np.bool_)) or x is None:
        return str(x)
    if isinstance(x, (float, int, np.number)):
        return float(x)
    return str(x)


def differ(a, b, path=''):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s: %r / %r' % (path, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, '%s/%s' % (path, a[0] if i and isinstance(a[0], str) else i))
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, float):
        return None if close(a, b, 1e-9, 1e-9) else '%s: %r / %r' % (path, a, b)
    return None if a == b else '%s: %r / %r' % (path, a, b)


def battery(model, rows, dicts):
    """(question, answer) pairs"""
    from jpt.base.errors import Unsatisfiability

    def ask(name, fn):
        np.random.seed(11)
        random.seed(11)
        try:
            return name, tree(fn())
        except Unsatisfiability:
            return name, 'unsatisfiable'
        except Exception as x:                       # whether the answer is right is decided by other properties
            return name, 'raises %s' % type(x).__name__
    names = [v.name for v in model.variables]
    if not model.leaves:
        return [('unlearned', [tree(model.to_json())])]
    out = []
    for i, (q, e) in enumerate(zip(dicts, dicts[1:] + dicts[:1])):
        out.append(ask('probability %s given %s' % (q, e), lambda: model.infer(q, e)))
        out.append(ask('posterior given %s' % e, lambda: model.posterior(names, e)))
        out.append(ask('expectation given %s' % e, lambda: model.expectation(names, e)))
        out.append(ask('moment given %s' % e, lambda: model.moment(2, None, model.bind(e))))
        out.append(ask('explanation of %s' % e, lambda: model.mpe(e)))
        out.append(ask('explanations of %s' % e, lambda: list(model.kmpe(e, k=3))))
        out.append(ask('leaves of %s' % e, lambda: [l.idx for l in model.apply(model.bind(e))]))
        out.append(ask('model given %s' % e, lambda: model.conditional_jpt(model.bind(e))))
    out.append(ask('likelihood of the rows', lambda: model.likelihood([list(r) for r in rows])))
    out.append(ask('leaves of the rows', lambda: model.encode([list(r) for r in rows])))
    out.append(ask('density', lambda: [model.pdf(model.bind(dict(zip(names, r)), allow_singular_values=True)) for r in rows[:3]]))
    out.append(ask('samples', lambda: model.sample(4)))
    out.append(ask('depth and size', lambda: [model.depth(), model.total_samples(), model.number_of_parameters()]))
    out.append(ask('text', lambda: [model.pfmt(), str(model)]))
    return out


def same_variable(v, w, how):
    check(type(v) is type(w), '%s: variable %s became a %s', how, v, type(w).__name__)
    check(v == w and w == v and not v != w, '%s: variable %r (%s) restored as %r (%s)', how, v, v.settings, w, w.settings)
    check(dict(v.settings) == dict(w.settings), '%s: settings %s of %s restored as %s', how, v.settings, v, w.settings)
    for s in v.settings:
        check(getattr(v, s) == getattr(w, s), '%s: setting %s of %s', how, s, v)
    check(hash(v) == hash(w), '%s: equal variables %s with different hashes', how, v)
    check(v.domain.equiv(w.domain) and w.domain.equiv(v.domain), '%s: domain of %s', how, v)
    check(str(v) == str(w), '%s: %s restored as %s', how, v, w)


def same_model(a, b, how, answers, rows, dicts, own=False):
    check(a == b, '%s: the restored model is not equal to the original', how)
    check(b == a, '%s: the original is not equal to the restored model', how)
    check(len(a.variables) == len(b.variables), '%s: number of variables', how)
    for v, w in zip(a.variables, b.variables):
        same_variable(v, w, how)
    for what in ('min_samples_leaf', 'min_impurity_improvement', 'max_depth', 'max_leaves'):
        check(getattr(a, what) == getattr(b, what), '%s: %s is %r, was %r', how, what, getattr(b, what), getattr(a, what))
    names = lambda vs: [v.name for v in vs]
    check(names(a.targets) == names(b.targets) and names(a.features) == names(b.features), '%s: targets and features %s %s, were %s %s', how, b.targets, b.features, a.targets, a.features)
    deps = lambda m: sorted((v.name, names(d)) for v, d in m.dependencies.items())
    check(deps(a) == deps(b), '%s: dependencies %s, were %s', how, deps(b), deps(a))
    da, db = dump(a), dump(b)
    if da != db:
        x, y = json.loads(da), json.loads(db)
        k = [k for k in x if x[k] != y.get(k)]
        fail('%s: the restored model is saved as another document: %s', how, '; '.join('%s: %s / %s' % (i, x[i], y.get(i)) for i in k)[:2000])
    for (q, x), (_, y) in zip(answers, battery(b, rows, dicts)):
        d = differ(x, y)
        check(d is None, '%s: %s of the restored model: %s', how, q, d)
    for i, l in a.leaves.items():
        k = b.leaves[i]
        check(tree(l.path) == tree(k.path) and l.depth() == k.depth() and list(l.s_indices) == list(k.s_indices), '%s: path or rows of leaf %d', how, i)
        check(l == k and l.prior == k.prior and l.samples == k.samples, '%s: leaf %d', how, i)
    for i, n in a.innernodes.items():
        k = b.innernodes[i]
        check(n == k and tree(n.path) == tree(k.path) and str(n) == str(k), '%s: node %d: %s / %s', how, i, n, k)


def restored(m, scratch):
    from jpt.trees import JPT
    data = m.to_json()
    t = json.dumps(data)
    yield 'JSON', JPT.from_json(data)
    yield 'JSON text', JPT.from_json(json.loads(t))
    yield 'JSON text, twice', JPT.from_json(json.loads(json.dumps(JPT.from_json(json.loads(t)).to_json())))
    check(json.dumps(data) == t and dump(m) == json.dumps(data, sort_keys=True), 'restoring changed the document')
    yield 'JSON with given variables', JPT.from_json(json.loads(t), variables=m.variables)
    yield 'pickle', pickle.loads(pickle.dumps(m))
    yield 'pickle (protocol 2)', pickle.loads(pickle.dumps(m, 2))
    yield 'deep copy', copylib.deepcopy(m)
    yield 'copy', m.copy()
    for p in ('pickle', 'json'):
        f = os.path.join(scratch, 'model.' + p)
        m.save(f, protocol=p)
        yield 'file (%s)' % p, JPT.load(f, protocol=p)
        b = io.BytesIO() if p == 'pickle' else io.StringIO()
        m.save(b, protocol=p)
        b.seek(0)
        yield 'file object (%s)' % p, JPT.load(b, protocol=p)


SETTINGS = dict(num=st.fixed_dictionaries({}, optional=dict(blur=st.sampled_from([.5, 0., 2]), max_std=st.sampled_from([.25, 1]), min_impurity_improvement=st.sampled_from([.125, .01]))),
                int=st.fixed_dictionaries({}, optional=dict(min_impurity_improvement=st.sampled_from([.125, .01]))),
                sym=st.fixed_dictionaries({}, optional=dict(min_impurity_improvement=st.sampled_from([.125, .01]), invert_impurity=st.booleans())))
SETTINGS['scaled'], SETTINGS['bool'] = SETTINGS['num'], SETTINGS['sym']


@st.composite
def pcase(draw):
    m = draw(st.one_of(MODELS, t2spec(min_vars=2, max_vars=4, min_rows=4, max_rows=20)))
    for v in m['vars']:
        if draw(st.integers(0, 2)) == 0:
            v['set'] = draw(SETTINGS[v['k']])
    return dict(m=m, evs=[draw(evspec(m, 2)) for _ in range(2)], kind=draw(st.sampled_from(['learned', 'learned', 'learned', 'kept', 'conditional', 'conditional', 'pruned', 'weighted', 'unlearned', 'frame', 'frame'])),
                max_leaves=draw(st.sampled_from([None, None, 5])), cond=draw(evspec(m, 2)), seed=draw(st.integers(0, 99)))


@subcheck('P01', 'models', pcase(), quick=360, thorough=14000, shards=6, rule='a model with two or more leaves')
def models(ctx, case):
    from jpt.base.errors import Unsatisfiability
    from jpt.trees import JPT
    from jpt.variables import infer_from_dataframe
    m = case['m']
    if not well_spaced(m):
        raise Skip()
    rows = rows_of(m)
    kind = case['kind']
    if kind == 'unlearned':
        jpt = new_jpt(m)
    elif kind == 'frame':
        df = frame(m, rows, 'natural')
        for c in df:
            if len(set(map(type, df[c]))) > 1:
                raise Skip()
        jpt = new_jpt(m, infer_from_dataframe(df, scale_numeric_types=bool(case['seed'] % 2), precision=.05, blur=.25 if case['seed'] % 3 else None))
        jpt.learn(df, close_convex_gaps=m.get('hp', {}).get('ccg', True))
    else:
        jpt = mk_jpt(m, **(dict(keep_samples=True) if kind == 'kept' else {}))
    if case['max_leaves']:
        jpt.max_leaves = case['max_leaves']
    dicts = []
    if kind != 'unlearned':
        ref = Ref(jpt)
        if kind == 'frame':
            dicts = [{v.name: r[j]} for r in rows[:2] for j, v in enumerate(jpt.variables) if isinstance(r[j], (int, float))][:3] + [{}]
        else:
            dicts = [mk_event(e, m, ref)[0] for e in case['evs']] + [{}]
        if kind == 'conditional':
            try:
                jpt = jpt.conditional_jpt(jpt.bind(mk_event(case['cond'], m, ref)[0]))
            except Unsatisfiability:
                raise Skip()
        elif kind == 'pruned':
            try:
                jpt = jpt.prune(similarity_threshold=.5) or jpt
            except Exception:
                raise Skip()                         # pruning: M01
        elif kind == 'weighted':
            rng = np.random.RandomState(case['seed'])
            w = rng.rand(len(jpt.leaves)) + .01
            for l, x in zip(jpt.leaves.values(), w / w.sum()):
                l.prior = float(x)
    ctx.nontrivial(len(jpt.leaves) > 1)
    before = dump(jpt)
    answers = battery(jpt, rows, dicts)
    with tempfile.TemporaryDirectory() as scratch:
        for how, r in restored(jpt, scratch):
            check(r is not jpt, '%s: not a new object', how)
            same_model(jpt, r, how, answers, rows, dicts)
            r.leaves.clear()
            for v in r.variables:
                if how not in ('copy', 'JSON with given variables'):
                    v.settings['blur' if v.numeric else 'min_impurity_improvement'] = 77
            check(dump(jpt) == before, '%s: changing the restored model changed the original', how)


@st.composite
def vcase(draw):
    k = draw(st.sampled_from(['num', 'scaled', 'int', 'sym', 'bool']))
    v = draw(varspec((k,)))
    v['set'] = draw(SETTINGS[k])
    return dict(v=v, x=draw(st.lists(st.integers(-5, 5).map(float), min_size=2, max_size=4)))


@subcheck('P01', 'variables', vcase(), quick=600, thorough=10000, shards=1, rule='at least one setting differs from its default')
def variables(ctx, case):
    from jpt.variables import Variable
    v = case['v']
    ctx.nontrivial(bool(v['set']) or v.get('prec') is not None)
    x, = mk_vars(dict(vars=[v], rows=[[a] for a in case['x']]))
    settings = dict(x.settings)
    for k, val in v['set'].items():
        check(settings['max_std_lbl' if k == 'max_std' else k] == val, 'setting %s of a new variable', k)
    doc = json.dumps(x.to_json(), sort_keys=True)
    for how, fn in [('JSON', lambda: Variable.from_json(x.to_json())), ('JSON text', lambda: Variable.from_json(json.loads(json.dumps(x.to_json())))), ('JSON of its class', lambda: type(x).from_json(x.to_json())),
                    ('pickle', lambda: pickle.loads(pickle.dumps(x))), ('copy', lambda: x.copy()), ('deep copy', lambda: copylib.deepcopy(x)), ('copy.copy', lambda: copylib.copy(x))]:
        y = fn()
        same_variable(x, y, how)
        check(json.dumps(y.to_json(), sort_keys=True) == doc, '%s: %s restored is saved as %s', how, doc, y.to_json())
        d = y.distribution()
        check(dict(d.settings) == dict(x.distribution().settings), '%s: settings of the distributions of the restored variable: %s', how, d.settings)
        for s in y.settings:
            y.settings[s] = 77
        check(dict(x.settings) == settings, '%s: changing the settings of the restored variable changed those of the original', how)
        if v['k'] in ('int', 'sym', 'bool'):
            for l in labels_of(v):
                check(y.domain.label2value(l) == x.domain.label2value(l), '%s: value of the label %r', how, l)
                check(y.domain.value2label(x.domain.label2value(l)) == l, '%s: label %r', how, l)
        else:
            for a in case['x'] + [.1]:
                check(y.domain.label2value(a) == x.domain.label2value(a) and y.domain.value2label(a) == x.domain.value2label(a), '%s: value of %r', how, a)


@st.composite
def dcase(draw):
    if draw(st.booleans()):
        return dict(num=draw(numspec(depth=1)), scaled=draw(st.booleans()), prec=draw(st.sampled_from([.01, .2])), unset=draw(st.integers(0, 9)) == 0)
    dom = draw(domain())
    return dict(dom=dom, p=draw(params(len(dlabels(dom)))), unset=draw(st.integers(0, 5)) == 0)


def questions(d, spec):
    if spec['unset']:
        return []
    if 'num' in spec:
        xs = cprobes(read_plf(d.cdf))
        return [('cdf', [d._quantile.cdf.eval(x) for x in xs]), ('pdf', [d._quantile.pdf.eval(x) for x in xs]), ('expectation', d.expectation()), ('labels', [d.value2label(x) for x in xs] + [d.label2value(x) for x in xs])]
    return [('p', [d.p({l}) for l in dlabels(spec['dom'])]), ('expectation', tree(d.expectation())), ('mpe', tree(d.mpe())), ('labels', list(d.labels.values())), ('text', str(d))]


@subcheck('P01', 'distributions', dcase(), quick=800, thorough=16000, shards=2, rule='numeric with several pieces, or three or more labels')
def distributions(ctx, case):
    from jpt.base.intervals import ContinuousSet
    from jpt.distributions.univariate import Distribution, Numeric, NumericType
    if 'num' in case:
        cls = NumericType('T', np.array([1., 2., 5.])) if case['scaled'] else Numeric
        d = mk_numeric(case['num'], cls) if not case['unset'] else cls()
        d.settings['precision'] = case['prec']
        ctx.nontrivial(not case['unset'] and len(read_plf(d.cdf)) > 3)
    else:
        cls = mk_domain(case['dom'])
        d = cls() if case['unset'] else cls().set(np.array(case['p']))
        ctx.nontrivial(len(case['p']) > 2)
    unset = case['unset']

    def via(doc, types):
        return Distribution.from_json(types).from_json(doc)
    ways = [('pickle', lambda: pickle.loads(pickle.dumps(d))), ('pickle (protocol 2)', lambda: pickle.loads(pickle.dumps(d, 2))), ('deep copy', lambda: copylib.deepcopy(d)), ('copy.copy', lambda: copylib.copy(d))]
    ways += [('JSON', lambda: cls.from_json(d.to_json())), ('JSON text', lambda: cls.from_json(json.loads(json.dumps(d.to_json())))), ('JSON with its type', lambda: via(json.loads(json.dumps(d.to_json())), json.loads(json.dumps(cls.to_json())))),
             ('copy', lambda: d.copy())]
    doc = json.dumps(d.to_json(), sort_keys=True)
    want = questions(d, case)
    for how, fn in ways:
        e = fn()
        check(e is not d, '%s: not a new object', how)
        check(type(e).equiv(type(d)) and type(d).equiv(type(e)), '%s: type %s became %s', how, type(d), type(e))
        if unset:
            check((e._quantile if 'num' in case else e.probabilities) is None, '%s: a distribution without parameters got some', how)
            check(json.dumps(e.to_json(), sort_keys=True) == doc, '%s: the restored distribution is saved as %s, was %s', how, e.to_json(), doc)
            if 'num' in case:
                e._fit(np.array([[1.], [2.], [4.]]))
                check_close(e._p(ContinuousSet(-INF, 5, EXC, EXC)), 1, '%s: fitting the restored distribution', how)
            else:
                e.set(np.ones(len(case['p'])) / len(case['p']))
                check_close(e.p(set(dlabels(case['dom']))), 1, '%s: setting the restored distribution', how)
            continue
        check(d == e and e == d, '%s: %s restored as %s is not equal to the original', how, d, e)
        check(dict(d.settings) == dict(e.settings), '%s: settings %s restored as %s', how, d.settings, e.settings)
        check(json.dumps(e.to_json(), sort_keys=True) == doc, '%s: the restored distribution is saved as %s, was %s', how, e.to_json(), doc)
        for (q, x), (_, y) in zip(want, questions(e, case)):
            t = differ(tree(x), tree(y))
            check(t is None, '%s: %s of the restored distribution: %s', how, q, t)
        if how != 'copy.copy':
            if 'num' in case:
                e.cdf.functions[-1].value = 5.
            else:
                e.probabilities[:] = 0
            e.settings['x'] = 1
            check(json.dumps(d.to_json(), sort_keys=True) == doc, '%s: changing the restored distribution changed the original', how)


@subcheck('P01', 'equality', st.fixed_dictionaries({'m': jptspec(min_vars=2, min_rows=3, max_rows=12), 'what': st.integers(0, 9), 'by': st.integers(1, 5), 'learn': st.booleans()}), quick=1500, thorough=20000, shards=2,
          rule='a learned model with two or more leaves')
def equality(ctx, case):
    """models are equal exactly if they have the same variables, settings and parameters; other objects are never equal to one"""
    from jpt.trees import JPT
    m, by = case['m'], case['by']
    if not well_spaced(m):
        raise Skip()

    def make(change=None, rows=None):
        vs = mk_vars(m)
        h = m.get('hp', {})
        kw = dict(targets=[vs[i] for i in h['targets']] if h.get('targets') else None, features=[vs[i] for i in h['features']] if h.get('features') else None,
                  min_samples_leaf=h.get('msl', 1), min_impurity_improvement=h.get('mii'), max_depth=h.get('depth'), max_leaves=40)
        if change:
            vs, kw = change(vs, kw) or (vs, kw)
        j = JPT(vs, **kw)
        if case['learn']:
            j.learn(rows=rows or rows_of(m))
        return j
    a, b = make(), make()
    ctx.nontrivial(case['learn'] and len(a.leaves) > 1)
    check(a == b and b == a and not a != b and a == a, 'models with the same settings and data are not equal')
    for x in (None, 5, 'model', [], a.to_json(), a.variables):
        check(not a == x and a != x and not x == a, 'a model equals %r', type(x))
    same = lambda x, y: [v.name for v in x] == [v.name for v in y]

    def f_leaf(vs, kw): kw['min_samples_leaf'] = (kw['min_samples_leaf'] or 1) + by
    def f_imp(vs, kw): kw['min_impurity_improvement'] = (kw['min_impurity_improvement'] or 0) + by / 16
    def f_depth(vs, kw): kw['max_depth'] = (kw['max_depth'] or 0) + by
    def f_leaves(vs, kw): kw['max_leaves'] += by
    def f_targets(vs, kw):
        old = kw['targets'] or vs
        kw['features'] = kw['features'] or (vs if not kw['targets'] else [v for v in vs if v not in old])
        kw['targets'] = [vs[by % len(vs)]] if not same(old, [vs[by % len(vs)]]) else [vs[(by + 1) % len(vs)]]
    def f_features(vs, kw):
        old = kw['features'] or (vs if not kw['targets'] else [v for v in vs if v not in kw['targets']])
        kw['targets'] = kw['targets'] or list(vs)
        kw['features'] = [vs[by % len(vs)]] if not same(old, [vs[by % len(vs)]]) else [vs[(by + 1) % len(vs)]]
    def f_deps(vs, kw): kw['dependencies'] = {v: [] for v in vs}
    def f_name(vs, kw):
        vs[by % len(vs)]._name += 'x'
    def f_setting(vs, kw):
        vs[by % len(vs)].settings['min_impurity_improvement'] = .125
    name, change = [(f.__name__, f) for f in (f_leaf, f_imp, f_depth, f_leaves, f_targets, f_features, f_deps, f_name, f_setting)][case['what'] % 9]
    if name == 'f_features' and not m.get('hp', {}).get('targets'):
        # all variables as explicit targets are the same as no targets
        base = make(lambda vs, kw: (vs, dict(kw, targets=list(vs), features=kw['features'] or list(vs))))
        check(base == a and a == base, 'explicit targets and features make another model than the default')
    c = make(change)
    check(not a == c and not c == a and a != c, 'equal models although they differ in %s', name[2:])
    if case['learn']:
        r = rows_of(m)
        d = make(rows=r + [r[by % len(r)]] * by)
        if tree(d) != tree(a):
            if sorted(l.prior for l in a.leaves.values()) != sorted(l.prior for l in d.leaves.values()):
                check(a != d and d != a, 'equal models although their leaves differ')
        check(make(rows=r) == a, 'learning the same data again gives another model')
        e = JPT(mk_vars(m), min_samples_leaf=a.min_samples_leaf)
        check(a != e and e != a, 'a learned model equals one that is not')
