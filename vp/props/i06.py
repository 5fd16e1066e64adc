"""I06: query histories leave models, derived models and query objects as they are."""
import io
import pickle
import copy as copylib

import numpy as np
from hypothesis import strategies as st

from vp.core import Skip, check, fail, subcheck
from vp.jpts import *

ASSUMPTIONS = ['The observable state of a model is its JSON document and the answers it gives.',
               'Sampling is compared under a fixed seed of the random number generators.']

KINDS = ['infer', 'infer', 'posterior', 'posterior', 'mpe', 'kmpe', 'expectation', 'moment', 'cond', 'cond', 'sample', 'likelihood', 'pdf', 'encode', 'apply', 'json', 'pickle', 'copy', 'deepcopy', 'save', 'str', 'bind',
         'reverse', 'post-query', 'mutate-copy', 'mutate-cond', 'mutate-posterior', 'eq', 'params', 'leafcopy']


@st.composite
def history(draw):
    m = draw(MODELS)
    evs = [draw(evspec(m, 2)) for _ in range(3)]
    # kind, form of the query, query, evidence, small parameter, asked of (0: model, else a derived one)
    ops = draw(st.lists(st.tuples(st.sampled_from(KINDS), st.sampled_from(['dict', 'bound', 'values']), st.integers(0, 2), st.integers(0, 2), st.integers(0, 5), st.sampled_from([0, 0, 0, 1, 2])).map(list), min_size=3, max_size=10))
    return dict(m=m, evs=evs, ops=ops, again=draw(st.lists(st.integers(0, 20), min_size=2, max_size=6)))


def canon_dist(d):
    return type(d).__name__, str(d.to_json())


def canon(x):
    """answers as comparable text"""
    from jpt.base.intervals import ContinuousSet, RealSet
    from jpt.distributions.univariate import Distribution
    from jpt.trees import JPT, Leaf
    if isinstance(x, JPT):
        return dump(x)
    if isinstance(x, Leaf):
        return 'leaf', x.idx, x.prior
    if isinstance(x, Distribution):
        return canon_dist(x)
    if hasattr(x, 'items'):
        return [type(x).__name__] + sorted((k.name if hasattr(k, 'name') else str(k), canon(v)) for k, v in x.items())
    if isinstance(x, (set, frozenset)):
        return sorted(map(str, x))
    if isinstance(x, (list, tuple)):
        return [canon(y) for y in x]
    if isinstance(x, np.ndarray):
        return canon(x.tolist())
    if isinstance(x, float):
        return repr(x)
    return str(x)


def frozen(q):
    """content of a query object"""
    return canon(q)


@subcheck('I06', 'history', history(), quick=5000, thorough=60000, shards=6, rule='a model of two or more leaves, four or more different kinds of operations')
def query_history(ctx, case):
    """repeating an earlier query after any history gives the earlier answer; model, derived models and queries are unchanged"""
    import random
    import tempfile
    from jpt.base.errors import Unsatisfiability
    from jpt.base.intervals import ContinuousSet
    m = case['m']
    jpt = mk_jpt(m)
    ref = Ref(jpt)
    events = [mk_event(e, m, ref) for e in case['evs']]
    dicts = [e for e, _ in events]
    bound = [jpt.bind(e) for e in dicts]
    values = [b.value_assignment() for b in bound]
    queries = dict(dict=dicts, bound=bound, values=values)
    before_q = {k: [frozen(q) for q in v] for k, v in queries.items()}
    rows = rows_of(m)[:5]
    rows0 = copylib.deepcopy(rows)
    state = dump(jpt)
    known = [(jpt, state, 'the model')]           # models with their documents
    names = [v.name for v in jpt.variables]
    ctx.nontrivial(len(ref.leaves) > 1 and len({o[0] for o in case['ops']}) >= 4)

    def run(op):
        kind, form, qi, ei, k, who = op
        model, _, what = known[who % len(known)] if who else known[0]
        if model is jpt:
            q, e = queries[form][qi], queries[form][ei]
        else:                                      # bound queries belong to the model
            q, e = dicts[qi], dicts[ei]
            if form != 'dict':
                q, e = model.bind(q), model.bind(e)
        np.random.seed(7 + k)
        random.seed(7 + k)
        try:
            if kind == 'infer':
                return model.infer(q, e)
            if kind == 'posterior':
                return model.posterior(names if k % 2 else None, e)
            if kind == 'mpe':
                return model.mpe(e)
            if kind == 'kmpe':
                return list(model.kmpe(e, k=k + 1))
            if kind == 'expectation':
                return model.expectation(names if k % 2 else None, e)
            if kind == 'moment':
                return model.moment(1 + k % 3, None, e if hasattr(e, 'value_assignment') or hasattr(e, 'label_assignment') else model.bind(e))
            if kind == 'cond':
                c = model.conditional_jpt(e if not isinstance(e, dict) else model.bind(e))
                if len(known) < 4:
                    known.append((c, dump(c), 'the model conditioned on %s' % dicts[ei]))
                return c
            if kind == 'sample':
                return model.sample(k)
            if kind == 'likelihood':
                return model.likelihood([list(r) for r in rows])
            if kind == 'pdf':
                a = {n: x for n, x in zip(names, rows[k % len(rows)])}
                return model.pdf(model.bind(a, allow_singular_values=bool(k % 2)))
            if kind == 'encode':
                return model.encode(rows)
            if kind == 'apply':
                return sorted(l.idx for l in model.apply(e))
            if kind == 'json':
                return json.dumps(model.to_json(), sort_keys=True, default=str)
            if kind == 'pickle':
                return pickle.loads(pickle.dumps(model))
            if kind == 'copy':
                c = model.copy()
                if len(known) < 4:
                    known.append((c, dump(c), 'a copy of the model'))
                return c
            if kind == 'deepcopy':
                return copylib.deepcopy(model)
            if kind == 'save':
                with tempfile.TemporaryDirectory() as d:
                    model.save(d + '/m', protocol=['pickle', 'json'][k % 2])
                    return type(model).load(d + '/m', protocol=['pickle', 'json'][k % 2])
            if kind == 'str':
                return [model.pfmt(), str(model), [str(v) for v in model.variables], [str(l) for l in model.leaves.values()]]
            if kind == 'bind':
                return model.bind(dicts[ei])
            if kind == 'reverse':
                return [l.idx for _, l in model.reverse(dicts[qi], .05 * k)]
            if kind == 'eq':
                return model == model.copy()
            if kind == 'params':
                return model.number_of_parameters(), model.depth(), model.total_samples(), canon(model.get_hyperparameters_dict())
            if kind == 'leafcopy':
                l = list(model.leaves.values())[k % len(model.leaves)].copy()
                for v, d in list(l.distributions.items()):
                    spoil(d)
                return l.idx
            if kind == 'post-query':
                # questions to the posterior distributions
                out = []
                for v, d in model.posterior(None, e).items():
                    out += [d.expectation(), canon_dist(d)]
                    if v.numeric and jumps(read_plf(d.cdf)):
                        continue                   # their explanations: D04
                    out.append(d.mpe())
                    if v.numeric:
                        out += [canon_dist(d.crop(ContinuousSet(-INF, d.expectation(), EXC, INC)))]
                    else:
                        out += [canon_dist(d.crop(d.mpe()[0])), canon(d.k_mpe(2))]
                return out
            if kind == 'mutate-copy':
                c = model.copy()
                spoil_model(c, k)
                return None
            if kind == 'mutate-cond':
                c = model.conditional_jpt(e if not isinstance(e, dict) else model.bind(e))
                spoil_model(c, k)
                return None
            if kind == 'mutate-posterior':
                for v, d in model.posterior(names, e).items():
                    spoil(d)
                return None
        except Unsatisfiability:
            return 'unsatisfiable'
        fail('unknown operation %s', kind)

    answers = []
    for op in case['ops']:
        n = len(known)
        answers.append((op[:5] + [op[5] % n], canon(run(op[:5] + [op[5] % n]))))
        unchanged(known, 'after %s' % op)
        now = {k: [frozen(q) for q in v] for k, v in queries.items()}
        check(now == before_q, 'a query object changed by %s: %s, was %s', op, now, before_q)
        check(canon(rows) == canon(rows0), 'the rows passed to the model changed by %s', op)
    for i in case['again']:
        op, a = answers[i % len(answers)]
        b = canon(run(op))
        check(a == b, 'repeating %s after %s: %s, was %s', op, case['ops'], b, a)
    unchanged(known, 'after repeating queries')


def unchanged(known, when):
    for model, doc, what in known:
        now = dump(model)
        if now != doc:
            a, b = json.loads(doc), json.loads(now)
            fail('%s changed %s: %s', what, when, [k for k in a if a[k] != b.get(k)])


def spoil(d):
    """overwrite a distribution in place"""
    if hasattr(d, 'probabilities'):
        n = len(d.probabilities)
        d.set(np.array([1.] + [0.] * (n - 1)))
    else:
        d.fit(np.array([[1.], [2.], [3.]]), np.array([0, 1, 2]), 0)


def spoil_model(c, k):
    """operations that change the derived model in place, through the interface of leaves and distributions"""
    if k % 3 == 0:
        for l in c.leaves.values():
            l.prior = .5
            for d in l.distributions.values():
                spoil(d)
    elif k % 3 == 1:
        for d in c.priors.values():
            spoil(d)
        for v in list(c.minimal_distances):
            c.minimal_distances[v] = 99.
    else:
        c.leaves.clear()
        c.innernodes.clear()
