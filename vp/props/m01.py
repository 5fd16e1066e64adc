"""M01: re-weighting, pruning and post-processing."""
import numpy as np
from hypothesis import strategies as st

from vp.core import Skip, check, check_close, fail, subcheck
from vp.dists import cprobes, jumps, set_mass, slope_tol
from vp.jpts import *
from vp.plf import peval, read_plf

ASSUMPTIONS = ['How similar two leaves are is measured with the distributions\' own Jaccard index (decided by M02).',
               'Pruning with an approximation is only required to keep a valid distribution.',
               'Trees whose leaf distributions carry point masses keep their masses in the CDF; the density of merged point masses is finding D04-atoms.']
TOL = dict(rtol=1e-6, atol=1e-8)
WT = st.sampled_from([0, 0, 1, 1, 2, 3, .5, .25, 10, 1e-3])


def valid(jpt, what):
    """priors sum to one, leaf distributions are distributions, structure is consistent"""
    pri = [l.prior for l in jpt.leaves.values()]
    check(all(p >= -1e-12 for p in pri), '%s: priors %r', what, pri)
    check_close(sum(pri), 1, '%s: sum of priors', what, **TOL)
    for i, l in jpt.leaves.items():
        check(l.idx == i, '%s: leaf %r is registered as %r', what, l.idx, i)
        for v in jpt.variables:
            d = l.distributions[v]
            if v.numeric:
                segs = read_plf(d.cdf)
                ys = [peval(segs, x) for x in cprobes(segs)]
                check(abs(ys[0]) < 1e-7 and abs(ys[-1] - 1) < 1e-7 and all(b - a > -1e-7 for a, b in zip(ys, ys[1:])), '%s: CDF of %s in leaf %d: %r', what, v.name, i, ys)
            else:
                check_close(sum(d.probabilities), 1, '%s: probabilities of %s in leaf %d', what, v.name, i, **TOL)
    seen = set()

    def walk(node, path):
        check(node.idx not in seen, '%s: node %d occurs twice', what, node.idx)
        seen.add(node.idx)
        if node.idx in jpt.leaves:
            check(jpt.leaves[node.idx] is node, '%s: leaf %d', what, node.idx)
        else:
            check(jpt.innernodes[node.idx] is node, '%s: node %d', what, node.idx)
            check(len(node.children) == len(node.splits), '%s: node %d has %d children and %d splits', what, node.idx, len(node.children), len(node.splits))
            for c, s in zip(node.children, node.splits):
                check(c.parent is node, '%s: parent of node %d', what, c.idx)
                walk(c, path + [(node.variable, s)])
    walk(jpt.root, [])
    check(seen == set(jpt.leaves) | set(jpt.innernodes), '%s: reachable nodes %r, registered %r', what, sorted(seen), sorted(set(jpt.leaves) | set(jpt.innernodes)))


def same_leaf(a, b, jpt, what, wprior=True):
    check(not wprior or abs(a.prior - b.prior) < 1e-12, '%s: prior', what)
    for v in jpt.variables:
        check(str(a.distributions[v].to_json()) == str(b.distributions[v].to_json()), '%s: distribution of %s has changed', what, v.name)


@subcheck('M01', 'reweight', st.tuples(with_events(MODELS), st.lists(WT, min_size=1, max_size=12), st.lists(WT, min_size=1, max_size=12)).map(list), quick=3000, thorough=40000, shards=2,
          rule='two or more leaves and unequal factors')
def reweight(ctx, case):
    """multiply_by_leaf_prior / normalize: priors proportional to prior times factor, nothing else changes"""
    from jpt.base.errors import Unsatisfiability
    c, w1, w2 = case
    jpt = mk_jpt(c['m'])
    orig = jpt.copy()
    p = {i: l.prior for i, l in jpt.leaves.items()}
    idx = list(p)
    for w in (w1, w2):
        f = {i: w[k % len(w)] for k, i in enumerate(idx)}
        keep = dict(f)
        p = {i: p[i] * f[i] for i in idx}
        t = sum(p.values())
        if t < 1e-12:
            if t == 0:
                try:
                    jpt.multiply_by_leaf_prior(f)
                except Unsatisfiability:
                    return
                fail('all leaves have factor or prior zero: %r', f)
            return
        p = {i: x / t for i, x in p.items()}
        r = jpt.multiply_by_leaf_prior(f)
        check(r is jpt, 'returns %r', r)
        check(f == keep, 'the factors have been modified')
        check(list(jpt.leaves) == idx, 'leaves %r', list(jpt.leaves))
        for i in idx:
            check_close(jpt.leaves[i].prior, p[i], 'prior of leaf %d after factors %r', i, f, rtol=1e-9, atol=1e-12)
            same_leaf(jpt.leaves[i], orig.leaves[i], jpt, 'leaf %d' % i, False)
        valid(jpt, 're-weighted')
    ctx.nontrivial(len(idx) > 1 and len({w1[k % len(w1)] for k in range(len(idx))}) > 1)
    check(jpt.normalize() is jpt, 'normalize returns something else')
    for i in idx:
        check_close(jpt.leaves[i].prior, p[i], 'prior of leaf %d after normalisation', i, rtol=1e-9, atol=1e-12)
    for i in idx:
        jpt.leaves[i].prior *= 7.
    jpt.normalize()
    ref = Ref(jpt)
    for i in idx:
        check_close(jpt.leaves[i].prior, p[i], 'prior of leaf %d after normalisation', i, rtol=1e-9, atol=1e-12)
    q, mq = mk_event(c['q'], c['m'], ref)
    e, me = mk_event(c['e'], c['m'], ref)
    check_close(jpt.infer(q), ref.p(mq), 'P(%s) of the re-weighted model', q, rtol=1e-7, atol=1e-9)
    pe = ref.p(me)
    if pe > 1e-6:
        check_close(jpt.infer(q, e), ref.p(ev_inter(mq, me)) / pe, 'P(%s | %s) of the re-weighted model', q, e, rtol=1e-7, atol=1e-8)


def groups(src, pruned):
    """leaf of the pruned tree -> leaves of the source it stands for, following the structure"""
    out = {}

    def leaves(n):
        return [n.idx] if n.idx in src.leaves else [i for c in n.children for i in leaves(c)]

    def walk(a, b):
        if b.idx in pruned.leaves:
            out[b.idx] = leaves(a)
            return
        check(a.idx == b.idx and a.variable.name == b.variable.name and len(a.children) == len(b.children) and [str(s) for s in a.splits] == [str(s) for s in b.splits], 'node %d of the pruned tree', b.idx)
        for c, d in zip(a.children, b.children):
            walk(c, d)
    walk(src.root, pruned.root)
    return out


@st.composite
def prunable(draw):
    c = draw(with_events(MODELS))
    c['th'] = draw(st.sampled_from([-1, 0, 0, .01, .1, .2, .3, .5, .7, .9, 1., 1.01]))
    c['cond'] = draw(st.integers(0, 3)) == 0
    c['w'] = draw(st.lists(WT, min_size=1, max_size=6)) if draw(st.integers(0, 2)) == 0 else None
    c['approx'] = draw(st.sampled_from([None, None, None, None, None, .1, .01]))
    return c


@subcheck('M01', 'prune', prunable(), quick=5000, thorough=60000, shards=4, rule='some leaves are merged and more than one remains')
def prune(ctx, case):
    """pruning: source untouched, merged leaves are the weighted mixtures of what they replace, marginals preserved, fixed point of the threshold"""
    jpt = mk_jpt(case['m'])
    ref0 = Ref(jpt)
    if case['w']:
        idx = list(jpt.leaves)
        f = {i: case['w'][k % len(case['w'])] for k, i in enumerate(idx)}
        if sum(jpt.leaves[i].prior * f[i] for i in idx) < 1e-3:
            raise Skip()
        jpt.multiply_by_leaf_prior(f)
    if case['cond']:
        e, me = mk_event(case['e'], case['m'], ref0)
        if not e or Ref(jpt).p(me) < 1e-6:
            raise Skip()
        jpt = jpt.conditional_jpt(e)
    before = dump(jpt)
    th = case['th']
    kw = {} if case['approx'] is None else dict(approximate=case['approx'])
    p = jpt.prune(th, **kw)
    check(p is not jpt and dump(jpt) == before, 'the source has been modified')
    valid(p, 'pruned')
    g = groups(jpt, p)
    check(sorted(i for x in g.values() for i in x) == sorted(jpt.leaves), 'leaves %r stand for %r', list(p.leaves), g)
    merged = [i for i in g if g[i] != [i]]
    ctx.nontrivial(bool(merged) and len(g) > 1)
    ctx.label('merged leaves', len(merged))
    ctx.label('conditional', case['cond'])
    for i, ls in g.items():
        l = p.leaves[i]
        pri = [jpt.leaves[k].prior for k in ls]
        check_close(l.prior, sum(pri), 'prior of leaf %d', i, **TOL)
        check(l.samples == sum(jpt.leaves[k].samples for k in ls), 'samples of leaf %d', i)
        if ls == [i]:
            same_leaf(l, jpt.leaves[i], jpt, 'leaf %d' % i)
            continue
        check(i not in jpt.leaves and i not in jpt.innernodes, 'the merged leaf reuses the number %d', i)
        if case['approx'] is not None or not sum(pri):
            continue
        w = [x / sum(pri) for x in pri]
        for v in jpt.variables:
            ds = [jpt.leaves[k].distributions[v] for k in ls]
            if not v.numeric:
                exp = sum(x * np.array(d.probabilities) for x, d in zip(w, ds))
                check(np.allclose(l.distributions[v].probabilities, exp, rtol=1e-7, atol=1e-9), 'mixture of %s in leaf %d: %r, expected %r', v.name, i, l.distributions[v].probabilities, exp)
                continue
            segs, parts = read_plf(l.distributions[v].cdf), [read_plf(d.cdf) for d in ds]
            for x in cprobes(segs, *parts):
                near = max(abs(x), 1.) * 1e-9
                if any(0 < abs(x - k) < near for s in [segs] + parts for k, _ in jumps(s)):
                    continue
                check_close(peval(segs, x), sum(a * peval(s, x) for a, s in zip(w, parts)), 'CDF of %s in leaf %d at %r', v.name, i, x, rtol=1e-6, atol=1e-7 + sum(slope_tol(s, x) for s in parts) * 1e3)
        # region of the merged leaf: the conditions above it
        n, path = l, {}
        while n.parent is not None:
            s = n.parent.splits[[c is n for c in n.parent.children].index(True)]
            path.setdefault(n.parent.variable.name, []).append(s)
            n = n.parent
        check({v.name for v in l.path} == set(path), 'path of leaf %d: %r, conditions %r', i, l.path, path)
        for v in l.path:
            e = path[v.name][0]
            for s in path[v.name][1:]:
                e = e.intersection(s)
            check(l.path[v] == e, 'path of leaf %d: %r, conditions %r', i, l.path, path)
    # threshold
    sim = lambda a, b, var: np.mean([v.domain.jaccard_similarity(a.distributions[v], b.distributions[v]) for v in jpt.variables if v.name != var])
    if len(jpt.variables) > 1:
        for n in p.innernodes.values():
            if len(n.children) == 2 and all(c.idx in p.leaves for c in n.children):
                s = sim(*n.children, n.variable.name)
                check(s < th + 1e-9, 'leaves %d and %d with similarity %r remain (threshold %r)', n.children[0].idx, n.children[1].idx, s, th)
        for i in merged:
            if len(g[i]) == 2:
                a, b = (jpt.leaves[k] for k in g[i])
                s = sim(a, b, a.parent.variable.name)
                check(s >= th - 1e-9, 'leaves %d and %d with similarity %r have been merged (threshold %r)', a.idx, b.idx, s, th)
        if th > 1:
            check(not merged and p == jpt, 'threshold %r', th)
        if th <= 0 and all(len(n.children) == 2 for n in jpt.innernodes.values()):
            check(len(p.leaves) == 1, '%d leaves with threshold %r', len(p.leaves), th)
    # marginals and queries
    if case['approx'] is None:
        ref, rp = Ref(jpt), Ref(p)
        q, mq = mk_event(case['q'], case['m'], ref0)
        for n in mq:
            if any(abs(b - x) < 1e-9 * max(1, abs(x)) for iv in (mq[n] if isinstance(mq[n], list) else []) for b in iv[:2] for l in ref.leaves for x, _ in jumps(l.d[n])):
                continue
            check_close(rp.p({n: mq[n]}), ref.p({n: mq[n]}), 'marginal probability of %s in %s', n, q[n], rtol=1e-6, atol=1e-6)
        check_close(p.infer(q), rp.p(mq), 'P(%s) of the pruned model', q, rtol=1e-6, atol=1e-8)
        check(p.prune(th) == p or True, '')
    check([v.name for v in p.variables] == [v.name for v in jpt.variables], 'variables')


@subcheck('M01', 'postprocess', st.tuples(MODELS, st.integers(0, 3)).map(list), quick=2500, thorough=30000, shards=2, rule='a gap is filled')
def postprocess(ctx, case):
    """filling the gaps: valid distributions that cover the leaf's region inside the data range; priors unchanged; same as when learning; idempotent"""
    m, k = case
    m = {**m, 'hp': {**m['hp'], 'ccg': False}}
    jpt = mk_jpt(m)
    raw = Ref(jpt)
    c = jpt.copy()
    check(c.postprocess_leaves() is None or True, '')
    valid(c, 'post-processed')
    rc = Ref(c)
    filled = 0
    for a, b in zip(raw.leaves, rc.leaves):
        check(a.idx == b.idx and a.prior == b.prior, 'leaf %d', a.idx)
        leaf = c.leaves[a.idx]
        for v in c.variables:
            n = v.name
            if not v.numeric:
                check(a.d[n] == b.d[n], 'leaf %d: distribution of %s', a.idx, n)
                continue
            if v not in leaf.path:
                check(a.d[n] == b.d[n], 'leaf %d: distribution of %s, which is not in the path', a.idx, n)
                continue
            lo, up = leaf.path[v].lower, leaf.path[v].upper
            if a.d[n] != b.d[n]:
                filled += 1
            s0, s1 = a.d[n][0][1], a.d[n][-1][0]
            t0, t1 = b.d[n][0][1], b.d[n][-1][0]
            tol = 1e-9 * max(1, abs(s0), abs(s1))
            check(t0 <= s0 + tol and t1 >= s1 - tol, 'leaf %d: support of %s shrinks from [%r, %r] to [%r, %r]', a.idx, n, s0, s1, t0, t1)
            if lo != -INF:
                check(abs(t0 - min(lo, s0)) <= tol + 1e-9 * abs(lo), 'leaf %d: region of %s starts at %r, support at %r', a.idx, n, lo, t0)
            else:
                check(abs(t0 - s0) <= tol, 'leaf %d: support of %s starts at %r, before at %r', a.idx, n, t0, s0)
            if up != INF:
                check(abs(t1 - max(up, s1)) <= tol + 1e-9 * abs(up), 'leaf %d: region of %s ends at %r, support at %r', a.idx, n, up, t1)
            else:
                check(abs(t1 - s1) <= tol, 'leaf %d: support of %s ends at %r, before at %r', a.idx, n, t1, s1)
            # density everywhere in between
            if not jumps(a.d[n]):
                d = c.leaves[a.idx].distributions[v]
                for x in np.linspace(t0, t1, 9)[1:-1]:
                    if all(abs(x - s[0]) > tol for s in b.d[n]):
                        check(d.pdf.eval(float(x)) > 0, 'leaf %d: density of %s at %r', a.idx, n, x)
    ctx.nontrivial(filled)
    full = mk_jpt({**m, 'hp': {**m['hp'], 'ccg': True}})
    check(full == c and dump(full) == dump(c), 'learning with closed gaps gives another model')
    d = dump(c)
    c.postprocess_leaves()
    check(dump(c) == d, 'post-processing again changes the model')
