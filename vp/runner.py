"""Runs the sub-checks of one property, in forked shards, and writes the evidence file."""
import argparse
import importlib
import json
import os
import pickle
import signal
import sys
import time
import traceback
import warnings
import zlib

sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
EVID = os.environ.get('VP_EVID') or os.path.join(ROOT, 'evidence')
SCRATCH = os.environ['VP_SCRATCH']
SRC = os.environ['VP_SRC']


def _bootstrap_hypothesis():
    try:
        import hypothesis  # noqa
        return
    except ImportError:
        pass
    venv = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
    d = os.path.join(SCRATCH, 'deps')
    os.makedirs(d, exist_ok=True)
    for n in os.listdir(venv):
        if n in ('hypothesis', 'sortedcontainers', 'attr', 'attrs') or n.startswith('_hypothesis_'):
            os.symlink(os.path.join(venv, n), os.path.join(d, n))
    sys.path.append(d)
    import hypothesis  # noqa


_bootstrap_hypothesis()
import hypothesis  # noqa
from hypothesis import HealthCheck, Phase, given, settings  # noqa

from vp import core  # noqa
from vp.core import Ctx, Skip, Violation, canon, digest  # noqa

SOFT = {'quick': 420., 'thorough': 780.}    # stop generating (inconclusive beyond), seconds
STUCK = 240.                                # one single case running this long is reported as non-termination
SHRINK = {'quick': 45., 'thorough': 120.}


class HarnessError(Exception):
    pass


def _through_subject(tb):
    """does the traceback pass through the code under test?"""
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(SRC) or fn.endswith('.pyx') or fn.endswith('.pxd'):
            return True
        tb = tb.tb_next
    return False


def evaluate(sub, case, finding=False):
    """-> (ctx, failure message or None); raises HarnessError for a defect of the harness itself"""
    ctx = Ctx(finding)
    try:
        sub.fn(ctx, case)
        return ctx, None
    except Skip:
        ctx.skipped = True
        return ctx, None
    except Violation as e:
        return ctx, str(e)
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:
        if type(e).__module__.startswith('hypothesis'):
            raise
        text = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
        if not _through_subject(e.__traceback__) and isinstance(e, (AttributeError, ImportError, NameError)):
            raise HarnessError(text)
        return ctx, 'unexpected %s: %s\n%s' % (type(e).__name__, e, text[-2500:])


def shard_main(sub, shard, n, seed, tier, out, deadline):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    cur = open(out + '.cur', 'w')
    st = dict(evals=0, skipped=0, distinct=set(), samples=[], labels={}, failure=None, error=None, cut=False)
    t_fail = [None]

    def body(case):
        now = time.time()
        if now > deadline or (t_fail[0] and now > t_fail[0] + SHRINK[tier]):
            st['cut'] = True
            return
        c = canon(case)
        cur.seek(0)
        cur.write(c)
        cur.truncate()
        cur.flush()
        ctx, msg = evaluate(sub, json.loads(c))
        st['evals'] += 1
        if getattr(ctx, 'skipped', False):
            st['skipped'] += 1
        for k, v in ctx.labels.items():
            st['labels'][k] = st['labels'].get(k, 0) + v
        if msg is not None:
            if t_fail[0] is None:
                t_fail[0] = now
            if st['failure'] is None or len(c) <= len(st['failure'][0]):
                st['failure'] = (c, msg)
            raise Violation(msg)
        if ctx.is_nontrivial:
            h = digest(case)
            if h not in st['distinct']:
                st['distinct'].add(h)
                if len(st['samples']) < 3 and len(c) < 1500:
                    st['samples'].append(case)

    s = settings(max_examples=n, deadline=None, database=None, suppress_health_check=list(HealthCheck),
                 phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False, print_blob=False)
    test = hypothesis.seed(seed)(s(given(sub.strategy)(body)))
    try:
        test()
    except HarnessError as e:
        st['error'] = str(e)
    except BaseException as e:
        if st['failure'] is None:
            st['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
    with open(out + '.tmp', 'wb') as f:
        pickle.dump(st, f)
    os.replace(out + '.tmp', out)


def run_shards(tasks, tier, t0):
    """tasks: [(sub, shard, n, seed)] -> {index: result}"""
    deadline = t0 + SOFT[tier]
    pending = list(range(len(tasks)))
    live, results = {}, {}
    ncpu = min(8, os.cpu_count() or 1)
    while pending or live:
        while pending and len(live) < ncpu:
            i = pending.pop(0)
            sub, shard, n, seed = tasks[i]
            out = os.path.join(SCRATCH, 'shard-%d' % i)
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.setsid()
                    devnull = os.open(os.devnull, os.O_RDWR)
                    log = os.open(out + '.log', os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                    os.dup2(devnull, 0)
                    os.dup2(log, 1)
                    os.dup2(log, 2)
                    shard_main(sub, shard, n, seed, tier, out, deadline)
                    os._exit(0)
                except BaseException:
                    traceback.print_exc()
                    os._exit(7)
            live[pid] = (i, out, [None, time.time()])
        time.sleep(0.05)
        for pid in list(live):
            i, out, prog = live[pid]
            done, status = os.waitpid(pid, os.WNOHANG)
            curfile = out + '.cur'
            if done:
                del live[pid]
                if os.path.exists(out):
                    with open(out, 'rb') as f:
                        results[i] = pickle.load(f)
                elif os.WIFSIGNALED(status):
                    results[i] = dict(crash='killed by signal %d' % os.WTERMSIG(status), case=_read(curfile))
                else:
                    results[i] = dict(error='shard ended with status %s\n%s' % (status, _read(out + '.log')[-3000:]))
                continue
            try:
                m = os.stat(curfile).st_mtime_ns
            except OSError:
                m = None
            if m != prog[0]:
                prog[0], prog[1] = m, time.time()
            elif m is not None and time.time() - prog[1] > STUCK:
                os.killpg(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                del live[pid]
                results[i] = dict(crash='one case did not terminate within %d s' % STUCK, case=_read(curfile))
    return results


def _read(p):
    try:
        with open(p, errors='replace') as f:
            return f.read()
    except OSError:
        return ''


def write_replay(prop, sub, case, msg):
    d = os.path.join(EVID, 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s-%s.json' % (prop, sub.name, digest(case)))
    with open(p, 'w') as f:
        json.dump(dict(property=prop, sub=sub.name, case=case, message=msg), f, indent=1)
    return p


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=float(os.environ.get('VP_SCALE', '1')))
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time()
    import jpt
    assert os.path.abspath(jpt.__file__).startswith(SRC), jpt.__file__
    import logging
    logging.disable(logging.CRITICAL)
    importlib.import_module('vp.props.%s' % a.prop.lower())
    subs = core.SUBS.get(a.prop, [])
    if a.only:
        subs = [s for s in subs if s.name in a.only.split(',')]
    byname = {s.name: s for s in subs}
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        _, msg = evaluate(byname[r['sub']], r['case'])
        if msg is None:
            print('replay: held')
            return 0
        print(msg)
        print('VIOLATION property=%s replay=%s' % (a.prop, a.replay))
        return 1

    violations, errors, known_seen = [], [], []
    # known findings: re-run each listed input
    with open(os.path.join(ROOT, 'known_findings.json')) as f:
        known = [k for k in json.load(f)['findings'] if k['property'] == a.prop]
    for k in known:
        if k['sub'] not in byname:
            continue
        _, msg = evaluate(byname[k['sub']], k['case'], finding=True)
        if msg is not None:
            print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
            known_seen.append(k['id'])
        else:
            print('note: listed finding %s no longer fails' % k['id'])

    tasks = []
    for s in subs:
        total = max(1, int((s.quick if tier == 'quick' else s.thorough) * a.scale))
        shards = min(s.shards if tier == 'quick' else max(8, s.shards), total)
        for k in range(shards):
            seed = zlib.crc32(('%s/%s/%d/%d' % (a.prop, s.name, k, a.seed)).encode())
            tasks.append((s, k, (total + shards - 1) // shards, seed))
    # interleave sub-checks so that the slow ones overlap
    tasks.sort(key=lambda t: t[1])
    results = run_shards(tasks, tier, t0)

    agg = {}
    for i, r in sorted(results.items()):
        s = tasks[i][0]
        g = agg.setdefault(s.name, dict(evals=0, skipped=0, distinct=set(), samples=[], labels={}, cut=False))
        if 'crash' in r:
            case = None
            try:
                case = json.loads(r['case'])
            except ValueError:
                pass
            if case is None:
                errors.append('%s: %s' % (s.name, r['crash']))
            else:
                violations.append((s, case, 'the process ' + r['crash']))
            continue
        if r.get('error'):
            errors.append('%s: %s' % (s.name, r['error']))
            if 'evals' not in r:
                continue
        g['evals'] += r['evals']
        g['skipped'] += r['skipped']
        g['distinct'] |= r['distinct']
        g['cut'] |= r['cut'] and not r['failure']
        if len(g['samples']) < 3:
            g['samples'] += r['samples'][:3 - len(g['samples'])]
        for k, v in r['labels'].items():
            g['labels'][k] = g['labels'].get(k, 0) + v
        if r['failure']:
            violations.append((s, json.loads(r['failure'][0]), r['failure'][1]))

    best = {}
    for s, case, msg in violations:
        if s.name not in best or len(canon(case)) < len(canon(best[s.name][1])):
            best[s.name] = (s, case, msg)
    out_viol = []
    for s, case, msg in best.values():
        p = write_replay(a.prop, s, case, msg)
        print('--- %s/%s\n%s\ncase: %s' % (a.prop, s.name, msg, canon(case)[:2000]))
        print('VIOLATION property=%s replay=%s' % (a.prop, p))
        out_viol.append(dict(sub=s.name, replay=p, message=msg[:500]))
    for e in errors:
        print('check error: ' + e[-4000:])

    evals = sum(g['evals'] for g in agg.values())
    distinct = sum(len(g['distinct']) for g in agg.values())
    ev = dict(
        property=a.prop, tier=tier, seed=a.seed, level='exploration',
        coverage=dict(
            evaluations=evals, distinct_nontrivial=distinct,
            rule='; '.join('%s: %s' % (s.name, s.rule or 'the oracle comparison was reached') for s in subs),
            samples=[dict(sub=n, case=c) for n, g in agg.items() for c in g['samples']][:24],
            per_sub={n: dict(evaluations=g['evals'], skipped=g['skipped'], distinct_nontrivial=len(g['distinct']),
                             labels=g['labels'], stopped_by_time=bool(g['cut'])) for n, g in agg.items()}),
        wall_s=round(time.time() - t0, 2), violations=out_viol,
        known_findings=known_seen,
        assumptions=getattr(sys.modules['vp.props.%s' % a.prop.lower()], 'ASSUMPTIONS', []))
    if not a.only:
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, '%s.json' % a.prop), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d violation(s), %.1f s' % (
        a.prop, tier, a.seed, evals, distinct, len(best), time.time() - t0))
    for n, g in agg.items():
        print('   %-28s %6d cases %6d non-trivial %5d skipped%s %s' % (
            n, g['evals'], len(g['distinct']), g['skipped'], ' (stopped by time)' if g['cut'] else '', g['labels'] or ''))
    if best:
        return 1
    if errors or evals == 0:
        return 3
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
