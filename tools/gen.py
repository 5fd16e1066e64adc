#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  Run from anywhere; rewrites both files."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = 'src/jpt/'
IV, FN, QU, CR = B + 'base/intervals.pyx', B + 'base/functions.pyx', B + 'distributions/quantile/quantiles.pyx', B + 'distributions/quantile/cdfreg.pyx'
NUM, INT, MUL, DIS = (B + 'distributions/univariate/%s.py' % n for n in ('numeric', 'integer', 'multinomial', 'distribution'))
DUT, VAR, TRE, MPE, IMP, SEQ, UTL, CUT, SMP, ERR = (B + n for n in (
    'distributions/utils.py', 'variables.py', 'trees.py', 'inference/mpe.py', 'learning/impurity.pyx', 'sequential_trees.py',
    'base/utils.py', 'base/cutils.pyx', 'base/sampling.py', 'base/errors.py'))

PROPS = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe=None, tech='', note=''):
    PROPS.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, qtext=qtext, why=why, files=files,
                      mechanism=mechanism, observe=observe, tech=tech, note=note))


exec(open(os.path.join(ROOT, 'tools', 'props_src.py')).read())


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mechanism']], hook_needed=None)
            if p['observe']:
                a['observe_at'] = p['observe']
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']),
                why_tests_cant=p['why'], anchors=a), ensure_ascii=False) + '\n')
    checks, na = [], []
    for p in PROPS:
        if os.path.exists(os.path.join(ROOT, 'vp', 'props', p['id'].lower() + '.py')):
            checks.append(dict(
                property=p['id'],
                quick_cmd='python3 /verif/check.py %s --tier quick' % p['id'],
                thorough_cmd='python3 /verif/check.py %s --tier thorough' % p['id'],
                evidence_file='evidence/%s.json' % p['id'],
                technique='property-based testing (Hypothesis): ' + p['tech'],
                level='exploration',
                level_note=p['note'] or 'Seeded random search with shrinking against an explicit oracle; bounds are listed in '
                                        'DESIGN.md and the evidence file. Absence of a violation is not a proof.'))
        else:
            na.append(dict(property=p['id'], reason=p.get('na') or 'Check not built yet (work in progress).'))
    m = dict(version=1,
             setup_cmd='python3 /verif/tools/selftest.py',
             checks=checks, not_applicable=na,
             notes='Every check rebuilds jpt from /repo\'s working tree in a scratch directory (vp/build.py) and runs '
                   'vp/runner.py under the repository\'s interpreter; see DESIGN.md.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')


main()
