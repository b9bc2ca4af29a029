"""Regenerate properties.jsonl and MANIFEST.json from the PROP dict of every check module (plus NOT_CLAIMED below)."""
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

# Properties written down but not decided by a check: id -> (PROP dict, reason)
NOT_CLAIMED = {}
try:
    from tools.not_claimed import NOT_CLAIMED
except ImportError:
    pass


def line(pid, p):
    assert len(p['title']) <= 80, (pid, len(p['title']))
    d = dict(id=pid, title=p['title'], statement=p['statement'],
             quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
             anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mechanism']]))
    if p.get('observe'):
        d['anchors']['observe_at'] = p['observe']
    if p.get('state'):
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
    d['anchors']['hook_needed'] = None
    return d


def main():
    ids = sorted(f[:-3] for f in os.listdir(os.path.join(VERIF, 'checks')) if f.startswith('C') and f.endswith('.py'))
    props, checks = [], []
    for pid in ids:
        m = importlib.import_module(f'checks.{pid}')
        p = m.PROP
        props.append(line(pid, p))
        checks.append(dict(property=pid, quick_cmd=f'bin/check {pid}', thorough_cmd=f'bin/check {pid} --thorough',
                           technique=p['technique'], level=m.LEVEL, level_note=p['level_note']))
    na = []
    for pid, (p, reason) in sorted(NOT_CLAIMED.items()):
        props.append(line(pid, p))
        na.append(dict(property=pid, reason=reason))
    props.sort(key=lambda d: d['id'])
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in props:
            f.write(json.dumps(p) + '\n')
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na,
                       notes='No hooks in /repo: every check drives the unmodified code; see DESIGN.md.'), f, indent=1)
        f.write('\n')
    print(len(checks), 'checks,', len(na), 'not claimed')


main()
