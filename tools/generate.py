#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import fnmatch
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE
from va.project import Project
from va.compare import Comparer
import check

NOTE = ('Modular regression verification: every function in the footprint is abstractly interpreted into a value-flow summary and decided equal to, '
        'or different from, the reviewed specification in spec/ref for all inputs; forms outside the value language are reported as undecided, never as violations.')


def fill(text, name, lines):
    a, b = '<!-- %s -->' % name, '<!-- end %s -->' % name
    return text[:text.index(a) + len(a)] + '\n' + '\n'.join(lines) + '\n' + text[text.index(b):]


def design(c):
    """Fills the tables of DESIGN.md."""
    rows = ['| property | functions (quick / thorough) | main places | structural rules |', '| --- | --- | --- | --- |']
    for p in PROPS:
        quick = check.expand(p['scope'], c)
        thorough = check.closure(sorted(set(quick) | set(check.expand(p['wide'], c))), c)
        rows.append('| %s %s | %d / %d | %s | %s |' % (
            p['id'], p['title'], len(quick), len(thorough), '; '.join(w for _, w in p['mechanism']).replace('|', '/') or '-',
            ', '.join(x.partition(':')[0] for x in p['lints']) or '-'))
    seeds = ['| change | property | what it breaks | needs |', '| --- | --- | --- | --- |']
    top = os.path.join(HERE, 'seeded')
    for s in sorted(os.listdir(top)) if os.path.isdir(top) else ():
        with open(os.path.join(top, s, 'meta.json')) as f:
            m = json.load(f)
        seeds.append('| %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'], m['needs']))
    path = os.path.join(HERE, 'DESIGN.md')
    with open(path) as f:
        text = f.read()
    text = fill(text, 'properties', rows)
    if len(seeds) > 2:
        text = fill(text, 'seeded', seeds)
    with open(path, 'w') as f:
        f.write(text)


def main():
    spec = Project(os.path.join(HERE, 'spec', 'ref'))
    c = Comparer(spec, spec)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS + NOT_APPLICABLE:
            keys = check.expand(p['scope'], c)
            files = []
            for k in keys:
                r = c.sfun[k].module.relpath
                if r not in files:
                    files.append(r)
            if not keys:
                files = sorted({m.relpath for m in spec.modules.values()})
            line = {
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']]},
            }
            f.write(json.dumps(line) + '\n')
    checks = []
    for p in PROPS:
        tech = 'static value-flow equivalence of the footprint with a reviewed specification'
        if not p['scope']:
            tech = 'static name, attribute and call resolution over the whole tree'
        elif p['lints']:
            tech += ', and structural lints over the syntax tree (%s)' % ', '.join(x.partition(':')[0] for x in p['lints'])
        checks.append({
            'property': p['id'],
            'quick_cmd': 'python3 check.py --property %s --tier quick' % p['id'],
            'thorough_cmd': 'python3 check.py --property %s --tier thorough' % p['id'],
            'technique': tech,
            'level': check.LEVEL if p['scope'] else 'other',
            'level_note': NOTE if p['scope'] else 'Every name, attribute of self, module member and call of project code is resolved in the current source.',
        })
    m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q va props.py check.py', 'checks': checks,
         'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NOT_APPLICABLE],
         'notes': 'The checks read /repo only (VERIF_REPO overrides the path) and run nothing of it. No hooks were added to /repo.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    design(c)


main()
