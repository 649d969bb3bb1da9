#!/usr/bin/env python3
"""Decides one property from /repo's current source, without running it.

    check.py --property ID [--tier quick|thorough]

Every function and class of the property's footprint (props.py) is summarised
as value flow and compared with the reviewed specification under spec/ref;
structural rules (va/lints.py) are applied directly to the code.  See DESIGN.md.
"""

import argparse
import ast
import fnmatch
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from va.project import Project, REPO
from va.compare import Comparer, describe
from va import lints
from props import PROPS

LEVEL = 'translation_validation'
ASSUMPTIONS = [
    'spec/ref is the reviewed statement of what each function has to do; it was read against the property statements and the repairs recorded in known_findings.txt',
    'Python, numpy, h5py and Theano behave as documented; values of library calls are uninterpreted beyond the laws in va/terms.py',
    'real-number arithmetic: reassociation and equivalent algebraic forms count as equal, rounding does not count',
    'a function reported as undecided is not covered by this run',
]


def full(module):
    return module if module.split('.')[0] in ('theanolm', 'wordclasses', 'bin') else 'theanolm.' + module


def matches(pattern, key):
    pm, pq = pattern.split(':', 1)
    km, kq = key.split(':', 1)
    if pm == '*':
        return fnmatch.fnmatchcase(kq, pq)
    ok = fnmatch.fnmatchcase(km, full(pm)) or fnmatch.fnmatchcase(km, pm)
    return ok and fnmatch.fnmatchcase(kq, pq)


def expand(patterns, comparer):
    out = []
    for p in patterns:
        hit = [k for k in comparer.sfun if matches(p, k)]
        if not hit:
            raise SystemExit('pattern %s of the footprint matches nothing in the specification' % p)
        out.extend(hit)
    return sorted(set(out))


def frames(keys, comparer):
    """The classes and module-level statements around the functions."""
    classes, modules = set(), set()
    for k in keys:
        f = comparer.sfun[k]
        c = f.cls
        while c is not None:
            classes.add(c.key)
            c = c.outer
        m = f.module.name + ':<module>'
        if m in comparer.sfun:
            modules.add(m)
    return sorted(classes), sorted(modules)


def closure(keys, comparer):
    """Adds the project functions that the given ones call, by name."""
    by = {}
    for k, f in comparer.sfun.items():
        by.setdefault(f.name, []).append(k)
    out, todo = set(keys), list(keys)
    while todo:
        f = comparer.sfun[todo.pop()]
        for n in ast.walk(f.node):
            nm = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
            for k in by.get(nm, ()) if nm else ():
                if k not in out and len(by[nm]) <= 3:
                    out.add(k)
                    todo.append(k)
    return sorted(out)


def run(prop, tier):
    spec = Project(os.path.join(HERE, 'spec', 'ref'))
    code = Project(REPO)
    comparer = Comparer(spec, code)
    keys = expand(prop['scope'], comparer)
    if tier == 'thorough':
        keys = sorted(set(keys) | set(expand(prop['wide'], comparer)))
        keys = closure(keys, comparer)
    classes, modules = frames(keys, comparer)
    todo = list(keys)
    for m in modules:
        if m not in todo:
            todo.append(m)
    results = []
    done = set()
    while todo:
        k = todo.pop(0)
        if k in done:
            continue
        done.add(k)
        r = comparer.compare(k)
        results.append(r)
        if r.status in ('dissolved', 'missing'):
            for c in comparer.callers(k):
                if c not in done:
                    todo.append(c)
    for k in classes:
        results.append(comparer.compare_class(k))
    found = []        # (identity, message)
    for r in results:
        if r.status == 'differs':
            for d in r.diffs:
                if d.sure:
                    found.append(('%s %s' % (r.key, d.aspect),
                                  '%s: %s differs from the specification\n    specified: %s\n    found:     %s' %
                                  (d.where or r.where, d.aspect, describe(d.spec)[:2000], describe(d.code)[:2000])))
        elif r.status in ('missing', 'dissolved'):
            used = comparer.still_used(r.key)
            if used:
                found.append(('%s missing' % r.key, '%s: still used, but %s is no longer defined' % (used, r.key)))
    rules = []
    for name in prop['lints']:
        name, _, only = name.partition(':')
        res = lints.RULES[name](code, spec, comparer)
        if only:
            res.found = [x for x in res.found if x[0].split()[0] in only.split(',')]
        rules.append({'rule': name, 'what': (lints.RULES[name].__doc__ or '').strip().split('\n')[0], 'checked': res.checked,
                      'violations': len(res.found)})
        for ident, msg in res.found:
            found.append((name + ' ' + ident, msg))
    return comparer, results, rules, found


def known():
    """Entries of known_findings.txt: {property: [(identity, text)]}"""
    out = {}
    with open(os.path.join(HERE, 'known_findings.txt')) as f:
        for line in f:
            m = re.match(r'known: property=(\S+) \[(.*?)\] (.*)', line.strip())
            if m:
                out.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    args = ap.parse_args()
    prop = [p for p in PROPS if p['id'] == args.property]
    if not prop:
        sys.exit('unknown property ' + args.property)
    prop = prop[0]
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    start = time.time()
    try:
        comparer, results, rules, found = run(prop, tier)
    except SyntaxError as e:
        comparer, results, rules = None, [], []
        found = [('syntax', '%s:%s: the source does not compile: %s' % (e.filename, e.lineno, e.msg))]
    listed = known().get(prop['id'], [])
    fresh = []
    for ident, msg in found:
        text = [t for i, t in listed if i == ident]
        if text:
            print('KNOWN-FINDING: property=%s %s' % (prop['id'], text[0]))
        else:
            fresh.append((ident, msg))
    decided = [r for r in results if r.status in ('equal', 'differs')]
    undecided = [r for r in results if r.status not in ('equal', 'differs')]
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    big = sorted(decided, key=lambda r: -(r.events + r.aspects))[:5]
    evidence = {
        'property': prop['id'],
        'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': LEVEL if prop['scope'] else 'other',
        'coverage': {
            'explanation': '%d functions and classes compared with the specification; structural rules checked %d constructs' % (
                len(decided), sum(x['checked'] for x in rules)),
            'programs': len(decided),
            'disagreements_checked': sum(r.aspects for r in decided),
            'effects_compared': sum(r.events for r in decided),
            'not_decided': [{'function': r.key, 'status': r.status, 'why': r.note or (r.diffs[0].why if r.diffs else '')} for r in undecided],
            'samples': [{'function': r.key, 'at': r.where, 'observable_aspects': r.aspects, 'effects': r.events, 'verdict': r.status}
                        for r in big],
            'functions': [r.key for r in decided],
            'structural_rules': rules,
            'rule': 'the value-flow summary of each function (returned value, attributes stored, ordered effects on each object, exceptions with their '
                    'conditions, defaults) equals that of the specification',
        },
        'wall_s': round(time.time() - start, 2),
        'violations': len(fresh),
        'assumptions': ASSUMPTIONS,
    }
    with open(os.path.join(evdir, prop['id'] + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    print('%s %s: %d functions and classes compared on %d aspects, %d undecided, %d structural rules, %.1f s' % (
        prop['id'], tier, len(decided), evidence['coverage']['disagreements_checked'], len(undecided), len(rules), time.time() - start))
    for r in undecided:
        print('  undecided: %s %s %s' % (r.key, r.status, r.note or '; '.join(sorted({d.why for d in r.diffs}))[:200]))
    if fresh:
        path = os.path.join(evdir, prop['id'] + '.violation.txt')
        with open(path, 'w') as f:
            f.write('%s: %s\n\n' % (prop['id'], prop['title']))
            for ident, msg in fresh:
                f.write('[%s]\n%s\n\n' % (ident, msg))
        for ident, msg in fresh:
            print('  ' + msg.split('\n')[0])
        print('VIOLATION property=%s replay=%s' % (prop['id'], path))
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    main()
