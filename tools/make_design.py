"""writes DESIGN.md from design_head.md, props.py, the suites, the findings and
the seeded bugs; run with /opt/venv/bin/python from /verif"""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, 'tools'))
sys.dont_write_bytecode = True

from vlib import env  # noqa
env.setup()
import props  # noqa


def main():
    out = [open(os.path.join(V, 'tools/design_head.md')).read().rstrip(), '']
    findings = [l.strip() for l in open(os.path.join(V, 'KNOWN_FINDINGS.txt'))]
    catches = json.load(open(os.path.join(V, 'tools/catches.json')))
    seeded = {}
    for i in sorted(os.listdir(os.path.join(V, 'seeded'))):
        seeded[i] = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))

    out += ['## The properties', '']
    for p in props.PROPS:
        suite = importlib.import_module('checks.' + p['id']).suite
        out += ['### %s. %s' % (p['id'], p['title']), '',
                p['statement'], '',
                '*Must hold for:* %s.' % p['all'], '',
                '*Why unit tests cannot settle it:* %s.' % p['why'], '',
                '*Decided by:* %s. %s' % (p['technique'], p['note']), '',
                '*Non-trivial cases:* %s.' % suite.rule.split(
                    'non-trivial')[-1].strip(' =:'), '']
        if suite.assumptions:
            out += ['*Assumptions:* %s.' % '; '.join(suite.assumptions), '']
        out += ['| part of `checks/%s.py` | oracle | quick | thorough |'
                % p['id'], '|---|---|---|---|']
        for part in suite.parts:
            out.append('| %s | %s | %d | %d |' % (
                part.name, ' '.join((part.fn.__doc__ or '').split()),
                part.quick, part.thorough))
        out.append('')
        mine = [f for f in findings if 'property=%s ' % p['id'] in f]
        if mine:
            out += ['Defects found in zounds while building this check:', '']
            for f in mine:
                kind, rest = f.split(': property=%s ' % p['id'])
                out.append('- %s: %s' % (
                    'repaired' if kind == 'fixed' else 'known finding', rest))
            out.append('')
        mine = [i for i in seeded if seeded[i]['property'] == p['id']]
        if mine:
            out += ['| seeded bug | needs | caught by |', '|---|---|---|']
            for i in mine:
                out.append('| %s: %s | %s | %s |' % (
                    i, seeded[i]['what_it_breaks'], seeded[i]['needs'],
                    ', '.join(catches.get(i) or ['not caught'])))
            out.append('')
    if props.NOT_APPLICABLE:
        out += ['## Not applicable', '']
        for n in props.NOT_APPLICABLE:
            out.append('- %s: %s' % (n['property'], n['reason']))
        out.append('')
    with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out).rstrip() + '\n')


main()
