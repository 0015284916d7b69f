#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props  # noqa: E402

P = []


def prop(pid, title, statement, over, text, why, files, mech, note=None,
         na=None):
    P.append((dict(
        id=pid, title=title, statement=statement,
        quantifier={'over': over, 'text': text}, why_tests_cant=why,
        anchors={'files': files,
                 'mechanism': [{'name': n, 'where': w} for n, w in mech]}),
        note, na))


exec(open(os.path.join(HERE, 'proptext.py')).read())

with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for d, note, na in P:
        if na or d['id'] in props.PROPS:
            assert len(d['title']) <= 80, d['title']
            f.write(json.dumps(d) + '\n')

checks, nas = [], []
for d, note, na in P:
    pid = d['id']
    if na:
        nas.append({'property': pid, 'reason': na})
    elif pid in props.PROPS:
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 vf/run.py check ' + pid,
            'thorough_cmd': 'VERIF_TIER=thorough python3 vf/run.py check ' +
                            pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': 'deductive verification of C code contracts '
                         '(goto-instrument --dfcc + cbmc), loop invariants, '
                         'ghost state',
            'level': 'proof',
            'level_note': note or '',
        })
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1,
               'setup_cmd': 'python3 vf/run.py selftest',
               'checks': checks, 'not_applicable': nas,
               'notes': 'No hooks in /repo: the contracts are kept in '
                        'specs/, loop contracts are inserted in a mechanical '
                        'copy of the sources on every run.'}, f, indent=1)
    f.write('\n')

# DESIGN.md
import run  # noqa: E402
us = run.load_units()
out = ['## Properties', '']
for d, note, na in P:
    pid = d['id']
    if not na and pid not in props.PROPS:
        continue
    out += ['### %s: %s' % (pid, d['title']), '', d['statement'], '']
    if na:
        out += ['Not applicable: ' + na, '']
        continue
    fns = {}
    for ref in props.PROPS[pid]['proofs']:
        u, _, n = ref.partition(':')
        for k, p in us[u].proofs.items():
            if not n or n == k:
                fns.setdefault(u, []).append(p['fn'])
    out += ['Functions under contract: ' + '; '.join(
        '`specs/%s.c`: %s' % (u, ', '.join('`%s`' % x for x in v))
        for u, v in fns.items()) + '.', '']
    if props.PROPS[pid].get('how'):
        out += [props.PROPS[pid]['how'], '']
    out += ['Why tests cannot settle it: ' + d['why_tests_cant'], '',
            'Level: proof. ' + (note or ''), '', 'Assumed by the units:', '']
    for a in sorted({a for u in fns for a in us[u].assumes}):
        out.append('* ' + a)
    out.append('')
tab = ['| change | property | needs | caught |', '|---|---|---|---|']
sd = os.path.join(VERIF, 'seeded')
try:
    res = json.load(open(os.path.join(VERIF, 'tools', 'seeded.json')))
except OSError:
    res = {}
for i in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, i, 'meta.json')))
    tab.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'],
                                          res.get(i, '?')))
t = open(os.path.join(HERE, 'design.md')).read()
t = t.replace('@PROPERTIES@', '\n'.join(out)).replace('@SEEDED@',
                                                      '\n'.join(tab))
with open(os.path.join(VERIF, 'DESIGN.md'), 'w') as f:
    f.write(t)
