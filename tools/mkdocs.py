"""Writes MANIFEST.json and DESIGN.md from properties.jsonl, the notes, the
registered contracts and the planted bugs.  python3-vt tools/mkdocs.py"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pv import proofs                                        # noqa: E402
from pv.proofs import base, depends, notes                            # noqa: E402

proofs.load()
os.chdir(HERE)
props = [json.loads(l) for l in open('properties.jsonl')]
TECH = 'contract-based deductive verification: own verification-condition ' \
    'generator over the AST of the current source, structural rules and z3; ' \
    'composition lemmas in Lean'
checks = []
for p in props:
    i = p['id']
    if i in notes.NA:
        continue
    n = notes.NOTES[i]
    tech = TECH if n['level'] == 'proof' else TECH + \
        '; a bounded stand-in (search against an independent ' \
        'specification) for the parts named in level_note'
    checks.append({
        'property': i, 'quick_cmd': 'python3-vt -m pv.check ' + i,
        'thorough_cmd': 'VERIF_TIER=thorough python3-vt -m pv.check ' + i,
        'technique': tech, 'level': n['level'],
        'level_note': 'Proved: %s Bounded: %s%s' % (
            n['proved'], n['bounded'], ' Assumed: %s.' % '; '.join(
                n['assumes']) if n['assumes'] else '')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks,
           'not_applicable': [{'property': k, 'reason': v}
                              for k, v in sorted(notes.NA.items())]},
          open('MANIFEST.json', 'w'), indent=1)
t = open('tools/DESIGN.in.md').read()
out = []
for p in props:
    i = p['id']
    if i in notes.NA:
        continue
    n = notes.NOTES[i]
    out.append('### %s %s (%s)\n' % (i, p['title'], n['level']))
    out.append('* **Proved**: %s\n* **Bounded**: %s' % (
        n['proved'], n['bounded']))
    if n.get('argument'):
        out.append('* **Why the contracts give the property**: %s'
                   % n['argument'])
    out.append('* **Assumed**: %s' % ('; '.join(n['assumes']) or
                                      'nothing beyond section 1'))
    own = [x.name for x in base.TASKS if i in x.props]
    out.append('* **Contracts**: %s' % (', '.join(
        '`%s`' % x for x in own) or 'none'))
    used = [x for x in depends.names(i, base.TASKS) if x not in own]
    if used:
        out.append('* **Contracts of callees, decided again in this check**: '
                   '%s' % ', '.join('`%s`' % x for x in used))
    out.append('')
t = t.replace('@@PROPS@@', '\n'.join(out))
t = t.replace('@@NA@@', '\n'.join('* %s: %s' % x
                                  for x in sorted(notes.NA.items())))
rows = ['| change | property | needs | breaks | caught by |',
        '|---|---|---|---|---|']
caught = json.load(open('tools/caught.json'))
for s in sorted(os.listdir('seeded')):
    m = json.load(open('seeded/%s/meta.json' % s))
    rows.append('| %s | %s | %s | %s | %s |' % (
        s, m['property'], m['needs'], m['what_it_breaks'],
        caught.get(s, 'not yet run')))
t = t.replace('@@SEEDS@@', '\n'.join(rows))
rows = ['| contract | properties | functions | statement |',
        '|---|---|---|---|']
for x in base.TASKS:
    rows.append('| `%s` | %s | %s | %s |' % (
        x.name, ' '.join(x.props), ' '.join(x.functions),
        ' '.join(x.title.split()).replace('|', '\\|')))
t = t.replace('@@TASKS@@', '\n'.join(rows))
open('DESIGN.md', 'w').write(t)
