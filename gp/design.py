"""Writes DESIGN.md from props_list.py, the checks, the known findings and the planted bugs:  python3 gp/design.py"""
import json, os, importlib, sys, textwrap, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'gp'))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, state=None, observe=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, technique=technique, note=note, na=na))
exec(open(os.path.join(V, 'gp', 'props_list.py')).read())
P.sort(key=lambda p: p['id'])
NOTES = {}
exec(open(os.path.join(V, 'gp', 'design_notes.py')).read())
known = json.load(open(os.path.join(V, 'known_findings.json')))
seeds = []
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    seeds.append((d, json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))))
out = []
def para(s, ind=''):
    out.append(textwrap.fill(' '.join(s.split()), 118, initial_indent=ind, subsequent_indent=' ' * len(ind) if ind.strip() else ind, break_long_words=False, break_on_hyphens=False))
out.append(HEAD.strip()); out.append('')
out.append('## Properties and how each is decided\n')
out.append('| id | property | technique | findings repaired / open | planted bugs (caught) |'); out.append('|---|---|---|---|---|')
for p in P:
    if p['na']: continue
    fx = sum(1 for k in known if k['property'] == p['id'] and k['status'] == 'fixed'); op = sum(1 for k in known if k['property'] == p['id'] and k['status'] == 'open')
    s = [d for d, m in seeds if m['property'] == p['id']]; c = [d for d in s if d not in MISSED]
    out.append('| %s | %s | %s | %d / %d | %d (%d) |' % (p['id'], p['title'], p['technique'], fx, op, len(s), len(c)))
out.append('')
for p in P:
    if p['na']: continue
    out.append('### %s — %s\n' % (p['id'], p['title']))
    para(p['statement']); out.append('')
    mod = importlib.import_module(p['id'].lower())
    para('**Decided by** ' + p['technique'] + '. ' + (getattr(mod, 'EXPLAIN', mod.__doc__ or '')).strip()); out.append('')
    para('**Bounds.** ' + (p['note'] or '')); out.append('')
    para('**Why tests do not reach it.** ' + p['why'] + ' The check covers: ' + p['text'][0].lower() + p['text'][1:]); out.append('')
    for n in NOTES.get(p['id'], []): para(n, '* ')
    if NOTES.get(p['id']): out.append('')
    fx = [k for k in known if k['property'] == p['id'] and k['status'] == 'fixed']; op = [k for k in known if k['property'] == p['id'] and k['status'] == 'open']
    if fx:
        out.append('Repaired defects found by this check:\n')
        for k in fx: para(k['entry'].split(' ', 2)[2], '* ')
        out.append('')
    if op:
        out.append('Open findings (printed as KNOWN-FINDING):\n')
        for k in op: para(k['key'].replace('|', ' — ') + ': ' + k['why'], '* ')
        out.append('')
    s = [(d, m) for d, m in seeds if m['property'] == p['id']]
    if s:
        out.append('Planted bugs:\n')
        for d, m in s: para('`%s` (%s): %s. Needs: %s.' % (d, 'missed' if d in MISSED else 'caught by ' + p['id'], m['what_it_breaks'], m['needs']), '* ')
        out.append('')
out.append('## Not applicable\n')
for p in P:
    if p['na']: para('**%s %s.** %s' % (p['id'], p['title'], p['na']), '* ')
out.append('')
out.append(TAIL.strip())
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
