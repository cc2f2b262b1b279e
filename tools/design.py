"""Writes the generated parts of DESIGN.md (between the markers) from properties.jsonl, the checks and seeded/."""
import json, os, re, glob, importlib, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
P = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
cost = {l.split()[0]: l.split()[1:] for l in open(os.path.join(V, 'tools/costs.txt')) if l.strip()}
out = []
for p in P:
    c = importlib.import_module('mc.' + p['id'].lower()).CHECK
    q, t = cost.get(p['id'], ('?', '?'))
    out.append('### {} {}\n\n* decided by: {}\n* bounds: {}\n* counted: {}{}\n* beyond the tests: {}\n* cost (8 cores): quick {} s, thorough {} s\n'.format(
        p['id'], p['title'], c.technique, p['quantifier']['text'], c.rule,
        '\n* trusted: ' + '; '.join(c.assumptions) if c.assumptions else '', p['why_tests_cant'], q, t))
seeds = []
missed = {l.split(None, 1)[0]: l.split(None, 1)[1].strip() for l in open(os.path.join(V, 'tools/missed.txt')) if l.strip()}
for d in sorted(glob.glob(os.path.join(V, 'seeded/*/'))):
    n = os.path.basename(d[:-1])
    m = json.load(open(d + 'meta.json'))
    seeds.append('| {} | {} | {} | {} |'.format(n, m['property'], m['needs'].replace('|', '/'), missed.get(n, 'caught as planted')))
s = open(os.path.join(V, 'DESIGN.md')).read()
def put(tag, text):
    global s
    a, b = '<!-- {} -->'.format(tag), '<!-- /{} -->'.format(tag)
    assert a in s and b in s
    s = s[:s.index(a) + len(a)] + '\n' + text + '\n' + s[s.index(b):]
put('properties', '\n'.join(out))
put('seeded', '| planted bug | reported by | needs | first run |\n|---|---|---|---|\n' + '\n'.join(seeds))
open(os.path.join(V, 'DESIGN.md'), 'w').write(s)
