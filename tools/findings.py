"""Rewrites the `fixed:` lines of known_findings.txt from /repo's log.  Needs a property for each fix subject."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [l.rstrip('\n').split(' ', 1) for l in open(os.path.join(V, 'tools', 'fixmap.txt')) if l.strip()]
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
known = [l for l in open(os.path.join(V, 'known_findings.txt'))] if os.path.exists(os.path.join(V, 'known_findings.txt')) else []
head = [l for l in known if not l.startswith('fixed:')]
out = []
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    m = [p for p, t in MAP if t == s[5:]]
    if not m:
        print('UNMAPPED', s); continue
    out.append('fixed: property={} {} repaired by "{}"\n'.format(m[0], h, s[5:]))
open(os.path.join(V, 'known_findings.txt'), 'w').write(''.join(head + out))
