"""Makes and validates planted bugs.  usage: seed.py SPEC.py [ids...]; SPEC defines seed(id, prop, edits, needs, breaks, demo)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/seedwt'
BASE = '09e8b64'
PY = '/opt/venv/bin/python'
S = []


def seed(id, prop, edits, needs, breaks, demo):
    S.append((id, prop, edits, needs, breaks, demo))


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def fresh():
    shutil.rmtree(WT, ignore_errors=True)
    sh(['cp', '-a', '/repo', WT])
    sh(['git', '-C', WT, 'checkout', '-q', '--', '.'])


def tests():
    root = '/tmp/seedroot'
    shutil.rmtree(root, ignore_errors=True)
    os.mkdir(root)
    for p in ('simim/resources/rootpath.txt', 'tests/test_root.txt'):
        if os.path.exists(os.path.join(WT, p)):
            os.remove(os.path.join(WT, p))
    shutil.rmtree(os.path.join(WT, 'tests/simim_resources'), ignore_errors=True)
    env = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    sh([PY, '-c', 'from simim import setupsimim; setupsimim()'], cwd=WT, env=env, input=root + '\ny\n')
    r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', 'tests'], cwd=WT, env=env)
    shutil.rmtree(root, ignore_errors=True)
    return '60 passed' in r.stdout, r.stdout[-600:]


def demo(d, repo):
    r = sh(['bash', os.path.join(d, 'demo.sh')], cwd=repo, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-800:]


if __name__ == '__main__':
    exec(open(sys.argv[1]).read())
    want = sys.argv[2:]
    for id, prop, edits, needs, breaks, code in S:
        if want and id not in want:
            continue
        fresh()
        bad = None
        for path, old, new in edits:
            p = os.path.join(WT, path)
            t = open(p).read()
            if t.count(old) != 1:
                bad = '{}: {} matches of {!r}'.format(path, t.count(old), old)
                break
            open(p, 'w').write(t.replace(old, new))
        if bad:
            print(id, 'BAD', bad); continue
        patch = sh(['git', '-C', WT, 'diff']).stdout
        rem = 0
        for path in {e[0] for e in edits}:
            hunks = sh(['git', '-C', WT, 'diff', '-U0', '--', path]).stdout.splitlines()
            blame = sh(['git', '-C', '/repo', 'blame', '-s', 'HEAD', '--', path]).stdout.splitlines()
            for h in hunks:
                if h.startswith('@@'):
                    a = h.split()[1][1:].split(',')
                    n = int(a[1]) if len(a) > 1 else 1
                    for l in range(int(a[0]), int(a[0]) + n):
                        rem += 1
                        if not blame[l - 1].lstrip('^').startswith(BASE):
                            bad = 'line {} of {} is not original'.format(l, path)
        if bad or not rem:
            print(id, 'BAD', bad or 'no original line changed'); continue
        d = os.path.join('/tmp/seedout', id)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, 'patch.diff'), 'w').write(patch)
        open(os.path.join(d, 'demo.py'), 'w').write(code.strip('\n') + '\n')
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        shutil.copy(os.path.join(V, 'tools', 'democommon.py'), d)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = demo(d, '/repo')
        if a[0] != 0:
            print(id, 'BAD demo fails on unchanged tree', a[1]); continue
        b = demo(d, WT)
        if b[0] == 0:
            print(id, 'BAD demo passes with the bug'); continue
        ok, out = tests()
        if not ok:
            print(id, 'BAD tests', out); continue
        dst = os.path.join(V, 'seeded', id)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        r = sh([os.path.join(V, 'check'), prop], cwd=V, env=dict(os.environ, VERIF_REPO=WT))
        print(id, prop, 'CAUGHT' if r.returncode == 1 else 'MISSED rc={}'.format(r.returncode), '|', '; '.join(b[1].strip().splitlines()[-1:]), '|', ' '.join(r.stdout.split('\n')[1:4])[:300], flush=True)
    shutil.rmtree(WT, ignore_errors=True)
