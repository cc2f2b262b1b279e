"""Mutation campaign (development tool, no check uses it): small edits of simim, run against the checks that execute
the edited line; edits no check reports are then run against the stable tests and listed.
usage: mutate.py OUT.jsonl COVDIR NWORKERS K [path-prefix ...]"""
import ast, hashlib, json, os, queue, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.Mod: '//', ast.FloorDiv: '/', ast.BitAnd: '|', ast.BitOr: '&'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda l, c: off[l - 1] + c
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    seg = lambda n: b[span(n)[0]:span(n)[1]].decode()
    out = []

    def add(n, s, e, new, kind, cov):
        out.append((n.lineno, s, e, new, kind, cov))

    def visit(n, cov, skip):
        # cov: (first,last) lines whose execution shows the code is reached, or None for the node's own line
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Call):
            f = seg(n.func)
            if f in ('warnings.warn', 'print'):
                return
            if f.endswith('.copy') and not n.args and isinstance(n.func, ast.Attribute):
                add(n, *span(n), seg(n.func.value), 'nocopy', cov)
            elif f in ('np.copy', 'deepcopy', 'copy.deepcopy', 'np.array', 'copy.copy') and n.args:
                add(n, *span(n), seg(n.args[0]), 'unwrap', cov)
            elif f in ('np.floor', 'np.ceil', 'abs', 'np.abs', 'np.sort', 'np.unique', 'os.path.abspath', 'np.round', 'float', 'int', 'np.conj', 'np.asarray') and len(n.args) == 1:
                add(n, *span(n), '(' + seg(n.args[0]) + ')', 'unwrap', cov)
            for k in n.keywords:
                if k.arg:
                    s, e = span(k)
                    j = s
                    while j > 0 and b[j - 1:j] in b' \n\t':
                        j -= 1
                    if b[j - 1:j] == b',':
                        add(k, j - 1, e, '', 'dropkw', cov)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            s, e = span(n.left)[1], span(n.comparators[0])[0]
            mid = b[s:e].decode()
            for k, v in CMP.items():
                if isinstance(n.ops[0], k):
                    sym = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}[k]
                    if mid.count(sym) == 1:
                        add(n, s, e, mid.replace(sym, v), 'cmp', cov)
        if isinstance(n, ast.BinOp):
            s, e = span(n.left)[1], span(n.right)[0]
            mid = b[s:e].decode()
            sy = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**', ast.Mod: '%', ast.FloorDiv: '//', ast.BitAnd: '&', ast.BitOr: '|'}.get(type(n.op))
            if sy and mid.count(sy) == 1 and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                add(n, s, e, mid.replace(sy, BIN[type(n.op)]), 'bin', cov)
        if isinstance(n, ast.BoolOp):
            for v in n.values:
                add(n, *span(n), seg(v), 'bool-' + ('and' if isinstance(n.op, ast.And) else 'or'), cov)
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.Not):
                add(n, *span(n), '(' + seg(n.operand) + ')', 'not', cov)
            elif isinstance(n.op, ast.USub):
                add(n, *span(n), seg(n.operand), 'neg', cov)
                if isinstance(n.operand, ast.Constant):
                    return
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, *span(n), str(not v), 'const', cov)
            elif isinstance(v, int):
                add(n, *span(n), {0: '1', 1: '0'}.get(v, str(v + 1)), 'const', cov)
            elif isinstance(v, float):
                add(n, *span(n), repr(v * 1.1 + (v == 0) * .1), 'const', cov)
        if isinstance(n, (ast.If, ast.While)):
            if isinstance(n, ast.If):
                add(n, *span(n.test), 'True', 'if-true', cov)
            add(n, *span(n.test), 'False', 'if-false', cov)
        if isinstance(n, ast.IfExp):
            add(n, *span(n), '(' + seg(n.body) + ')', 'ifexp', cov)
            add(n, *span(n), '(' + seg(n.orelse) + ')', 'ifexp', cov)
        if isinstance(n, (ast.Continue, ast.Break)) or isinstance(n, ast.AugAssign) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)) \
                or (isinstance(n, ast.Assign) and not all(isinstance(t, ast.Name) for t in n.targets)):
            add(n, *span(n), 'pass', 'delete', cov)
        if isinstance(n, ast.Assign) and all(isinstance(t, ast.Name) for t in n.targets) and cov is not None:
            nm = n.targets[0].id
            add(n, *span(n), '{0} = {0}'.format(nm), 'delassign', cov)
        if isinstance(n, (ast.FunctionDef,)):
            body = [s for s in n.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))] or n.body
            c = (n.name, body[0].lineno, body[0].lineno)
            for ch in ast.iter_child_nodes(n.args):
                visit(ch, c, skip)
            for s in n.body:
                visit(s, (n.name, None, None), skip)
            return
        for ch in ast.iter_child_nodes(n):
            visit(ch, cov, skip)
    visit(tree, None, False)
    return b, out


def load_cov(d):
    cov, cost = {}, {}
    for f in sorted(os.listdir(d)):
        if f.endswith('.txt'):
            c = f[:-4]
            for l in open(os.path.join(d, f)):
                p, n = l.strip().rsplit(':', 1)
                cov.setdefault((p, int(n)), set()).add(c)
    for l in open(os.path.join(d, 'summary')):
        a = l.split()
        cost[a[0]] = float(a[3])
    return cov, cost


def tests(wt, slot):
    root = slot + '/root'
    shutil.rmtree(root, ignore_errors=True)
    os.mkdir(root)
    env = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1')
    for p in ('simim/resources/rootpath.txt', 'tests/test_root.txt'):
        if os.path.exists(os.path.join(wt, p)):
            os.remove(os.path.join(wt, p))
    shutil.rmtree(os.path.join(wt, 'tests/simim_resources'), ignore_errors=True)
    subprocess.run([PY, '-c', 'from simim import setupsimim; setupsimim()'], cwd=wt, env=env, input=root + '\ny\n', capture_output=True, text=True, timeout=200)
    try:
        r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=300', 'tests'], cwd=wt, env=env, capture_output=True, text=True, timeout=400)
    except subprocess.TimeoutExpired:
        return False
    return '60 passed' in r.stdout


def main():
    outf, covd, nw, k = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    pre = sys.argv[5:]
    done = set()
    if os.path.exists(outf):
        for l in open(outf):
            done.add(json.loads(l)['id'])
    cov, cost = load_cov(covd)
    allchecks = sorted(cost)
    q = queue.Queue()
    n = 0
    for root, ds, fs in os.walk(os.path.join(REPO, 'simim')):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(root, f), REPO)
            if not f.endswith('.py') or (pre and not any(p.startswith(x) for x in pre)):
                continue
            src = open(os.path.join(REPO, p)).read()
            b, ms = mutants(src)
            per = {}
            for m in ms:
                per.setdefault(m[0], []).append(m)
            for ln in sorted(per):
                c = sorted(per[ln], key=lambda m: hashlib.md5(repr((p, b[m[1]-40:m[2]+40], m[3])).encode()).hexdigest())[:k]
                for m in c:
                    new = b[:m[1]] + m[3].encode() + b[m[2]:]
                    try:
                        compile(new, p, 'exec')
                    except SyntaxError:
                        continue
                    key = m[5][1] if m[5] and m[5][1] else ln
                    if m[5] is None:
                        ck = {x for (pp, l), v in cov.items() if pp == p for x in v}
                        # module level: checks that execute anything of the file beyond its import
                        big = {}
                        for (pp, l), v in cov.items():
                            if pp == p:
                                for x in v:
                                    big[x] = big.get(x, 0) + 1
                        mn = min(big.values()) if big else 0
                        ck = {x for x in big if big[x] > mn}
                    else:
                        ck = cov.get((p, key), set())
                    text = src.splitlines()[ln - 1].strip()
                    i = hashlib.md5(repr((p, ln, text, m[1:5])).encode()).hexdigest()[:10]
                    if i in done:
                        continue
                    n += 1
                    q.put((hashlib.md5(i.encode()).hexdigest(), i, p, ln, text, b[m[1]:m[2]].decode(), m[3], m[4], m[5][0] if m[5] else '', sorted(ck, key=lambda x: cost[x]), new))
    items = sorted(q.queue)
    q = queue.Queue()
    for it in items:
        q.put(it)
    print(n, 'mutants', flush=True)
    lock = threading.Lock()

    def work(w):
        slot = '/tmp/mut/{}'.format(w)
        shutil.rmtree(slot, ignore_errors=True)
        os.makedirs(slot + '/verif/evidence')
        subprocess.run(['cp', '-a', REPO, slot + '/repo'])
        for x in ('check', 'mc', 'known_findings.txt', 'properties.jsonl', 'MANIFEST.json', 'tools'):
            subprocess.run(['cp', '-a', os.path.join(V, x), slot + '/verif/'])
        env = dict(os.environ, VERIF_REPO=slot + '/repo', VERIF_JOBS=os.environ.get('MUTJOBS', '1'), OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', TMPDIR=slot)
        while True:
            try:
                _, i, p, ln, text, old, newt, kind, fn, ck, new = q.get_nowait()
            except queue.Empty:
                return
            path = os.path.join(slot, 'repo', p)
            keep = open(path, 'rb').read()
            open(path, 'wb').write(new)
            res, by, t0 = 'MISSED', None, time.time()
            try:
                for c in ck:
                    try:
                        r = subprocess.run([slot + '/verif/check', c], cwd=slot + '/verif', env=env, capture_output=True, text=True, timeout=1500)
                        rc = r.returncode
                    except subprocess.TimeoutExpired:
                        rc = 'timeout'
                    if rc != 0:
                        res, by = ('caught' if rc == 1 else 'rc={}'.format(rc)), c
                        break
                if not ck:
                    res = 'uncovered'
                if res in ('MISSED', 'uncovered'):
                    if not tests(slot + '/repo', slot):
                        res = 'tests'
            finally:
                open(path, 'wb').write(keep)
            with lock:
                with open(outf, 'a') as f:
                    f.write(json.dumps(dict(id=i, path=p, line=ln, fn=fn, kind=kind, text=text, old=old, new=newt, result=res, by=by, checks=ck, sec=round(time.time() - t0))) + '\n')
    ts = [threading.Thread(target=work, args=(w,)) for w in range(nw)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()
