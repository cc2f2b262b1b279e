"""C01  Data-location registry: durability over every history of registrations."""
import builtins, os, shutil, pathlib
from . import core
from .core import Check, Violation

KINDS = ('sims', 'lcs', 'props')
SUB = {'sims': 'simulations', 'lcs': 'lightcones', 'props': 'galprops'}
NEW = {'sims': '_newsimpath', 'lcs': '_newlcpath', 'props': '_newproppath'}
DIRS = ['plain', 'with space', 'two  spaces', 'plain/sub.dir']


class Prompt:
    def __init__(self, answers):
        self.answers = list(answers)
        self.asked = 0

    def __call__(self, *a):
        self.asked += 1
        if not self.answers:
            raise Violation('prompt', 'code asked more questions than the dialogue allows')
        return self.answers.pop(0)


class C(Check):
    id = 'C01'
    technique = 'explicit-state BFS over registry operation histories, real code vs. reference model in lockstep'
    rule = ('one case = one history of set-root / register / re-open operations; non-trivial if at least one '
            'registration is accepted and later re-read by a fresh instance')
    assumptions = ('one process at a time; no crash inside a single write call',)
    chunk = 8

    def setup(self):
        from simim import _paths
        self.P = _paths
        self.rootfile = os.path.join(core.PKG, 'simim', 'resources', 'rootpath.txt')

    # ---- alphabet
    def ops(self, kinds, names, paths, answers):
        out = []
        for r in ('rootA', 'root B'):
            out.append(['root', r, 'y', 'y'])
        out.append(['root', 'root B', 'n', 'y'])
        out.append(['root', 'rootA', 'y', 'n'])
        out.append(['root', 'root B', 'zzz', 'y'])
        out.append(['root', './rootA', 'y', 'y'])          # relative to the working directory
        out.append(['setup', './root B', 'y', 'y'])
        out.append(['setup', 'root B', 'y', 'y'])
        out.append(['setup', '', 'y', 'y'])
        out.append(['setup', 'missing', 'y', 'y'])
        out.append(['reopen'])
        out.append(['other'])
        for k in kinds:
            for n in names:
                for p in paths:
                    for a in answers:
                        out.append(['new', k, n, p, a])
        return out

    def explore(self, tier, x):
        deep = tier == 'thorough'
        start = [[], [['root', 'rootA', 'y', 'y']]]
        # each registry kind by itself, deep
        for k in KINDS:
            ops = self.ops([k], ['A', 'A-1'], ['auto', 0, 1, 'ask1'], ['y', 'n'])
            x.bfs(lambda h: {'h': h}, ops, 6 if deep else 4, tag=k, start=start[1:])
        # wide alphabet, shallow
        ops = self.ops(KINDS, ['A', 'A-1'], ['auto', 0, 1, 2, 3, 'ask0', 'ask1', 'askmissing', 'rel'], ['y', 'n', 'x', 'force'])
        x.bfs(lambda h: {'h': h}, ops, 2, tag='wide', start=start)

    # ---- one history
    def run(self, case, ctx):
        base = core.fresh_dir(ctx.scratch)
        old_input, old_cwd = builtins.input, os.getcwd()
        saved = None
        if os.path.exists(self.rootfile):
            saved = open(self.rootfile).read()
            os.remove(self.rootfile)
        try:
            for d in DIRS + ['rootA', 'root B']:
                os.makedirs(os.path.join(base, d), exist_ok=True)
            os.chdir(base)
            self._history(case['h'], ctx, base)
        finally:
            builtins.input = old_input
            os.chdir(old_cwd)
            if saved is not None:
                open(self.rootfile, 'w').write(saved)
            elif os.path.exists(self.rootfile):
                os.remove(self.rootfile)
            shutil.rmtree(base, ignore_errors=True)
            shutil.rmtree(os.path.join(os.path.expanduser('~'), 'simim_resources'), ignore_errors=True)

    def _history(self, h, ctx, base):
        model = {'root': None, 'regs': {}}      # regs: root -> kind -> name -> path
        handles = [[self.P._SimIMPaths(), None]]   # (instance, its idea of the root)
        views = [{k: {} for k in KINDS}]
        self._compare(model, ctx, h, -1)
        for i, op in enumerate(h):
            ctx.step()
            self._apply(op, model, handles, views, ctx, base)
            os.chdir(os.path.join(base, 'rootA'))           # the next session may start anywhere
            self._compare(model, ctx, h, i)
            os.chdir(base)
        canon = (model['root'], sorted((r, k, sorted(v.items())) for r, kk in model['regs'].items() for k, v in kk.items()),
                 handles[-1][1], sorted((k, sorted(v.items())) for k, v in views[-1].items()))
        canon = repr(canon).replace(base, '').replace(os.path.expanduser('~'), '~')
        ctx.end = ctx.state(canon)

    def _apply(self, op, model, handles, views, ctx, base):
        inst, iroot = handles[-1]
        if op[0] in ('reopen', 'other'):
            if op[0] == 'other' and len(handles) > 1:      # go back to the older instance
                handles.append(handles.pop(0))
                views.append(views.pop(0))
                return
            handles.append([self.P._SimIMPaths(), model['root']])
            views.append({k: dict(model['regs'].get(model['root'], {}).get(k, {})) for k in KINDS})
            if op[0] == 'reopen':
                del handles[:-1], views[:-1]
            return
        if op[0] in ('root', 'setup'):
            target = os.path.normpath(os.path.join(base, op[1]))
            rel = op[1].startswith('./')
            if op[0] == 'setup':             # the public entry point works on a fresh registry
                iroot = model['root']
                if op[1] == '':
                    target = os.path.expanduser('~')
            pr = Prompt([op[2], 'y', op[3], 'y'])      # answers are consumed only as asked
            asks = []
            if iroot is not None and iroot != target:
                asks.append(op[2])
            # model: garbage answers re-prompt, then 'y'
            new = target
            ans = []
            if asks:
                if op[2] == 'n':
                    new = iroot
                ans += [op[2]] if op[2] in ('y', 'n') else [op[2], 'y']
            ans += ['y'] if op[3] == 'y' else ['n']
            if op[0] == 'setup':
                ans = [target if op[1] else ''] + ans
                if op[1] == 'missing':
                    ans = ans[:1]
            pr = Prompt(ans)
            builtins.input = pr
            if rel:               # whether the current root is asked about does not matter here
                pr.answers = []
                todo = [op[1]] if op[0] == 'setup' else []
                builtins.input = lambda *a: todo.pop() if todo else 'y'
            if op[0] == 'setup':
                import simim
                try:
                    simim.setupsimim()
                except NameError:
                    ctx.expect(op[1] == 'missing', 'setup:error', 'existing directory refused')
                    return
                ctx.expect(op[1] != 'missing', 'setup:noerror', 'missing directory accepted')
            else:
                inst._setuppath(op[1] if rel else target, confirm_with_user=True)
            ctx.expect(not pr.answers, 'prompt', 'setting the root asked {} of the expected questions'.format(pr.asked))
            if op[3] == 'n':
                return
            model['root'] = new
            model['regs'].setdefault(new, {k: {} for k in KINDS})
            if op[0] == 'setup':
                del handles[:], views[:]
                inst = self.P._SimIMPaths()
                handles.append([inst, new])
                views.append({})
            handles[-1][1] = new
            views[-1].clear()
            views[-1].update({k: dict(model['regs'][new][k]) for k in KINDS})
            for k in KINDS:
                ctx.expect(getattr(inst, k) == views[-1][k], 'root:view', 'after selecting root {}: {} registry shows {} expected {}'.format(
                    op[1], k, getattr(inst, k), views[-1][k]))
            for d in ('simulations', 'lightcones', 'galprops'):
                ctx.expect(os.path.isdir(os.path.join(new, 'simim_resources', d)), 'root:dirs', d)
            return
        _, kind, name, p, ans = op
        f = getattr(inst, NEW[kind])
        view = views[-1][kind]
        check = ans != 'force'
        answers = []
        refused = False
        if check and name in view:
            if ans == 'x':
                answers += ['maybe', 'y']
            else:
                answers.append(ans)
                refused = ans == 'n'
        error = None
        target = None
        arg = None
        if p == 'auto':
            arg = 'auto'
            if iroot:
                target = os.path.join(iroot, 'simim_resources', SUB[kind], name)
        elif p == 'rel':
            arg, target = './plain', os.path.join(base, 'plain')
        elif isinstance(p, int):
            arg = target = os.path.join(base, DIRS[p])
        else:
            arg = None
            if p == 'askmissing':
                ansp = os.path.join(base, 'missing dir')
                error = NameError
            else:
                ansp = target = os.path.join(base, DIRS[int(p[3:])])
            if not refused:
                answers.append(ansp)
        if iroot is None:
            error = ValueError
            answers = []
        pr = Prompt(answers)
        builtins.input = pr
        try:
            f(name, new_path=arg, checkoverwrite=check)
        except (NameError, ValueError) as e:
            ctx.expect(error is not None and not refused, 'new:error', 'registering {} raised {!r}'.format(op, e))
            return
        ctx.expect(error is None or refused, 'new:noerror', 'registering {} should have been rejected'.format(op))
        ctx.expect(not pr.answers, 'prompt', 'question not asked: {}'.format(pr.answers))
        if refused:
            return
        model['regs'][iroot][kind][name] = target
        view[name] = target
        ctx.interesting()
        ctx.expect(os.path.isdir(target), 'new:dir', 'registered directory missing')
        ctx.expect(getattr(inst, kind) == view, 'new:view', 'instance registry {} != {}'.format(getattr(inst, kind), view))

    def _compare(self, model, ctx, h, i):
        fresh = self.P._SimIMPaths()
        ctx.expect(fresh.root == model['root'], 'reopen:root', 'fresh instance has root {!r}, expected {!r}'.format(fresh.root, model['root']))
        for k in KINDS:
            want = model['regs'].get(model['root'], {}).get(k, {})
            got = getattr(fresh, k)
            ctx.expect(got == want, 'reopen:' + k, 'after {}: a fresh instance maps {} expected {}'.format(h[:i + 1], got, want))


CHECK = C()
