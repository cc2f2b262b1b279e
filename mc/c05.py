"""C05  Raw data: deletion touches exactly the raw files asked for; downloads fetch exactly what is missing."""
import builtins, itertools, os, pathlib, shlex, shutil, subprocess
import numpy as np
from . import core, rawsim as rs
from .core import Check, Violation

NAMES = ['plain', 'with space', 'raw data raw', "quo'te", 'semi;touch x', 'dollar$(x)', 'star *', '-dash', 'back\\slash', 'amp & b']


class Guard:
    """Stand-ins for every way of deleting: the target is resolved first and must lie below `allowed`;
    anything else is recorded and NOT executed.  Shell commands are parsed, never run."""

    def __init__(self, allowed):
        self.allowed = os.path.realpath(allowed)
        self.bad = []
        self.undo = []
        self.shell_hook = None

    def inside(self, p):
        r = os.path.realpath(os.path.join(os.getcwd(), os.fsdecode(p)))
        return r == self.allowed or r.startswith(self.allowed + os.sep)

    def _guard(self, owner, name):
        orig = getattr(owner, name)

        def w(path, *a, **kw):
            if kw.get('dir_fd') is None and not self.inside(path):
                self.bad.append((name, os.fsdecode(path)))
                return None
            return orig(path, *a, **kw)
        setattr(owner, name, w)
        self.undo.append((owner, name, orig))

    def shell(self, cmd, *a, **kw):
        if self.shell_hook is not None and 'wget' in (cmd if isinstance(cmd, str) else os.path.basename(os.fsdecode(cmd[0]))):
            return self.shell_hook(words_of(cmd))
        if isinstance(cmd, (list, tuple)):
            words = [os.fsdecode(c) for c in cmd]
        else:
            lex = shlex.shlex(cmd, posix=True, punctuation_chars=True)
            lex.whitespace_split = True
            lex.commenters = '#'
            try:
                words = list(lex)
            except ValueError:
                self.bad.append(('shell', cmd))
                return 1
            # unquoted expansion characters outside quotes change the targets
            if any(c in w for w in words for c in ';&|') or '$(' in cmd.replace("'" + cmd.strip("'") + "'", ''):
                if not ("'" in cmd and shlex.join(words) == cmd):
                    self.bad.append(('shell', cmd))
                    return 1
        if not words or os.path.basename(words[0]) != 'rm':
            self.bad.append(('shell', cmd))
            return 1
        for w in words[1:]:
            if w.startswith('-') and w != '--':
                continue
            if w == '--':
                continue
            if not self.inside(w):
                self.bad.append(('shell', w))
                continue
            p = os.path.join(os.getcwd(), w)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            elif os.path.lexists(p):
                os.remove(p)
        return 0

    def __enter__(self):
        for n in ('remove', 'unlink', 'rmdir'):
            self._guard(os, n)
        self._guard(shutil, 'rmtree')
        for owner, n in ((os, 'system'), (subprocess, 'run'), (subprocess, 'call'), (subprocess, 'check_call'), (subprocess, 'Popen'), (os, 'popen')):
            self.undo.append((owner, n, getattr(owner, n)))
            setattr(owner, n, self.shell)
        return self

    def __exit__(self, *a):
        for o, n, f in reversed(self.undo):
            setattr(o, n, f)


def words_of(cmd):
    """The arguments a POSIX shell would pass on; what it would expand or interpret shows up as such."""
    if not isinstance(cmd, str):
        return [os.fsdecode(c) for c in cmd]
    out, cur, quote, i = [], None, None, 0
    while i < len(cmd):
        c = cmd[i]
        if quote == "'":
            if c == "'":
                quote = None
            else:
                cur += c
        elif c == '\\':
            i += 1
            n = cmd[i] if i < len(cmd) else ''
            cur = (cur or '') + (c + n if quote and n not in '$`"\\' else n)
        elif c in '$`':
            cur = (cur or '') + '<expanded>'
        elif quote == '"':
            if c == '"':
                quote = None
            else:
                cur += c
        elif c in '"\'':
            quote, cur = c, cur or ''
        elif c in ' \t\n':
            if cur is not None:
                out.append(cur)
            cur = None
        elif c in ';&|<>()*?[#~':
            cur = (cur or '') + '<special>'
        else:
            cur = (cur or '') + c
        i += 1
    return out + ([cur] if cur is not None else [])


def tree(base):
    out = {}
    for d, ds, fs in os.walk(base):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, base)] = open(p, errors='replace').read() if not f.endswith(('.hdf5', '.npy')) else 'bin'
        for f in ds:
            out[os.path.relpath(os.path.join(d, f), base) + os.sep] = None
    return out


class C(Check):
    id = 'C05'
    technique = 'exhaustive enumeration of data-directory names x confirmation dialogues x deletion requests, and of present-file sets x download requests x download failures, on the real code with recording stand-ins for deletion, shell and network'
    rule = 'one case = one deletion or download history; non-trivial if something had to be deleted, or some but not all files were missing'
    assumptions = ('the network and the shell are stand-ins', 'a failed download leaves a truncated file at the place it was told to write')
    chunk = 8

    def setup(self):
        import h5py, requests, urllib.request
        from simim.siminterface import _rawsiminterface, universemachine, uchuu, illustris
        self.h5py = h5py
        self.S = _rawsiminterface.SimCatalogs
        self.um, self.uu, self.il = universemachine, uchuu, illustris

    def cases(self, tier):
        deep = tier == 'thorough'
        dialogs = [['y'], ['n'], ['maybe', 'y'], ['Y', 'n'], ['', 'yes', 'y'], ['no', 'n']]
        for nm in NAMES:
            for d in dialogs:
                yield {'k': 'clean', 'dir': nm, 'ans': d}
            for d in dialogs[:4] + [None]:
                for sub in ([0], [1], [0, 1], [1, 2]):
                    yield {'k': 'rt', 'dir': nm, 'ans': d, 'sub': sub}
        yield {'k': 'clean', 'dir': 'plain', 'ans': ['y'], 'link': 1}
        # downloads
        for sub in itertools.chain.from_iterable(itertools.combinations(range(3), r) for r in (1, 2, 3)):
            for present in itertools.product((0, 1), repeat=3):
                for re in (0, 1):
                    for fail in ([0, 1, 2, 3] if not deep else [0, 1, 2, 3]):
                        yield {'k': 'um', 'sim': 'UniverseMachine-SMDPL', 'sub': list(sub), 'present': list(present), 're': re, 'fail': fail}
                    yield {'k': 'um', 'sim': '_testbox', 'sub': list(sub), 'present': list(present), 're': re, 'fail': 0}
        for sub in ([0], [1], [0, 1]):
            for present in itertools.product((0, 1), repeat=6):
                for re in (0, 1):
                    for dfs in ([1, 2, 3], [2], [3, 4], [12, 1]) if deep else ([1, 2, 3], [3, 4]):
                        for fail in (0, 1, 2):
                            yield {'k': 'uchuu', 'sub': sub, 'present': list(present), 're': re, 'dfs': dfs, 'fail': fail}
        for sub in ([0], [2], [0, 2]):
            for present in itertools.product((0, 1), repeat=4):
                for re in (0, 1):
                    for per_call in (1, 2, 9):
                        for meta in (1, 0):
                            yield {'k': 'ill', 'sub': sub, 'present': list(present), 're': re, 'per': per_call, 'meta': meta}
                            if not any(present) and sub == [0, 2] and per_call == 2 and meta and not re:
                                for name in NAMES:
                                    yield {'k': 'ill', 'sub': sub, 'present': list(present), 're': re, 'per': per_call, 'meta': meta, 'dir': name}

    def run(self, case, ctx):
        base = core.fresh_dir(ctx.scratch)
        old_in, cwd = builtins.input, os.getcwd()
        try:
            os.chdir(base)
            getattr(self, 'do_' + case['k'])(case, ctx, base)
        finally:
            builtins.input = old_in
            os.chdir(cwd)
            shutil.rmtree(base, ignore_errors=True)

    # ---- deletion
    def world(self, base, name):
        p = os.path.join(base, 'data', name)
        os.makedirs(p)
        rs.save_meta(p, 3)
        for s in range(3):
            rs.write_raw(p, s, [rs.raw_record(10 * s, 2e10)], as_dir=True)
        # neighbours that a mis-parsed path would hit
        for n in ('data', 'with', 'space', 'raw', 'quote', 'semi', 'amp', 'b', 'x', 'other'):
            d = os.path.join(base, n)
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, 'keep'), 'w') as f:
                f.write('keep')
        for n in ('with', 'star z', 'other sim'):
            os.makedirs(os.path.join(base, 'data', n, 'raw'), exist_ok=True)
            with open(os.path.join(base, 'data', n, 'raw', 'keep'), 'w') as f:
                f.write('keep')
        return p

    def dialog(self, ctx, ans):
        left = list(ans or [])

        def inp(*a):
            ctx.step()
            if not left:
                raise Violation('prompt', 'asked again after the dialogue {} was settled'.format(ans))
            return left.pop(0)
        builtins.input = inp
        return left

    def do_clean(self, case, ctx, base):
        p = self.world(base, case['dir'])
        if case.get('link'):
            os.rename(os.path.join(p, 'raw'), os.path.join(base, 'elsewhere'))
            os.symlink(os.path.join(base, 'elsewhere'), os.path.join(p, 'raw'))
        cat = rs.make_class(self.S, 3, True, as_dir=True)(p)
        before = tree(base)
        left = self.dialog(ctx, case['ans'])
        with Guard(base) as g:
            cat.clean_raw()
        ctx.step()
        ctx.expect(not g.bad, 'escape', lambda: 'deletion left the data directory: {}'.format(g.bad))
        ctx.expect(not left, 'dialogue', lambda: 'answers not asked for: {}'.format(left))
        after = tree(base)
        raw = os.path.relpath(os.path.join(p, 'raw'), base)
        want = dict(before)
        if case['ans'][-1] == 'y':
            want = {k: v for k, v in want.items() if k != raw + os.sep and not k.startswith(raw + os.sep)}
            if case.get('link'):
                ctx.expect(not os.path.exists(os.path.join(p, 'raw')), 'clean', 'raw link still there')
            ctx.interesting()
        ctx.expect(after == want, 'clean', lambda: 'answers {} dir {!r}: wrongly missing {} wrongly left {}'.format(
            case['ans'], case['dir'], sorted(set(want) - set(after)), sorted(set(after) - set(want))))
        ctx.state(sorted(after))

    def do_rt(self, case, ctx, base):
        p = self.world(base, case['dir'])
        before = tree(base)
        cat = rs.make_class(self.S, 3, True, as_dir=True)(p, case['sub'])
        left = self.dialog(ctx, case['ans'])
        with Guard(base) as g:
            cat.format(realtime_clean_raw=True, realtime_clean_raw_check=case['ans'] is not None)
        ctx.step()
        ctx.expect(not g.bad, 'escape', lambda: 'deletion left the data directory: {}'.format(g.bad))
        ctx.expect(not left, 'dialogue', lambda: 'answers not asked for: {}'.format(left))
        after = tree(base)
        rel = os.path.relpath(p, base)
        want = dict(before)
        if case['ans'] is None or case['ans'][-1] == 'y':
            gone = []
            for s in case['sub']:
                for f in rs.raw_files(s, True):
                    gone.append(os.path.join(rel, 'raw', f))
            want = {k: v for k, v in want.items() if not any(k == q or k.startswith(q + os.sep) for q in gone)}
            want[os.path.join(rel, 'data.hdf5')] = 'bin'
            ctx.interesting()
        ctx.expect(after == want, 'clean', lambda: 'dir {!r} {}: wrongly missing {} wrongly left {}'.format(
            case['dir'], case, sorted(set(want) - set(after)), sorted(set(after) - set(want))))
        ctx.state(sorted(after))

    # ---- downloads
    def net(self, mod, fail):
        """urlretrieve stand-in: writes the full content, or fails on the `fail`-th call leaving a truncated file."""
        log = []

        def get(url, dest=None, *a, **kw):
            log.append((str(url), os.path.abspath(dest)))
            if len(log) == fail:
                with open(dest, 'w') as f:
                    f.write('trunc')
                raise OSError('connection lost')
            with open(dest, 'w') as f:
                f.write('content of ' + str(url))
            return dest, None
        return log, get

    def do_um(self, case, ctx, base):
        um = self.um
        p = os.path.join(base, 'd')
        os.makedirs(os.path.join(p, 'raw'))
        test = case['sim'] == '_testbox'
        files = ['sfr_catalog_0.055623.txt', 'sfr_catalog_0.506185.txt', 'sfr_catalog_0.994717.txt'] if test else \
                ['sfr_catalog_0.100000.bin', 'sfr_catalog_0.500000.bin', 'sfr_catalog_1.000000.bin']
        np.save(os.path.join(p, 'web_paths.npy'), np.array(files))
        for f, here in zip(files, case['present']):
            if here:
                with open(os.path.join(p, 'raw', f), 'w') as fh:
                    fh.write('old')
        import urllib.request
        log, get = self.net(um, case['fail'])
        saved = urllib.request.urlretrieve, getattr(um, 'urlretrieve', None)
        urllib.request.urlretrieve = get
        um.urlretrieve = get
        try:
            def go(re):
                cat = um.UniversemachineCatalogs(case['sim'], path=p, snaps=list(case['sub']), updatepath=False)
                cat.download(redownload=bool(re))
                return cat
            ctx.step()
            page = 'https://halos.as.arizona.edu/UniverseMachine/DR1/SMDPL_SFR/'
            todo = [i for i in case['sub'] if case['re'] or not case['present'][i]]
            failed = False
            try:
                go(case['re'])
            except OSError:
                failed = True
            ctx.expect(failed == (0 < case['fail'] <= len(todo)), 'error', lambda: '{}: failed={}'.format(case, failed))
            if failed:
                ctx.step()
                go(False)          # the user simply runs it again
        finally:
            urllib.request.urlretrieve = saved[0]
            um.urlretrieve = saved[1]
        for i, f in enumerate(files):
            q = os.path.join(p, 'raw', f)
            got = open(q).read() if os.path.exists(q) else None
            new = 'content of ' + page + f
            if test:
                new = open(os.path.join(core.PKG, 'simim', 'resources', '_testbox', f)).read()
            if i not in case['sub']:
                want = ['old' if case['present'][i] else None]
            elif i not in todo:
                want = ['old']
            elif failed and case['re'] and case['present'][i] and todo.index(i) >= case['fail'] - 1:
                want = ['old', new]     # a redownload that broke off: the complete old file is still good
            else:
                want = [new]
            ctx.expect(got in want, 'download', lambda: '{}: snapshot {} file is {!r}'.format(case, i, got and got[:40]))
        if todo and len(todo) < 3:
            ctx.interesting()
        ctx.state((case['k'], sorted(os.listdir(os.path.join(p, 'raw')))))

    def do_uchuu(self, case, ctx, base):
        uu = self.uu
        p = os.path.join(base, 'd')
        os.makedirs(os.path.join(p, 'raw'))
        files = ['Uchuu_UM_z3p00_data1.h5', 'Uchuu_UM_z0p00_data1.h5']
        np.save(os.path.join(p, 'web_paths.npy'), np.array(files))
        nm = lambda i, d: files[i].replace('data1', 'data{}'.format(d))
        present = set()
        for j, here in enumerate(case['present']):
            i, d = divmod(j, 3)
            d = case['dfs'][d] if d < len(case['dfs']) else d + 1
            if here:
                present.add((i, d))
                with open(os.path.join(p, 'raw', nm(i, d)), 'w') as fh:
                    fh.write('old')
        import urllib.request
        log, get = self.net(uu, case['fail'])
        saved = urllib.request.urlretrieve, getattr(uu, 'urlretrieve', None)
        urllib.request.urlretrieve = get
        uu.urlretrieve = get
        try:
            def go(re):
                cat = uu.UchuuCatalogs('UniverseMachine-uchuu', path=p, snaps=list(case['sub']), updatepath=False)
                cat.download(redownload=bool(re), datafiles=list(case['dfs']))
            ctx.step()
            todo = [(i, d) for i in case['sub'] for d in case['dfs'] if case['re'] or (i, d) not in present]
            failed = False
            try:
                go(case['re'])
            except OSError:
                failed = True
            ctx.expect(failed == (0 < case['fail'] <= len(todo)), 'error', lambda: '{}: failed={}'.format(case, failed))
            if failed:
                ctx.step()
                go(False)
        finally:
            urllib.request.urlretrieve = saved[0]
            uu.urlretrieve = saved[1]
        for i in range(2):
            for d in range(1, 13):
                q = os.path.join(p, 'raw', nm(i, d))
                got = open(q).read() if os.path.exists(q) else None
                new = 'content of https://skun.iaa.csic.es/SUsimulations/UchuuDR2/Uchuu_UM/{}/{}'.format('SFR' if d <= 3 else 'SFH', nm(i, d))
                if (i, d) not in todo:
                    want = ['old' if (i, d) in present else None]
                elif failed and case['re'] and (i, d) in present and todo.index((i, d)) >= case['fail'] - 1:
                    want = ['old', new]
                else:
                    want = [new]
                ctx.expect(got in want, 'download', lambda: '{}: snapshot {} data file {} is {!r}'.format(case, i, d, got and got[:60]))
        if todo and len(todo) < 6:
            ctx.interesting()
        ctx.state((case['k'], sorted(os.listdir(os.path.join(p, 'raw')))))

    def do_ill(self, case, ctx, base):
        il = self.il
        p = os.path.join(base, case.get('dir', 'd'))
        os.makedirs(os.path.join(p, 'raw'))
        nfiles = 2
        if case['meta']:
            m = rs.metadata(3)
            m['groupcat_number_files'] = nfiles
            np.save(os.path.join(p, 'meta.npy'), m)
            np.save(os.path.join(p, 'meta_snaps.npy'), rs.snap_meta(3))
        fn = lambda s, j: os.path.join(p, 'raw', 'groups_{:03d}'.format(s), 'fof_subhalo_tab_{:03d}.{}.hdf5'.format(s, j))
        present = set()
        for j, here in enumerate(case['present']):
            s, c = (0, 2)[j // 2], j % 2
            if here:
                os.makedirs(os.path.dirname(fn(s, c)), exist_ok=True)
                with open(fn(s, c), 'w') as f:
                    f.write('old')
                present.add((s, c))
        calls = []

        def wget(words):
            calls.append(words)
            if len(calls) > 40:
                raise Violation('retry', 'download does not terminate: {}'.format(case))
            ctx.expect('-P' in words, 'request', lambda: '{}: no destination: {}'.format(case, words))
            dest = words[words.index('-P') + 1]
            ctx.expect(os.path.realpath(dest).startswith(os.path.realpath(p) + os.sep) and os.path.isdir(dest), 'destination', lambda: '{}: the download goes to {}'.format(case, words))
            ctx.expect(any('API-Key: KEY' in w for w in words), 'request', lambda: '{}: request without the API key: {}'.format(case, words))
            snap = [w for w in words if 'groupcat-' in w][0].split('groupcat-')[1].split('/')[0]
            left = case['per']
            for j in range(nfiles):
                q = os.path.join(dest, 'fof_subhalo_tab_{:03d}.{}.hdf5'.format(int(snap), j))
                if not os.path.exists(q) and left > 0:
                    left -= 1
                    with open(q, 'w') as f:
                        f.write('new')
            return 0
        with Guard(base) as g:
            g.shell_hook = wget
            cat = il.IllustrisCatalogs('TNG100-1', 'KEY', path=p, snaps=list(case['sub']), updatepath=False)
            cat.download(redownload=bool(case['re']))
        ctx.step(1 + len(calls))
        ctx.expect(not g.bad, 'escape', lambda: str(g.bad))
        for s in (0, 2):
            for c in range(nfiles):
                got = open(fn(s, c)).read() if os.path.exists(fn(s, c)) else None
                if s not in case['sub']:
                    want = ['old' if (s, c) in present else None]
                elif (s, c) in present:
                    want = ['old', 'new']
                elif case['meta'] or case['per'] > 1 and not any((s, d) in present for d in range(nfiles)):
                    want = ['new']
                else:
                    want = ['new', None]       # without metadata the number of files is unknown
                ctx.expect(got in want, 'download', lambda: '{}: snapshot {} chunk {} is {}'.format(case, s, c, got))
        for words in calls:
            url = [w for w in words if 'groupcat-' in w][0]
            snap = int(url.split('groupcat-')[1].split('/')[0])
            ctx.expect(snap in case['sub'] and '/TNG100-1/' in url, 'request', lambda: 'unexpected request {}'.format(url))
            if not case['re'] and case['meta']:
                ctx.expect(not all((snap, c) in present for c in range(nfiles)), 'request', lambda: '{}: complete snapshot {} fetched again'.format(case, snap))
        if present:
            ctx.interesting()
        ctx.state((case['k'], len(calls), sorted(tree(p))))


CHECK = C()
