"""C04  Interrupted formatting: no half-written snapshot, no lost raw data, and re-running completes the job."""
import builtins, os, shutil
import numpy as np
from . import core, rawsim as rs
from .core import Check

N = 3


class Fault(OSError):
    pass


def records(snap, ver):
    return [rs.raw_record(100 * snap + 10 * ver + t, m) for t, m in enumerate([2e10, 4e12, 2e10][:(snap + ver) % 4])]


class Injector:
    """Counts storage operations (and raw reads/removals); raises at the k-th, before or after it takes effect."""

    def __init__(self, h5py, k, when, exc):
        self.h5py, self.k, self.when, self.exc = h5py, k, when, exc
        self.n = 0
        self.fired = None
        self.undo = []

    def wrap(self, owner, name, post_ok=True):
        orig = getattr(owner, name)
        inj = self

        def w(*a, **kw):
            inj.n += 1
            me = inj.n
            if me == inj.k and inj.when == 'pre' and inj.fired is None:
                inj.fired = name
                raise inj.exc('injected before ' + name)
            r = orig(*a, **kw)
            if me == inj.k and inj.when == 'post' and post_ok and inj.fired is None:
                inj.fired = name
                raise inj.exc('injected after ' + name)
            return r
        setattr(owner, name, w)
        self.undo.append((owner, name, orig))

    def __enter__(self):
        h = self.h5py
        self.wrap(h.Group, 'create_group', post_ok=False)
        self.wrap(h.Group, 'create_dataset')
        self.wrap(h.Group, '__delitem__')
        self.wrap(h.AttributeManager, '__setitem__')
        self.wrap(os, 'remove')
        self.wrap(os, 'unlink')
        self.wrap(shutil, 'rmtree')
        return self

    def __exit__(self, *a):
        for o, n, f in reversed(self.undo):
            setattr(o, n, f)


class C(Check):
    id = 'C04'
    level = 'fault_enumeration'
    technique = 'exhaustive fault-point enumeration (every storage/read/remove operation of format, before/after, error and Ctrl-C) with recovery on the real code'
    rule = 'one case = (starting file, format arguments, fault kind); all fault points of that call are enumerated; non-trivial if at least one fault fired'
    assumptions = ('the interruption surfaces as a Python exception at a storage operation (disk error, unreadable raw file, Ctrl-C); a kill inside the HDF5 library is out of scope',)
    chunk = 1

    def setup(self):
        import h5py
        from simim.siminterface._rawsiminterface import SimCatalogs
        self.h5py, self.S = h5py, SimCatalogs

    def cases(self, tier):
        subs = [[0, 1, 2], [2, 1]] if tier == 'quick' else [[0, 1, 2], [2, 1], [1], [0, 2]]
        starts = ['none', 's1', 's1new', 'empty', 's1basic', 's012new'] if tier == 'quick' else ['none', 's1', 's1new', 'empty', 's02new', 's1basic', 's012new']
        for start in starts:
            for sub in subs:
                for remake, over, basic, clean in [(0, 1, 0, 0), (0, 1, 0, 1)] if start == 's012new' and tier == 'quick' else [(0, 0, 0, 0), (0, 1, 0, 0), (0, 0, 0, 1), (0, 1, 0, 1), (0, 0, 1, 0), (1, 0, 0, 0), (0, 0, 1, 1), (1, 0, 1, 0)]:
                    for when, exc in (('pre', 'os'), ('pre', 'int'), ('post', 'os')):
                        yield {'start': start, 'sub': sub, 'args': [remake, over, basic, clean], 'when': when, 'exc': exc}

    def build(self, case):
        p = core.fresh_dir(self._scr)
        rs.save_meta(p, N)
        raw = {s: 0 for s in range(N)}
        for s in range(N):
            rs.write_raw(p, s, records(s, 0))
        Cat = rs.make_class(self.S, N, True)
        model = {}
        st = case['start']
        if st == 'empty':
            Cat(p, []).format()
        elif st != 'none':
            which = [int(c) for c in st[1:] if c.isdigit()]
            Cat(p, which).format(basic='basic' in st)
            for s in which:
                model[s] = (0, 'basic' if 'basic' in st else 'full')
            if 'new' in st:
                for s in range(N):
                    rs.write_raw(p, s, records(s, 1))
                    raw[s] = 1
        return p, Cat, model, raw

    def run(self, case, ctx):
        self._scr = ctx.scratch
        remake, over, basic, clean = case['args']
        k = 0
        while True:
            k += 1
            p, Cat, model, raw = self.build(case)
            try:
                oldraw = dict(raw)
                # reference result of the uninterrupted call
                want = {} if (remake or not model) else dict(model)
                names = ('basic' if basic else 'full') if not want else next(iter(want.values()))[1]
                todo = [s for s in case['sub'] if over or s not in want]
                for s in todo:
                    want[s] = (raw[s], names)
                exc = KeyboardInterrupt if case['exc'] == 'int' else Fault
                kw = dict(overwrite=bool(over), basic=bool(basic), realtime_clean_raw=bool(clean), realtime_clean_raw_check=False)
                cat = Cat(p, case['sub'])
                with Injector(self.h5py, k, case['when'], exc) as inj:
                    inj.wrap(Cat, '_loader')
                    raised = False
                    try:
                        cat.format(remake=bool(remake), **kw)
                    except (Fault, KeyboardInterrupt):
                        raised = True
                total = inj.n
                ctx.step()
                if inj.fired is None:
                    if k > total:
                        break
                    continue
                ctx.interesting()
                ctx.evals = k
                where = '{} (fault {} {} at operation {} = {})'.format(case, case['when'], case['exc'], k, inj.fired)
                ctx.expect(raised, 'swallowed', where + ': the error was swallowed')
                got = {}
                if os.path.exists(os.path.join(p, 'data.hdf5')):
                    _, got = rs.read_file(self.h5py, p)
                if not got:     # nothing left to take the field set from: the arguments of the call decide, as for a new file
                    for s in todo:
                        want[s] = (want[s][0], 'basic' if basic else 'full')
                if not remake:
                    gone = [s for s in model if s not in got]
                    ctx.expect(len(gone) <= 1 and set(gone) <= set(todo), 'vanished', lambda: '{}: snapshots {} were in the catalogue and are not any more'.format(where, gone))
                    for s in model:
                        if s in got and s not in todo:
                            rs.check_snapshot(ctx, got[s], records(s, model[s][0]), 0.5, list(rs.FIELDS) if model[s][1] == 'full' else rs.BASIC_NAMES,
                                              where + ': untouched snapshot {}'.format(s), N, s)
                for s in got:
                    ok = []
                    for v in {oldraw[s], 0, 1}:
                        for nm in ('basic', 'full'):
                            try:
                                rs.check_snapshot(ctx, got[s], records(s, v), 0.5, list(rs.FIELDS) if nm == 'full' else rs.BASIC_NAMES, '', N, s)
                                ok.append((v, nm))
                            except core.Violation:
                                pass
                    ctx.expect(ok, 'partial', lambda: '{}: snapshot {} is visible but incomplete: {}'.format(where, s, sorted(got[s]['fields'])))
                for s in range(N):
                    here = all(os.path.exists(os.path.join(p, 'raw', f)) for f in rs.raw_files(s))
                    ctx.expect(here or s in got, 'lost', lambda: '{}: raw data of snapshot {} deleted but it is not formatted'.format(where, s))
                ctx.state((case['start'], case['args'], sorted(got), k))
                # recovery: same request again (not remaking what already succeeded)
                again = [s for s in case['sub'] if all(os.path.exists(os.path.join(p, 'raw', f)) for f in rs.raw_files(s))]
                if again or not clean:
                    Cat(p, again if clean else case['sub']).format(remake=bool(remake) and not clean, **kw)
                ctx.step()
                _, got = rs.read_file(self.h5py, p)
                ctx.expect(set(got) == set(want), 'recover', lambda: '{}: after re-running: snapshots {} expected {}'.format(where, sorted(got), sorted(want)))
                for s in want:
                    v, nm = want[s]
                    rs.check_snapshot(ctx, got[s], records(s, v), 0.5, list(rs.FIELDS) if nm == 'full' else rs.BASIC_NAMES,
                                      where + ': after re-running: snapshot {}'.format(s), N, s)
            finally:
                shutil.rmtree(p, ignore_errors=True)


CHECK = C()
