"""C03  Any sequence of format calls: append keeps, overwrite replaces, remake starts over."""
import builtins, itertools, os, shutil
import numpy as np
from . import core, rawsim as rs
from .core import Check

N = 3


def records(snap, ver):
    return [rs.raw_record(100 * snap + 10 * ver + t, m) for t, m in enumerate([2e10, 4e12, 2e10][:(snap + ver) % 4])]


class C(Check):
    id = 'C03'
    technique = 'explicit-state BFS over histories of raw updates / format(remake, overwrite, basic, realtime clean) on real HDF5 files vs. a reference file model'
    rule = 'one case = one history of format/raw-update operations; non-trivial if at least one format call follows another'
    assumptions = ('single process', 'format is only asked for snapshots whose raw files exist (missing ones are C04)')
    chunk = 4

    def setup(self):
        import h5py
        from simim.siminterface._rawsiminterface import SimCatalogs
        self.h5py, self.S = h5py, SimCatalogs

    def explore(self, tier, x):
        deep = tier == 'thorough'
        x.bfs(lambda h: {'h': h, 'deep': deep}, self.ops(deep), 4 if deep else 3, tag='format')

    def ops(self, deep):
        subsets = [[0], [1], [2], [0, 2], [2, 1], [0, 1, 2]] if deep else [[0], [2], [1, 2], [0, 1, 2]]
        ops = [['raw', s] for s in range(N)]
        for sub in subsets:
            for remake, over, basic, clean in itertools.product((0, 1), repeat=4):
                if clean and (basic and not deep):
                    continue
                ops.append(['fmt', sub, remake, over, basic, clean])
        ops.append(['decline', [0, 1]])
        return ops

    def run(self, case, ctx):
        p = core.fresh_dir(ctx.scratch)
        old = builtins.input
        try:
            rs.save_meta(p, N)
            raw = {}
            for s in range(N):
                raw[s] = 0
                rs.write_raw(p, s, records(s, 0), as_dir=(s == 1))
            Cat = rs.make_class(self.S, N, True, as_dir=False)
            Cat._get_rawsnapfiles = lambda self_, s: rs.raw_files(s, s == 1)
            model = None        # None = no file;  {snap: (version, names)}
            full, basic_names = list(rs.FIELDS), list(rs.BASIC_NAMES)
            nfmt = 0
            for op in case['h']:
                ctx.step()
                if op[0] == 'raw':
                    raw[op[1]] = 1 - raw[op[1]] if raw[op[1]] is not None else 1
                    rs.write_raw(p, op[1], records(op[1], raw[op[1]]), as_dir=(op[1] == 1))
                    continue
                if op[0] == 'decline':
                    ans = ['what', 'n']
                    builtins.input = lambda *a: ans.pop(0)
                    Cat(p, op[1]).format(remake=True, realtime_clean_raw=True)
                    continue
                _, sub, remake, over, basic, clean = op
                nfmt += 1
                builtins.input = lambda *a: 'y'
                Cat(p, sub).format(remake=bool(remake), overwrite=bool(over), basic=bool(basic),
                                   realtime_clean_raw=bool(clean), realtime_clean_raw_check=len(case['h']) % 2 == 0)
                # reference
                if not model or remake:
                    model = {}
                    names = 'basic' if basic else 'full'
                    todo = list(sub)
                else:
                    names = next(iter(model.values()))[1]
                    todo = list(sub) if over else [s for s in sub if s not in model]
                for s in todo:
                    model[s] = (raw[s], names)
                    if clean:
                        raw[s] = None
            # observe
            exists = os.path.exists(os.path.join(p, 'data.hdf5'))
            ctx.expect(exists == (model is not None), 'file', 'data file exists: {}'.format(exists))
            if exists:
                attrs, got = rs.read_file(self.h5py, p)
                ctx.expect(set(got) == set(model), 'snaps', lambda: 'formatted snapshots {} expected {}'.format(sorted(got), sorted(model)))
                for s in model:
                    ver, names = model[s]
                    rs.check_snapshot(ctx, got[s], records(s, ver), 0.5, full if names == 'full' else basic_names,
                                      'snapshot {} (raw version {})'.format(s, ver), N, s)
                rows = attrs['snapshots']
                ind = [int(i) for i in rows['index']]
                ctx.expect(sorted(set(ind)) == ind and set(model) <= set(ind), 'meta',
                           lambda: 'snapshot metadata rows {} for formatted {}'.format(ind, sorted(model)))
                for r in rows:
                    ctx.expect(r == rs.snap_meta(N)[int(r['index'])], 'meta', lambda: 'metadata row {}'.format(r))
            for s in range(N):
                for f in rs.raw_files(s, s == 1):
                    e = os.path.exists(os.path.join(p, 'raw', f))
                    ctx.expect(e == (raw[s] is not None), 'rawfiles', lambda: 'raw file {} exists={} model={}'.format(f, e, raw[s]))
            key = (sorted(model.items()) if model is not None else None, sorted(raw.items(), key=str))
            ctx.state(key)
            ctx.end = core.digest(key)
            have = {s for s in raw if raw[s] is not None}
            ctx.enabled = [o for o in self.ops(case['deep']) if o[0] != 'fmt' or set(o[1]) <= have]
            if nfmt > 1:
                ctx.interesting()
        finally:
            builtins.input = old
            shutil.rmtree(p, ignore_errors=True)


CHECK = C()
