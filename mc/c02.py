"""C02  Formatting a raw snapshot keeps exactly the simulation's halos."""
import itertools, os, shutil
from . import core, rawsim as rs
from .core import Check

MASSES = [2.5e5, 2e6, 2e10, 2.2e10, 6e12, 6.000001e12, 4e20]


class C(Check):
    id = 'C02'
    technique = 'exhaustive enumeration of raw halo lists (mass alphabet x length), real SimCatalogs.format vs. reference formatter'
    rule = 'one case = (halo mass list, schema, basic flag, h); non-trivial if it has at least two halos'
    assumptions = ('fields use the declared single-precision dtype', 'the loader returns each raw field once')
    chunk = 8

    def setup(self):
        import h5py
        from simim.siminterface._rawsiminterface import SimCatalogs
        self.h5py, self.S = h5py, SimCatalogs

    def cases(self, tier):
        n = 4 if tier == 'thorough' else 3
        for L in range(n + 1):
            for ms in itertools.product(range(len(MASSES)), repeat=L):
                for tb in ((0, 1) if L <= 2 else (1,)):
                    for basic in ((0, 1) if L <= 2 else (0,)):
                        for h in ((0.5, 0.7) if L <= 2 else (0.5,)):
                            yield {'m': list(ms), 'tuple': tb, 'basic': basic, 'h': h}
        # every ordering of longer lists with repeated masses
        for L in ((5, 6) if tier == 'quick' else (5, 6, 7)):
            for ms in sorted(set(itertools.permutations([0, 2, 2, 3, 4, 4, 5][:L]))):
                yield {'m': list(ms), 'tuple': 1, 'basic': 0, 'h': 0.5}

    def run(self, case, ctx):
        p = core.fresh_dir(ctx.scratch)
        try:
            # three snapshots: the case, its reverse, and an empty one
            lists = [[MASSES[i] for i in case['m']], [MASSES[i] for i in case['m']][::-1], []]
            rs.save_meta(p, 3, case['h'])
            recs = []
            for s, ms in enumerate(lists):
                recs.append([rs.raw_record(10 * s + t, m) for t, m in enumerate(ms)])
                rs.write_raw(p, s, recs[-1])
            before = {f: open(os.path.join(p, 'raw', f)).read() for f in os.listdir(os.path.join(p, 'raw'))}
            Cat = rs.make_class(self.S, 3, bool(case['tuple']))
            Cat(p).format(basic=bool(case['basic']))
            ctx.step(3)
            attrs, got = rs.read_file(self.h5py, p)
            ctx.expect(set(got) == {0, 1, 2}, 'snaps', lambda: 'formatted snapshots {}'.format(set(got)))
            names = rs.BASIC_NAMES if case['basic'] else list(rs.FIELDS)
            for s in range(3):
                rs.check_snapshot(ctx, got[s], recs[s], case['h'], names, 'snapshot {} masses {}'.format(s, lists[s]), 3, s)
                ctx.state((s, sorted((k, v[0].tolist()) for k, v in got[s]['fields'].items())))
            for k, v in rs.metadata(3, case['h']).items():
                ctx.expect(k in attrs and attrs[k] == v, 'filemeta', lambda: 'file attribute {} = {}'.format(k, attrs.get(k)))
            after = {f: open(os.path.join(p, 'raw', f)).read() for f in os.listdir(os.path.join(p, 'raw'))}
            ctx.expect(before == after, 'raw', 'formatting without cleaning changed the raw files')
            if len(case['m']) > 1:
                ctx.interesting()
        finally:
            shutil.rmtree(p, ignore_errors=True)


CHECK = C()
