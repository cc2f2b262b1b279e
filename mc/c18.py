"""C18  Light cones hold every halo image of the periodic box in their field exactly once."""
import itertools, os, shutil
import numpy as np
from . import core, fake, lcmodel as lm
from .core import Check

H, BOX = .5, 60.
SNAPS = [(2, .09), (5, .04), (6, 0.)]
MASSES = [5e11, 2e12, 7e10, 2.**40, 3e11, 8e10, 1e13]
CUTS = [0., 2.**40, 6e11]
STARTS = [[0., 0., 0.], [.5, .25, .125], [.999, .001, .6], [.31, .87, .52]]
PAS = [0., .25, .4, .9]
GEO = [('box', 1.), ('circle', 1.), ('box', .4)]


def snaprows():
    return fake.meta_rows(SNAPS, H)


def zedges():
    r = np.sort(snaprows(), order='redshift')
    return [float(r[0]['redshift_max']), float(r[1]['redshift_max']), float(r[2]['redshift_max'])]


class C(Check):
    id = 'C18'
    technique = 'exhaustive enumeration of light cone geometries (line of sight lattice x flips x starts x position angles x shapes x depth x mass cut x box-copy regime) with a scripted random generator, vs. an explicit periodic tiling of the box'
    rule = 'one case = one set of light cones; non-trivial if the light cone contains halos'
    assumptions = ('halos closer than rounding (2e-5 Mpc/h, 1e-8 rad) to an edge of the field may be in or out',)
    chunk = 2

    def setup(self):
        import h5py
        from simim.lightcone import LCMaker
        from simim.lightcone import LCHandler
        lm.memoize_cosmology()
        self.h5py, self.LCMaker, self.LCHandler = h5py, LCMaker, LCHandler
        base = os.path.join(core.ROOT, 'sims')
        os.mkdir(base)
        shift = {2: (0, .3, .6), 5: (.2, .8, .1), 6: (.5, .4, .9)}
        halos = {i: lm.lattice(14, BOX, shift[i], MASSES) for i, _ in SNAPS}
        none = {k: v[:0] for k, v in halos[2].items()}
        one = {k: v[:1] for k, v in halos[6].items()}
        self.paths = {}
        for sim, hs in (('TNG300-1', halos), ('UniverseMachine-SMDPL', halos), ('TNG100-1', {**halos, 6: none}),
                        ('TNG100-2', {**halos, 5: none}), ('TNG100-3', {2: none, 5: none, 6: none}), ('TNG300-2', {2: none, 5: one, 6: halos[6]})):
            p = os.path.join(base, sim)
            fake.write_sim(self.h5py, p, SNAPS, hs, box=BOX, h=H, name=sim)
            fake.register(sim, p)
            self.paths[sim] = p
        self.sims = {k: lm.read_sim(h5py, p) for k, p in self.paths.items()}

    def cases(self, tier):
        deep = tier == 'thorough'
        dirs = lm.directions(8 if deep else 5)
        angles = [.5, 1.5, 3., 6.] if deep else [3.]
        ze = zedges()
        base = dict(sim='TNG300-1', mode='box', aspect=1., angle=3., z=[0., 'max'], mass=0, n=1, los=lm.FALLBACK, flip=0, start=1, pa=1, again=0)
        # emptiness and number of light cones
        for sim in ('TNG100-3', 'TNG100-1', 'TNG100-2', 'TNG300-2'):
            for mass in (0, 1):
                for z in ([0., 'max'], [0., .01], [.03, .05]):
                    yield dict(base, sim=sim, mass=mass, z=z)
        for n in (1, 2, 3):
            for again in (0, 1):
                yield dict(base, n=n, again=again)
        # redshift ranges: inside, across and exactly at the snapshots' limits
        zs = [0., .01, ze[0], .05, ze[1], ze[2]]
        for a, b in itertools.combinations(zs, 2):
            for mass in range(len(CUTS)):
                yield dict(base, z=[a, b], mass=mass, mode='circle' if mass else 'box')
        for sim in ('TNG300-1', 'UniverseMachine-SMDPL'):
            for angle in (.3, 1., 3., 6.):
                for mode, aspect in GEO:
                    yield dict(base, sim=sim, angle=angle, mode=mode, aspect=aspect)
        for f in range(8):
            for s in range(len(STARTS)):
                for pa in range(len(PAS)):
                    yield dict(base, flip=f, start=s, pa=pa, los=[.5, .6, .4] if s % 2 else [.35, .5, .7])
        for i, d in enumerate(dirs):
            for j, (mode, aspect) in enumerate(GEO):
                for sim in ('TNG300-1', 'UniverseMachine-SMDPL'):
                    for angle in angles:
                        yield dict(base, sim=sim, mode=mode, aspect=aspect, angle=angle, los=d, flip=(i + j) % 8, start=i % 4, pa=(i // 4) % 4)

    def run(self, case, ctx):
        sim = case['sim']
        data, rows, box, h, cosmo = self.sims[sim]
        zmin, zmax = case['z']
        cut = CUTS[case['mass']]
        n = case['n']
        script = lambda: lm.Script([[c * box / BOX for c in STARTS[(case['start'] + i) % len(STARTS)]] for i in range(n)],
                                   [lm.FLIPS[(case['flip'] + 3 * i) % 8] for i in range(n)],
                                   [case['los']] * 3 + [lm.FALLBACK, [.5, .45, .55]], [PAS[(case['pa'] + i) % len(PAS)] for i in range(n)])
        mk = self.LCMaker(sim, 'lc', case['angle'], case['aspect'], redshift_min=zmin, redshift_max=zmax, minimum_mass=cut, mode=case['mode'], overwrite=True)
        try:
            outs = []
            for rep in range(1 + case['again']):
                mk.build_lightcones(n, rng=script())
                ctx.step(n)
                outs.append([self.check(ctx, case, os.path.join(mk.lc_path, 'lc_{:04d}.hdf5'.format(i)), cut, zmin, zmax) for i in range(n)])
            if case['again']:
                ctx.expect(outs[0] == outs[1], 'reproducible', lambda: '{}: the same random numbers gave another light cone'.format(case))
            if n > 1:
                ctx.expect(len({o[0] for o in outs[0]}) == n, 'independent', lambda: '{}: light cones of one set share their starting point'.format(case))
        finally:
            shutil.rmtree(mk.lc_path, ignore_errors=True)

    def check(self, ctx, case, path, cut, zmin, zmax):
        data, rows, box, h, cosmo = self.sims[case['sim']]
        with self.h5py.File(path, 'r') as f:
            attrs = dict(f.attrs)
            basic, full, idx, zidx = lm.table(f)
            units = {k: (f['Lightcone Full'][k].attrs['units'], f['Lightcone Full'][k].attrs['h dependence']) for k in full}
        what = lambda: '{}: los {} flips {} start {}'.format(case, attrs['line of sight vector'], attrs['box flips'], attrs['start position'])
        zmax = float(rows['redshift_max'].max()) if zmax == 'max' else zmax
        for k, v in {'minimum redshift': zmin, 'maximum redshift': zmax, 'open angle': np.radians(case['angle']), 'aspect ratio': case['aspect'], 'mass cut': cut}.items():
            ctx.expect(abs(float(attrs[k]) - v) < 1e-6 * max(1, abs(v)), 'metadata', lambda: '{}: {} = {} expected {}'.format(what(), k, attrs[k], v))
        ctx.expect(attrs['shape'] == case['mode'], 'metadata', lambda: what() + ' shape')
        M, P, los = attrs['line of sight transformation matrix'], attrs['position angle transformation matrix'], attrs['line of sight vector']
        for m in (M, P):
            ctx.expect(np.allclose(m @ m.T, np.eye(3), atol=1e-10), 'rotation', lambda: '{}: not a rotation {}'.format(what(), m))
        ctx.expect(np.allclose(M @ los, [1, 0, 0], atol=1e-10) and np.allclose(P @ [1, 0, 0], [1, 0, 0], atol=1e-10), 'rotation', lambda: '{}: line of sight {} is mapped to {}'.format(what(), los, M @ los))
        must, may = lm.expected(data, rows, box, h, cosmo, attrs, cut, zmin, zmax)
        n = len(idx)
        ctx.expect(set(basic) == {'pos_x', 'pos_y', 'pos_z', 'ra', 'dec', 'redshift', 'mass'} and set(full) == set(basic), 'fields', lambda: '{}: {} {}'.format(what(), sorted(basic), sorted(full)))
        for k in basic:
            ctx.expect(basic[k].shape == (n,) and np.array_equal(basic[k], full[k]), 'fields', lambda: '{}: {} has shape {} for {} halos'.format(what(), k, basic[k].shape, n))
        got = np.stack([idx['snap'].astype(float), idx['index'].astype(float), basic['pos_x'], basic['pos_y'], basic['pos_z']], axis=1)
        missing, extra, dup = lm.match(got, must, may)
        ctx.expect(not dup, 'duplicate', lambda: '{}: {} images appear twice, e.g. {}'.format(what(), len(dup), dup[0]))
        ctx.expect(not missing, 'incomplete', lambda: '{}: {} of {} halo images are missing, e.g. (snap, index, x, y, z, d) {}'.format(what(), len(missing), len(must), missing[:2]))
        ctx.expect(not extra, 'spurious', lambda: '{}: {} of {} halos should not be there, e.g. {}'.format(what(), len(extra), n, extra[:2]))
        if n:
            ctx.interesting()
            ctx.step(n)
            d = np.sqrt(basic['pos_x'] ** 2 + basic['pos_y'] ** 2 + basic['pos_z'] ** 2)
            ctx.expect(np.allclose(basic['ra'], basic['pos_x'] / d, atol=1e-12) and np.allclose(basic['dec'], basic['pos_y'] / d, atol=1e-12), 'angles', lambda: what() + ' ra/dec')
            zz = np.array(cosmo.comoving_distance(np.clip(basic['redshift'], 0, None)).value) * h
            ctx.expect(np.allclose(zz, d, atol=2e-3), 'redshift', lambda: '{}: redshifts are off by up to {} Mpc/h'.format(what(), np.abs(zz - d).max()))
            ctx.expect((np.diff(basic['redshift']) >= 0).all(), 'order', lambda: what() + ': halos are not in order of redshift')
            mass = np.array([data[s]['mass'][i] for s, i in zip(idx['snap'], idx['index'])])
            ctx.expect(np.array_equal(mass, basic['mass']), 'mass', lambda: what() + ': masses differ from the halos they belong to')
            count = [int((basic['redshift'] <= z).sum()) for z in zidx['redshift']]
            ctx.expect(list(zidx['index'])[1:] == count[1:], 'redshift index', lambda: what() + ': redshift index')
        ctx.expect(units == {'pos_x': ('Mpc/h', -1), 'pos_y': ('Mpc/h', -1), 'pos_z': ('Mpc/h', -1), 'mass': ('Msun/h', -1), 'ra': ('radians', 0), 'dec': ('radians', 0), 'redshift': ('None', 0)},
                   'units', lambda: '{}: {}'.format(what(), units))
        ctx.state(got.round(6).tobytes())
        return tuple(attrs['start position']), got.tobytes()


CHECK = C()
