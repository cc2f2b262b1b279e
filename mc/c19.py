"""C19  Light spheres hold every halo of their shell and sector exactly once, or are refused."""
import itertools, os, shutil
import numpy as np
from . import core, fake, lcmodel as lm
from .core import Check

H, BOX = .5, 60.
SNAPS = [(2, .026), (5, .008), (6, 0.)]
MASSES = [5e11, 2e12, 7e10, 2. ** 40, 3e11, 8e10, 1e13]
CUTS = [0., 2. ** 40]
STARTS = [[0., 0., 0.], [30., 15., 7.5], [59.94, .06, 36.], [18.6, 52.2, 31.2]]
MODES = ['sphere', 'hemisphere', 'quarter', 'eighth']


class C(Check):
    id = 'C19'
    technique = 'exhaustive enumeration of light sphere requests (sector x flips x starting point x shell x mass cut) with a scripted random generator, vs. an explicit periodic tiling of the box'
    rule = 'one case = one set of spheres (or one refusal); non-trivial if it contains halos'
    assumptions = ('halos closer than rounding (2e-5 Mpc/h) to an edge of the shell may be in or out',)
    chunk = 2

    def setup(self):
        import h5py
        from simim.lightcone import SphereMaker
        self.h5py, self.Maker = h5py, SphereMaker
        lm.memoize_cosmology()
        base = os.path.join(core.ROOT, 'sims')
        os.mkdir(base)
        shift = {2: (0, .3, .6), 5: (.2, .8, .1), 6: (.5, .4, .9)}
        halos = {i: lm.lattice(10, BOX, shift[i], MASSES) for i, _ in SNAPS}
        none = {k: v[:0] for k, v in halos[2].items()}
        self.sims = {}
        for sim, hs in (('TNG300-1', halos), ('TNG100-1', {**halos, 6: none}), ('TNG100-3', {2: none, 5: none, 6: none})):
            p = os.path.join(base, sim)
            fake.write_sim(self.h5py, p, SNAPS, hs, box=BOX, h=H, name=sim)
            fake.register(sim, p)
            self.sims[sim] = lm.read_sim(h5py, p)

    def cases(self, tier):
        deep = tier == 'thorough'
        rows = np.sort(fake.meta_rows(SNAPS, H), order='redshift')
        edges = [float(rows[0]['redshift_max']), float(rows[1]['redshift_max'])]
        zs = [0., .002, edges[0], .009, .0098, .0105, edges[1], .0198, .0205, .024]
        base = dict(sim='TNG300-1', mode='sphere', z=[0., .0098], mass=0, n=1, flip=0, start=1, again=0)
        for sim in ('TNG300-1', 'TNG100-1', 'TNG100-3'):
            for mode in MODES:
                for mass in range(len(CUTS)):
                    yield dict(base, sim=sim, mode=mode, mass=mass)
        for n in (1, 2, 3):
            for again in (0, 1):
                yield dict(base, n=n, again=again)
        for mode in MODES:
            for a, b in itertools.combinations(zs, 2):
                yield dict(base, mode=mode, z=[a, b], flip=3)
        for mode in MODES:
            for f in range(8):
                for s in range(len(STARTS)):
                    for z in ([0., .0098], [.003, .009]) + (([0., .0195], [.008, .0098], [0., edges[0]]) if deep else ()):
                        yield dict(base, mode=mode, flip=f, start=s, z=z)

    def run(self, case, ctx):
        data, rows, box, h, cosmo = self.sims[case['sim']]
        zmin, zmax = case['z']
        cut, n = CUTS[case['mass']], case['n']
        unit = lambda: lm.Script([[c / box for c in STARTS[(case['start'] + i) % len(STARTS)]] for i in range(n)], [lm.FLIPS[(case['flip'] + 3 * i) % 8] for i in range(n)], [lm.FALLBACK], [0.])
        limit = box if case['mode'] == 'eighth' else box / 2
        far = cosmo.comoving_distance(zmax).value * h
        path = None
        try:
            try:
                mk = self.Maker(case['sim'], 'lc', redshift_min=zmin, redshift_max=zmax, minimum_mass=cut, mode=case['mode'], overwrite=True)
            except ValueError:
                ctx.step()
                ctx.state(('refused', case['mode'], tuple(case['z'])))
                ctx.expect(far > limit - 1e-3, 'refused', lambda: '{}: a shell of radius {} was refused in a box of {}'.format(case, far, box))
                return
            path = mk.lc_path
            outs = []
            for rep in range(1 + case['again']):
                mk.build_lightcones(n, rng=unit())
                ctx.step(n)
                outs.append([self.check(ctx, case, os.path.join(path, 'lc_{:04d}.hdf5'.format(i)), cut, zmin, zmax) for i in range(n)])
            if case['again']:
                ctx.expect(outs[0] == outs[1], 'reproducible', lambda: '{}: the same random numbers gave another sphere'.format(case))
            if n > 1:
                ctx.expect(len({o[0] for o in outs[0]}) == n, 'independent', lambda: '{}: spheres of one set share their starting point'.format(case))
        finally:
            if path:
                shutil.rmtree(path, ignore_errors=True)

    def check(self, ctx, case, path, cut, zmin, zmax):
        data, rows, box, h, cosmo = self.sims[case['sim']]
        with self.h5py.File(path, 'r') as f:
            attrs = dict(f.attrs)
            basic, full, idx, zidx = lm.table(f)
            units = {k: (f['Lightcone Full'][k].attrs['units'], f['Lightcone Full'][k].attrs['h dependence']) for k in full}
        what = lambda: '{}: flips {} start {}'.format(case, attrs['box flips'], attrs['start position'])
        for k, v in {'minimum redshift': zmin, 'maximum redshift': zmax, 'mass cut': cut}.items():
            ctx.expect(abs(float(attrs[k]) - v) < 1e-6 * max(1, abs(v)), 'metadata', lambda: '{}: {} = {} expected {}'.format(what(), k, attrs[k], v))
        ctx.expect(attrs['shape'] == case['mode'], 'metadata', lambda: what() + ' shape')
        must, may = lm.expected(data, rows, box, h, cosmo, attrs, cut, zmin, zmax)
        n = len(idx)
        ctx.expect(set(basic) == {'pos_x', 'pos_y', 'pos_z', 'ra', 'dec', 'redshift', 'mass'} and set(full) == set(basic), 'fields', lambda: '{}: {} {}'.format(what(), sorted(basic), sorted(full)))
        for k in basic:
            ctx.expect(basic[k].shape == (n,) and np.array_equal(basic[k], full[k]), 'fields', lambda: '{}: {} has shape {} for {} halos'.format(what(), k, basic[k].shape, n))
        got = np.stack([idx['snap'].astype(float), idx['index'].astype(float), basic['pos_x'], basic['pos_y'], basic['pos_z']], axis=1)
        missing, extra, dup = lm.match(got, must, may)
        limit = box if case['mode'] == 'eighth' else box / 2
        far = cosmo.comoving_distance(zmax).value * h
        if limit < far <= limit / h + 1e-3:
            # Known: the radius in Mpc/h is compared to the size of the box in Mpc, so that shells which
            # reach beyond the box are accepted.  Only halos beyond the box may be missing because of it.
            beyond = [r for r in missing if max(abs(c) for c in r[2:5]) > limit - 1e-3]
            missing = [r for r in missing if r not in beyond]
            if beyond:
                ctx.fail('beyond-box', '{}: a sphere of radius {:.3f} Mpc/h was built in a box of {} Mpc/h, and {} halos are missing'.format(what(), far, box, len(beyond)))
        ctx.expect(not dup, 'duplicate', lambda: '{}: {} images appear twice, e.g. {}'.format(what(), len(dup), dup[0]))
        ctx.expect(not missing, 'incomplete', lambda: '{}: {} of {} halo images are missing, e.g. (snap, index, x, y, z, d) {}'.format(what(), len(missing), len(must), missing[:2]))
        ctx.expect(not extra, 'spurious', lambda: '{}: {} of {} halos should not be there, e.g. {}'.format(what(), len(extra), n, extra[:2]))
        if n:
            ctx.interesting()
            ctx.step(n)
            b = basic
            d = np.sqrt(b['pos_x'] ** 2 + b['pos_y'] ** 2 + b['pos_z'] ** 2)
            xyz = np.stack([np.cos(b['dec']) * np.cos(b['ra']), np.cos(b['dec']) * np.sin(b['ra']), np.sin(b['dec'])]) * d
            ctx.expect(np.allclose(xyz, [b['pos_x'], b['pos_y'], b['pos_z']], atol=1e-6) and (b['ra'] >= 0).all() and (b['ra'] < 2 * np.pi + 1e-9).all(), 'angles', lambda: what() + ' ra/dec')
            zz = np.array(cosmo.comoving_distance(np.clip(b['redshift'], 0, None)).value) * h
            ctx.expect(np.allclose(zz, d, atol=2e-3), 'redshift', lambda: '{}: redshifts are off by up to {} Mpc/h'.format(what(), np.abs(zz - d).max()))
            ctx.expect((np.diff(b['redshift']) >= 0).all(), 'order', lambda: what() + ': halos are not in order of redshift')
            mass = np.array([data[s]['mass'][i] for s, i in zip(idx['snap'], idx['index'])])
            ctx.expect(np.array_equal(mass, b['mass']), 'mass', lambda: what() + ': masses differ from the halos they belong to')
            count = [int((b['redshift'] <= z).sum()) for z in zidx['redshift']]
            ctx.expect(list(zidx['index'])[1:] == count[1:], 'redshift index', lambda: what() + ': redshift index')
        ctx.expect(units == {'pos_x': ('Mpc/h', -1), 'pos_y': ('Mpc/h', -1), 'pos_z': ('Mpc/h', -1), 'mass': ('Msun/h', -1), 'ra': ('radians', 0), 'dec': ('radians', 0), 'redshift': ('None', 0)},
                   'units', lambda: '{}: {}'.format(what(), units))
        ctx.state(got.round(6).tobytes())
        return tuple(attrs['start position']), got.tobytes()


CHECK = C()
