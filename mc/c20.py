"""C20  Properties added to a light cone belong to the right halo, and vectors are in the light cone's frame."""
import hashlib, os, shutil
import numpy as np
from . import core, fake, lcmodel as lm
from .core import Check

H, BOX = .5, 60.
LC_SNAPS = [(2, .09), (5, .04), (6, 0.)]
SP_SNAPS = [(2, .015), (5, .006), (6, 0.)]
REV_SNAPS = [(6, .09), (5, .04), (2, 0.)]          # snapshots numbered from the present backwards
CUT = 6e11
UNITS = {'v_x': ('km/s', 0), 'sfr': ('Msun/yr', 0), 'id': ('None', 0), 'spin_x': ('Mpc/h km/s', -1), 'cm_x': ('Mpc/h', -1)}
for k in ('v', 'spin', 'cm'):
    for c in 'yz':
        UNITS[k + '_' + c] = UNITS[k + '_x']
KINDS = {'box': ('TNG300-1', 'box'), 'circle': ('TNG300-1', 'circle'), 'gap': ('TNG100-1', 'box'), 'late': ('TNG100-2', 'circle'), 'empty': ('TNG100-3', 'box'),
         'sphere': ('TNG300-1-Dark', 'sphere'), 'quarter': ('TNG300-1-Dark', 'quarter'), 'backwards': ('TNG100-1-Dark', 'box'), 'nosphere': ('TNG100-3', 'sphere')}


def halos(i, snaps):
    d = lm.lattice(9, BOX, {2: (0, .3, .6), 5: (.2, .8, .1), 6: (.5, .4, .9)}[i], [5e11, 2e12, 1e12, 3e11, 1e13])
    n = len(d['mass'])
    t = np.arange(n)
    d['mass'] = (d['mass'] * (1 + 1e-4 * t)).astype('f')      # all different
    d['id'] = 20000001 + 3 * t + 100000 * i
    d['sfr'] = t / 8. + i * 1000
    for k, (name, s) in enumerate((('v', 300.), ('spin', 7.))):
        for j, c in enumerate('xyz'):
            d[name + '_' + c] = s * np.cos(1. + t * (.7 + .31 * j) + 2 * j + k + i)
    for j, c in enumerate('xyz'):
        d['cm_' + c] = (d['pos_' + c].astype(float) + .4 * np.sin(t * (1.1 + j) + i)) % BOX
    return d


class C(Check):
    id = 'C20'
    technique = 'explicit-state BFS over histories of property additions (scalar, integer, vector, unknown, repeated, rebuilt) to sets of light cones of every kind, vs. the source snapshots joined through the halo indices'
    rule = 'one case = one history of additions to one set of light cones; non-trivial if a property was added'
    assumptions = ('vectors are compared to single precision',)
    chunk = 1

    def setup(self):
        import h5py
        from simim.lightcone import LCMaker, SphereMaker, LCHandler
        self.h5py, self.LCMaker, self.SphereMaker, self.LCHandler = h5py, LCMaker, SphereMaker, LCHandler
        lm.memoize_cosmology()
        base = os.path.join(core.ROOT, 'sims')
        os.mkdir(base)
        full = {i: halos(i, LC_SNAPS) for i in (2, 5, 6)}
        none = {k: v[:0] for k, v in full[2].items()}
        self.sims, self.files = {}, {}
        for sim, hs in (('TNG300-1', full), ('TNG100-1', {**full, 5: none}), ('TNG100-2', {**full, 6: none}), ('TNG100-3', {2: none, 5: none, 6: none}), ('TNG300-1-Dark', full), ('TNG100-1-Dark', full)):
            p = os.path.join(base, sim)
            fake.write_sim(h5py, p, SP_SNAPS if sim == 'TNG300-1-Dark' else REV_SNAPS if sim == 'TNG100-1-Dark' else LC_SNAPS, hs, box=BOX, h=H, name=sim, units=UNITS, dtypes={'id': 'i8'})
            fake.register(sim, p)
            self.sims[sim] = lm.read_sim(h5py, p)
            self.files[sim] = os.path.join(p, 'data.hdf5')

    OPS = [['p', 'sfr'], ['p', 'id'], ['p', 'sfr', 'id'], ['p', 'masscheck'], ['p', 'v_x'], ['p', 'sfr', 'nothing', 'v_y', 'mass'], ['p'],
           ['v', 'v'], ['v', 'spin'], ['v', 'cm'], ['v', 'v', 'spin'], ['v', 'pos'], ['v', 'sfr', 'v'], ['rebuild']]

    def explore(self, tier, x):
        deep = tier == 'thorough'
        for kind in KINDS:
            for flip in ((1, 6) if not deep else (0, 1, 2, 3, 4, 5, 6, 7)):
                if flip in (1,) or kind in ('box', 'sphere', 'backwards') or deep:
                    x.bfs(lambda h: {'kind': kind, 'flip': flip, 'h': h}, self.OPS, 2 if not deep or flip not in (1, 6) else 3, tag='{}{}'.format(kind, flip))

        x.all({'kind': kind, 'flip': flip, 'h': [op, last], 'edge': edge} for kind in KINDS if kind not in ('empty', 'nosphere')
              for flip in (range(8) if deep else (3,)) for op, last in ((['p', 'sfr'], ['v', 'v']), (['v', 'cm'], ['p', 'id'])) for edge in (2, 5, 6))

    def maker(self, sim, mode, cut):
        if mode not in lm.SHAPES:
            return self.SphereMaker(sim, 'lc', redshift_min=0, redshift_max=.0095, minimum_mass=cut, mode=mode, overwrite=True)
        else:
            return self.LCMaker(sim, 'lc', 5., .7, redshift_min=.001, redshift_max=.1, minimum_mass=cut, mode=mode, overwrite=True)

    def lightest(self, path, snap):
        attrs, basic, full, idx, zidx, units = self.read(path)
        m = full['mass'][idx['snap'] == snap] if 'mass' in full else basic['mass'][idx['snap'] == snap]
        return m.min() if len(m) else np.inf

    def script(self, flip, again):
        k = flip + again
        return lm.Script([[.5, .25, .125], [.31, .87, .52]], [lm.FLIPS[k % 8], lm.FLIPS[(k + 5) % 8]], [[.4, .6, .5], [.62, .5, .7]], [.15, .8])

    def run(self, case, ctx):
        sim, mode = KINDS[case['kind']]
        cut = CUT
        if 'edge' in case:       # the cut is the mass of the lightest halo a cone has of a snapshot
            mk = self.maker(sim, mode, CUT)
            mk.build_lightcones(2, rng=self.script(case['flip'], 0))
            m = [self.lightest(os.path.join(mk.lc_path, 'lc_{:04d}.hdf5'.format(i)), case['edge']) for i in range(2)]
            shutil.rmtree(mk.lc_path)
            if min(m) == np.inf:
                ctx.state((case['kind'], 'none'))
                return
            cut = float(min(m))
        mk = self.maker(sim, mode, cut)
        try:
            again = 0
            sum0 = hashlib.sha1(open(self.files[sim], 'rb').read()).hexdigest()
            mk.build_lightcones(2, rng=self.script(case['flip'], again))
            files = [os.path.join(mk.lc_path, 'lc_{:04d}.hdf5'.format(i)) for i in range(2)]
            start = [self.read(f) for f in files]
            added, order = set(), 0
            for op in case['h']:
                ctx.step()
                if op[0] == 'rebuild':
                    again += 1
                    mk.build_lightcones(2, rng=self.script(case['flip'], again))
                    start = [self.read(f) for f in files]
                    added = set()
                elif op[0] == 'p':
                    mk.add_properties(*op[1:])
                    added |= {k for k in op[1:] if k in ('sfr', 'id', 'masscheck')}
                else:
                    mk.add_pos_properties(*op[1:])
                    added |= {k + '_' + c for k in op[1:] if k in ('v', 'spin', 'cm') for c in 'xyz'}
                if added:
                    ctx.interesting()
                for i, f in enumerate(files):
                    self.verify(ctx, case, sim, f, i, start[i], added)
            ctx.expect(hashlib.sha1(open(self.files[sim], 'rb').read()).hexdigest() == sum0, 'source', lambda: '{}: the simulation was changed'.format(case))
            ctx.end = ctx.state((case['kind'], case['flip'], again, sorted(added)))
        finally:
            shutil.rmtree(mk.lc_path, ignore_errors=True)

    def read(self, path):
        with self.h5py.File(path, 'r') as f:
            basic, full, idx, zidx = lm.table(f)
            units = {k: (f['Lightcone Full'][k].attrs['units'], f['Lightcone Full'][k].attrs['h dependence']) for k in full}
            return dict(f.attrs), basic, full, idx, zidx, units

    def verify(self, ctx, case, sim, path, number, start, added):
        attrs, basic, full, idx, zidx, units = self.read(path)
        data, rows, box, h, cosmo = self.sims[sim]
        what = lambda k: '{} light cone {} (flips {}): {}'.format(case, number, attrs['box flips'], k)
        same = lambda a, b: sorted(a) == sorted(b) and all(np.array_equal(a[k], b[k]) for k in b)
        ctx.expect(same(basic, start[1]) and np.array_equal(idx, start[3]) and np.array_equal(zidx, start[4]), 'disturbed', lambda: what('basic properties or indices changed'))
        ctx.expect(set(full) == set(start[2]) | added, 'fields', lambda: what('has {} expected {}'.format(sorted(full), sorted(set(start[2]) | added))))
        ctx.expect(same({k: full[k] for k in start[2]}, start[2]), 'disturbed', lambda: what('earlier properties changed'))
        n = len(idx)
        pick = lambda k: np.array([data[s][k][i] for s, i in zip(idx['snap'], idx['index'])])
        R = lm.frame(attrs)
        flips = np.array(attrs['box flips'], float)
        vec = {}
        for name in ('v', 'spin', 'cm'):
            if name + '_x' in added and n:
                v = np.stack([pick(name + '_' + c).astype(float) for c in 'xyz'])
                if name == 'cm':
                    v -= np.stack([pick('pos_' + c).astype(float) for c in 'xyz'])
                    v = (v + box / 2) % box - box / 2
                v = v * flips[:, None]
                if name == 'spin':
                    v = v * flips.prod()          # angular momentum does not change sign with an odd number of reflections the way a velocity does
                if R is not None:
                    v = (R @ v)[[1, 2, 0]]
                if name == 'cm':
                    v = v + np.stack([full['pos_' + c] for c in 'xyz'])
                vec[name] = v
        for k in sorted(added):
            ctx.step()
            u = ('Msun/h', -1) if k == 'masscheck' else UNITS[k]
            ctx.expect(tuple(units[k]) == u, 'units', lambda: what('{} has units {} expected {}'.format(k, units[k], u)))
            ctx.expect(full[k].shape == (n,), 'length', lambda: what('{} has shape {} for {} halos'.format(k, full[k].shape, n)))
            if not n:
                continue
            if k in ('sfr', 'id', 'masscheck'):
                want = pick('mass' if k == 'masscheck' else k)
                ctx.expect(np.array_equal(full[k], want), 'values', lambda: what('{} = {} expected {}'.format(k, full[k][:4], want[:4])))
            else:
                name, c = k.split('_')
                want = vec[name]['xyz'.index(c)]
                ctx.expect(np.allclose(full[k], want, atol=1e-4 if name == 'cm' else 1e-5 * np.abs(vec[name]).max()), 'vector', lambda: what('{} = {} expected {}'.format(k, full[k][:4], want[:4])))
        if added and n:
            k = sorted(added)[0]
            got = self.LCHandler(sim, 'lc', number, in_h_units=True).return_property(k)
            ctx.expect(np.array_equal(got, full[k]), 'handler', lambda: what('LCHandler returns {} for {}'.format(got[:4], k)))


CHECK = C()
