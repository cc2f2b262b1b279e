"""C29  Nothing is shared with the caller: arguments are left alone, and later changes to arguments or results do not reach simim's objects."""
import itertools, os, shutil
import numpy as np
from . import core, fake, lcmodel as lm
from .core import Check

H = .5
GRID_ATTRS = ('n_properties', 'n_dimensions', 'center_point', 'side_length', 'pixel_size', 'n_pixels', 'axunits', 'gridunits', 'axes', 'axes_centers',
              'fourier_axes', 'fourier_axes_centers', 'fourier_space', 'is_power_spectrum', 'grid_active')


def freeze(v, grid):
    """A deep copy of everything visible in a value, as nested tuples."""
    if isinstance(v, grid):
        return tuple(freeze(getattr(v, k, None), grid) for k in GRID_ATTRS) + ((freeze(v.grid, grid),) if v.grid_active else ())
    if isinstance(v, dict):
        return tuple((k, freeze(x, grid)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return tuple(freeze(x, grid) for x in v)
    if isinstance(v, np.void) and v.dtype.names:
        return ('rec', repr(v))
    if isinstance(v, np.ndarray):
        if v.dtype.names:
            return ('rec', repr(v.tolist()))
        return (v.shape, v.dtype.str, tuple(repr(x) for x in v.ravel().tolist()))
    if isinstance(v, set):
        return tuple(sorted(map(repr, v)))
    return repr(v) if isinstance(v, (int, float, complex, str, bool, np.generic, type(None))) else 'object'


def scribble(v, grid):
    """Change a value in place in every way its owner could."""
    if isinstance(v, grid):
        if v.grid_active:
            scribble(v.grid, grid)
        for k in ('axes', 'axes_centers', 'fourier_axes', 'fourier_axes_centers', 'center_point', 'side_length', 'pixel_size', 'n_pixels', 'axunits', 'gridunits', 'fourier_space'):
            scribble(getattr(v, k), grid)
    elif isinstance(v, dict):
        for x in v.values():
            scribble(x, grid)
        v.clear()
        v['zz'] = 1
    elif isinstance(v, list):
        for x in v:
            scribble(x, grid)
        v.clear()
        v.append('zz')
    elif isinstance(v, tuple):
        for x in v:
            scribble(x, grid)
    elif isinstance(v, np.void) and v.dtype.names:
        for k in v.dtype.names:
            v[k] = 77
    elif isinstance(v, np.ndarray) and v.flags.writeable and v.size and not v.dtype.names:
        if v.dtype.kind in 'OUS':
            v[...] = 'zz'
        elif v.dtype.kind == 'b':
            v[...] = ~v
        else:
            v[...] = 77


class C(Check):
    id = 'C29'
    technique = 'exhaustive enumeration of call histories x the point at which the caller overwrites, in place, an argument or a result; the final state vs. that of the same history without overwriting'
    rule = 'one case = one history with one overwriting point; non-trivial if the overwritten value is mutable and not empty'
    assumptions = ('attributes of simim objects accessed directly are part of the object; the contents of user-supplied functions are the user\'s',)
    chunk = 8

    def setup(self):
        import h5py
        from simim.map import gridder
        from simim.siminterface.simhandler import SnapHandler, SimHandler
        from simim.lightcone import LCMaker, LCHandler, LCIterator
        from simim.galprops import Prop, MultiProp
        from simim.galprops import galprops_am
        from simim.instrument import Instrument
        from scipy.stats import uniform
        self.g, self.Grid, self.Snap, self.Sim, self.LC, self.LCI = gridder, gridder.Grid, SnapHandler, SimHandler, LCHandler, LCIterator
        self.Prop, self.MultiProp, self.am, self.uniform, self.h5py, self.Instrument = Prop, MultiProp, galprops_am, uniform, h5py, Instrument
        self.cosmo = fake.cosmology(H, .3, .05)
        lm.memoize_cosmology()
        base = os.path.join(core.ROOT, 'sims')
        os.mkdir(base)
        p = os.path.join(base, 'TNG300-1')
        halos = {i: lm.lattice(6, 60., (.1 * i, .3, .6), [5e11, 2e12, 1e12, 3e11, 1e13]) for i in (2, 5, 6)}
        fake.write_sim(h5py, p, [(2, .09), (5, .04), (6, 0.)], halos, box=60., h=H, name='TNG300-1')
        fake.register('TNG300-1', p)
        mk = LCMaker('TNG300-1', 'lc', 5., 1., redshift_min=.01, redshift_max=.1, overwrite=True)
        mk.build_lightcones(2, rng=lm.Script([[.5, .25, .125]], lm.FLIPS[1:], [[.4, .6, .5]], [.15]))
        p = os.path.join(base, 'TNG100-1')
        vals = {k: [1. + i, 2., 3., 4.] for i, k in enumerate(('pos_x', 'pos_y', 'pos_z'))}
        vals.update({'a': [3., 1., 2., 5.], 'b': [1., 1., 2., 4.], 'mass': [8., 4., 2., 1.]})
        self.simpath = p
        fake.write_sim(h5py, p, [(0, .5), (1, 0.)], {0: vals, 1: {k: [2 * x for x in v] for k, v in vals.items()}}, h=H, units={'a': ('u', 0.), 'b': ('u', 2.)}, name='TNG100-1')
        fake.register('TNG100-1', p)
        self.simfile = open(os.path.join(p, 'data.hdf5'), 'rb').read()
        self.scenes = {k[6:]: getattr(self, k)() for k in dir(self) if k.startswith('scene_')}

    # ---- scenes: {'make': [(name, f(world) -> args)], 'ops': {name: f(world) -> (args, result)}, 'see': f(world)}
    def scene_grid(self):
        G, A = self.Grid, np.array

        def start(w):
            a = dict(center_point=A([1., 2.]), side_length=A([3., 4.]), pixel_size=A([1., 2.]), axunits=['m', 's'], gridunits=['Jy', 'K'])
            w['g'] = g = G(2, **a)
            g.init_grid()
            g.grid[...] = np.arange(12.).reshape(3, 2, 2) ** 2
            return list(a.values())

        def gridder(w):
            p, v, c, s, x = A([[.1, .2], [1.2, 1.], [2.4, .7]]), A([[1., 2.], [3., 4.], [5., 6.]]), A([1.5, 1.]), A([3., 2.]), A([1., 1.])
            w['g'] = self.g.Gridder(p, v, center_point=c, side_length=s, pixel_size=x, axunits=['m', 's'], gridunits=['Jy', 'K'])
            return [p, v, c, s, x]

        def axes(w):
            a, b, u = A([0., 1., 2., 3.]), A([0., 2., 4.]), ['m', 's']
            w['g'] = g = self.g.GridFromAxes(a, b, n_properties=2, axunits=u)
            g.init_grid()
            g.grid[...] = np.arange(12.).reshape(3, 2, 2) ** 2
            return [a, b, u]

        def function(w):
            table = np.arange(6.).reshape(3, 2)
            a, b, kw = A([0., 1., 2., 3.]), A([0., 2., 4.]), {'t': table}
            w['g'] = self.g.GridFromAxesAndFunction(lambda x, y, t: t, a, b, function_kwargs=kw)
            w['g'].add_new_prop(A([[1., 2.], [3., 4.], [5., 6.]]))
            return [a, b, kw, table]

        def psf(w):
            f, x, s = A([1., 2.]), A([1., 1.]), A([3., 2.])
            w['g'] = self.g.PSF(f, x, s, axunits=['m', 's'])
            w['g'].add_new_prop(A([[1., 2.], [3., 4.], [5., 6.]]) if w['g'].grid.shape[:2] == (3, 2) else np.zeros(w['g'].grid.shape[:2]))
            return [f, x, s]

        def spectral(w):
            ax, f, x, s = A([90., 100.]), A([1.]), A([1.]), A([3.])
            w['g'] = self.g.SpectralPSF(ax, 100., f, x, s, axunits=['m', 'Hz'])
            w['g'].add_new_prop(np.ones(w['g'].grid.shape[:2]))
            return [ax, f, x, s]

        def op(f):
            def go(w):
                return f(w, w['g'])
            return go
        like = lambda g: np.arange(1., 1 + np.prod(g.n_pixels)).reshape(g.n_pixels)

        def prop(w, g):
            v = like(g)
            return [v], g.add_new_prop(v)

        def props(w, g):
            v = like(g)[..., None] * A([1., 2.])
            return [v], g.add_new_prop(v)

        def cat(w, g):
            p, v, k = g_pos(g, 2), A([7., 8.])[:, None], [0]
            return [p, v, k], g.add_from_cat(p, v, properties=k)

        def catnew(w, g):
            p, v = g_pos(g, 2), A([[7., 1.], [8., 2.]])
            return [p, v], g.add_from_cat(p, v, new_props=True)

        def g_pos(g, n):
            return A([[g.axes_centers[d][(i + d) % len(g.axes_centers[d])] for d in range(2)] for i in range(n)])

        def plus(w, g):
            p, v, k = A([[g.axes_centers[0][0]], [g.axes_centers[0][-1]]]), np.ones((2, g.n_pixels[1])), [1]
            return [p, v, k], g.add_from_pos_plus_array(p, v, properties=k)

        def spec(w, g):
            p, v = A([[g.axes_centers[0][0]], [g.axes_centers[0][-1]]]), A([[1.], [2.]])
            table = {}

            def f(ax, par):
                # a user function that works in place on what it is given
                ax = np.array(ax, dtype=float)
                return par[:, :1] * ax.reshape(1, -1)
            return [p, v], g.add_from_spec_func(p, f, v, new_prop=True)

        def spec_inplace(w, g):
            p, v = A([[g.axes_centers[0][0]], [g.axes_centers[0][-1]]]), A([[1.], [2.]])

            def f(ax, par):
                out = par[:, :1] * np.asarray(ax).reshape(1, -1)
                np.asarray(ax)[...] = 0
                par[...] = 0
                return out
            return [p, v], g.add_from_spec_func(p, f, v, new_prop=True)

        def ssum(w, g):
            k = [0, 1]
            return [k], g.sum_properties(k) and None

        def ssum1(w, g):
            k = [1]
            return [k], g.sum_properties(k, in_place=False)

        def sample(w, g):
            p, k = g_pos(g, 3), [1]
            return [p, k], g.sample(p, k)

        def conv(w, g, inp):
            s = G(1, (0., 0.), g.pixel_size * 3, g.pixel_size)
            s.init_grid()
            s.grid[1, 1] = 2.
            s.grid[0, 1] = 1.
            r = g.convolve(s, ax=[0, 1], in_place=inp)
            return [s], None if inp else r

        def pad(w, g):
            a, n = A([0, 1]), A([1, 1])
            return [a, n], g.pad(a, n)

        def unpad(w, g):
            return [], g.pad(0, -1)

        def crop(w, g):
            return [], g.crop(0, min=g.axes[0][1])

        def scale(w, g):
            a, f, u = [0, 1], A([2., .5]), ['p', 'q']
            return [a, f, u], g.scale_axis(a, f, axunits=u)

        def coll(w, g, inp):
            k = A([1., 2., 3., 4., 5., 6., 7.])[:g.n_pixels[1]].copy()
            r = g.collapse_dimension([1], in_place=inp, weights=k)
            return [k], None if inp else r

        def collall(w, g):
            k = like(g)[..., None] * np.ones(g.n_properties)
            return [k], g.collapse_dimension(1, in_place=False, weights=k[..., 0])

        def ps(w, g, cross):
            o = None
            if cross:
                o = g.copy()
                o.grid[...] = o.grid[::-1]
            ax = [0, 1]
            return [ax] + ([o] if o is not None else []), g.power_spectrum(o, ax=ax)

        def sph(w, g):
            c, s, k, a = A([0., 0.]), A([0., 1., 3., 9.]), like(g), [0, 1]
            return [c, s, k, a], g.spherical_average(a, center=c, shells=s, weights=k, return_std=True, return_n=True)

        def sph1(w, g):
            k = like(g)[..., None] * np.ones(g.n_properties)
            a = [0]
            return [k, a], g.spherical_average(a, weights=k)

        def copy(w, g):
            k = [1]
            return [k], g.copy(properties=k)

        def down(w, g):
            return [], g.down_sample(0, 2) and None

        def direct(w, g):
            if g.grid.flags.writeable:
                g.grid *= 2
            return [], None
        ops = {'prop': op(prop), 'props': op(props), 'cat': op(cat), 'catnew': op(catnew), 'plus': op(plus), 'spec': op(spec), 'spec_inplace': op(spec_inplace), 'sum': op(ssum), 'sum1': op(ssum1), 'sample': op(sample),
               'conv': op(lambda w, g: conv(w, g, True)), 'convout': op(lambda w, g: conv(w, g, False)), 'pad': op(pad), 'unpad': op(unpad), 'crop': op(crop), 'scale': op(scale),
               'coll': op(lambda w, g: coll(w, g, True)), 'collout': op(lambda w, g: coll(w, g, False)), 'collall': op(collall), 'ft': op(lambda w, g: ([], g.fourier_transform([0, 1]))),
               'ft0': op(lambda w, g: ([], g.fourier_transform(0))), 'ps': op(lambda w, g: ps(w, g, False)), 'cross': op(lambda w, g: ps(w, g, True)), 'psin': op(lambda w, g: ([], g.power_spectrum(in_place=True) and None)),
               'sph': op(sph), 'sph1': op(sph1), 'copy': op(copy), 'copyall': op(lambda w, g: ([], g.copy())), 'axes': op(lambda w, g: ([], g.copy_axes(2))), 'down': op(down), 'direct': op(direct)}
        return {'make': {'new': start, 'gridder': gridder, 'axes': axes, 'function': function, 'psf': psf, 'spectral': spectral}, 'ops': ops, 'see': lambda w: w['g']}

    def handler_ops(self, snap):
        P, M, A = self.Prop, self.MultiProp, np.array
        buf = A([1., 2., 3., 4.])

        def both(f):
            return lambda w: f(w, w['h'])

        def make(w, h, fn, kws, hdep=0, **k):
            names = list(kws)
            p = P('new', fn, names, units='u', h_dependence=hdep)
            h.make_property(p, overwrite=True, **k)
            return [names] + list(k.values()), None

        def make2(w, h):
            n, k, u, d = ['new', 'new2'], ['a', 'b'], ['u', 'v'], [0, 2]
            p = M(n, lambda a, b: [a + b, a * b], k, units=u, h_dependence=d)
            w['p'] = p
            h.make_property(p, overwrite=True)
            return [n, k, u, d], None

        def again(w, h):
            p = w.get('p')
            if p is not None:
                h.make_property(p, overwrite=True, rename=['new', 'new2'] if p.n_props == 2 else 'new')
            return [], None

        def keep(w, h):
            k = ['a']
            w['p'] = P('new', lambda a: a * 3, k)
            return [k], None

        def keep2(w, h):
            n, k, u, d = ['new', 'new2'], ['a', 'b'], ['u', 'v'], [0, 2]
            w['p'] = M(n, lambda a, b: [a + b, a * b], k, units=u, h_dependence=d)
            return [n, k, u, d], None

        def buffer(w, h):
            b = np.ones(h.nhalos_all) if snap else A([1.])
            p = P('new', lambda a: b, ['a'])
            h.make_property(p, overwrite=True)
            return [b], None

        def buffers(w, h):
            b = [np.ones(h.nhalos_all), np.ones(h.nhalos_all) * 2]
            p = M(['new', 'new2'], lambda a: b, ['a'], h_dependence=[0, 1])
            h.make_property(p, overwrite=True)
            return [b], None

        def inplace(a, b):
            a *= 2
            b[...] = 0
            return a

        def stat(w, h, fn, kws, **k):
            names = list(kws)
            r = h.eval_stat(fn, names, **k)
            return [names] + list(k.values()), r

        def rename(w, h):
            m, o = {'x': 'a'}, {'c': A([1.])}
            n = ['x']
            p = P('new', lambda x, c=1.: x * c, n)
            h.make_property(p, kw_remap=m, other_kws=o, overwrite=True)
            return [m, o, n], None

        def write(w, h):
            if 'new' in h.extract_keys('loaded') or h.has_property('new'):
                h.write_property('new', overwrite=True)
            return [], None
        ops = {'make': both(lambda w, h: make(w, h, lambda a: a * 2, ['a'])), 'same': both(lambda w, h: make(w, h, lambda a: a, ['a'])), 'inplace': both(lambda w, h: make(w, h, inplace, ['a', 'b'])),
               'view': both(lambda w, h: make(w, h, lambda a: a[::-1], ['a'])), 'make2': both(make2), 'keep': both(keep), 'keep2': both(keep2), 'again': both(again),
               'buffer': both(buffer), 'buffers': both(buffers), 'rename': both(rename),
               'load': both(lambda w, h: ([], h.load_property('a', 'b'))), 'unload': both(lambda w, h: ([], h.unload_property('b'))), 'select': both(lambda w, h: ([], h.set_property_range('a', 1.5, 4.))),
               'ret': both(lambda w, h: ([], h.return_property('a'))), 'retb': both(lambda w, h: ([], h.return_property('b', use_all_inds=True, in_h_units=True))), 'retnew': both(lambda w, h: ([], h.return_property('new') if h.has_property('new') else None)),
               'keys': both(lambda w, h: ([], h.extract_keys())), 'keysl': both(lambda w, h: ([], h.extract_keys('loaded'))), 'keysg': both(lambda w, h: ([], h.extract_keys('generated'))),
               'stat': both(lambda w, h: stat(w, h, lambda x, c: x, ['x'], kw_remap={'x': 'b'}, other_kws={'c': A([1., 2.])})), 'statin': both(lambda w, h: stat(w, h, inplace, ['a', 'b'])),
               'write': both(write), 'hunits': both(lambda w, h: ([], h.set_in_h_units(True)))}

        def see(w):
            h = w['h']
            out = [sorted(h.extract_keys()), sorted(h.extract_keys('loaded')), sorted(h.extract_keys('generated')), list(h.inds_active), h.nhalos_active]
            for k in out[0]:
                for hu in (True, False):
                    out.append((k, h.return_property(k, in_h_units=hu)))
            return out
        return ops, see

    def scene_snap(self):
        ops, see = self.handler_ops(True)

        def make(w):
            path = os.path.join(w['scratch'], 'snap')
            os.makedirs(path, exist_ok=True)
            with open(os.path.join(path, 'data.hdf5'), 'wb') as f:
                f.write(self.simfile)
            w['h'] = self.Snap(os.path.join(path, 'data.hdf5'), 0, .5, self.cosmo, 8.)
            return []
        return {'make': {'snap': make}, 'ops': ops, 'see': see}

    def scene_sim(self):
        P = self.Prop
        A = np.array

        def make(w):
            with open(os.path.join(self.simpath, 'data.hdf5'), 'wb') as f:
                f.write(self.simfile)
            w['h'] = self.Sim('TNG100-1', init_snaps=True)
            return []

        def prop(w, fn, hdep=0):
            k, m, o = ['x'], {'x': 'a'}, {'c': A([2.])}
            w['h'].make_property(P('new', fn, k, h_dependence=hdep), kw_remap=m, other_kws=o, overwrite=True)
            return [k, m, o], None

        def buffer(w):
            buf = np.zeros(4)

            def fn(x, c):
                # the same array is used for every snapshot
                buf[...] = x * c
                return buf
            w['h'].make_property(P('new', fn, ['x']), kw_remap={'x': 'a'}, other_kws={'c': 3.}, overwrite=True)
            return [buf], None

        def stat(w):
            k, m, o = ['x', 'b'], {'x': 'a'}, {'c': A([2.])}
            r = w['h'].snap_stat(lambda x, b, c: np.sum(x * b) * c, k, kw_remap=m, other_kws=o)
            return [k, m, o], r

        def statin(w):
            def fn(x):
                x *= 0
                return 1.
            k = ['x']
            r = w['h'].snap_stat(fn, k, kw_remap={'x': 'a'})
            return [k], r

        ops = {'make': lambda w: prop(w, lambda x, c: x * c), 'same': lambda w: prop(w, lambda x, c: x), 'h': lambda w: prop(w, lambda x, c: x * c, 2), 'buffer': buffer, 'stat': stat, 'statin': statin,
               'meta': lambda w: ([], w['h'].extract_snap_meta(0)), 'keys': lambda w: ([], w['h'].extract_snap_keys()), 'select': lambda w: ([], w['h'].set_property_range('a', 2.5, 9.)),
               'ret': lambda w: ([], w['h'].get_snap(0).return_property('a')), 'del': lambda w: ([], w['h'].delete_property('new') if 'new' in w['h'].get_snap(0).extract_keys() else None),
               'hunits': lambda w: ([], w['h'].set_in_h_units(True))}

        def see(w):
            out = [w['h'].extract_snap_meta(0), sorted(map(str, w['h'].extract_snap_keys()))]
            for s in (0, 1):
                h = w['h'].get_snap(s)
                out.append(sorted(h.extract_keys()))
                for k in out[-1]:
                    out.append((k, h.return_property(k)))
            return out
        return {'make': {'sim': make}, 'ops': ops, 'see': see}

    def scene_lc(self):
        P = self.Prop
        A = np.array

        def make(w):
            w['h'] = self.LC('TNG300-1', 'lc', 0)
            return []

        def evo(w, fn):
            b, k, m, o = A([.02, .01, .05]), ['x', 'redshift'], {'x': 'mass'}, {'c': A([1.])}
            r = w['h'].eval_stat_evo(b, fn, k, kw_remap=m, other_kws=o, zmin_kw=True, volume_kw=True)
            return [b, k, m, o], r

        def inplace(x, redshift, c, zmin, volume):
            s = x.sum()
            x *= 0
            redshift *= 0
            return A([s])

        def grid(w):
            n = {'mass': 2.}
            r = w['h'].grid('mass', res=A([1., 1., .01]) if False else None, norm=None)
            return [], r

        def newprop(w):
            k = ['mass']
            w['h'].make_property(P('new', lambda mass: mass, k), overwrite=True)
            return [k], None

        def it(w):
            n = [1, 0]
            i = self.LCI('TNG300-1', 'lc', numbers=n)
            r = i.eval_stat(lambda mass: float(np.sum(mass)), ['mass'])
            return [n], r

        def iteragain(w):
            n = [1, 0]
            w['i'] = self.LCI('TNG300-1', 'lc', numbers=n)
            return [n], None

        def iteruse(w):
            if 'i' not in w:
                return [], None
            return [], w['i'].eval_stat(lambda mass: len(mass), ['mass'])
        ops = {'evo': lambda w: evo(w, lambda x, redshift, c, zmin, volume: [x, redshift]), 'evoin': lambda w: evo(w, inplace), 'newprop': newprop, 'iter': it, 'iterkeep': iteragain, 'iteruse': iteruse,
               'grid': grid, 'select': lambda w: ([], w['h'].set_property_range('redshift', .02, .06)), 'ret': lambda w: ([], w['h'].return_property('redshift')), 'volume': lambda w: ([], w['h'].volume()),
               'hunits': lambda w: ([], w['h'].set_in_h_units(True))}

        def see(w):
            h = w['h']
            out = [sorted(h.extract_keys()), list(h.inds_active), h.volume()]
            for k in out[0]:
                out.append((k, h.return_property(k)))
            if 'i' in w:
                out.append(repr(w['i'].eval_stat(lambda mass: len(mass), ['mass'])))
            return out
        return {'make': {'lc': make}, 'ops': ops, 'see': see}

    def scene_am(self):
        A = np.array
        Q = A([.5, 1., 1.5, 2.5, 3., 3.5, 5.])

        def cat(w):
            c = A([3., 1., 4., 2., 2.5])
            w['f'] = self.am.am_dfcat(c, self.uniform(0, 10), prop2_max=10.)
            return [c]

        def cat2(w):
            c = A([3., 1., 4., 2., 2.5])
            w['f'] = self.am.am_dfcat(c, self.uniform(0, 10), prop2_max=10., missing_pmass_low_p1=.2, extrapolate_low_p1=-7)
            return [c]

        def df(w):
            w['f'] = self.am.am_dfdf(self.uniform(0, 5), self.uniform(0, 10), prop1_min=0., prop1_max=5., prop2_min=0., prop2_max=10.)
            return []

        def use(i):
            def go(w):
                q = Q.copy()
                r = w['f'][i](q)
                return [q], r
            return go

        def see(w):
            return [f(Q.copy()) for f in w['f'][:2]]
        return {'make': {'cat': cat, 'cat2': cat2, 'df': df}, 'ops': {'to2': use(0), 'to1': use(1)}, 'see': see}

    def scene_inst(self):
        A = np.array

        def field():
            g = self.Grid(2, (0., 0., 90.5), (3., 2., 2.), (1., 1., 1.), axunits=['rad', 'rad', 'Hz'], gridunits=['Jy', 'Jy'])
            g.init_grid()
            g.grid[...] = np.arange(24.).reshape(3, 2, 2, 2) % 7
            return g

        def make(w):
            s, c, n = {'fwhmx': 2., 'fwhmy': 1.}, {'freq0': 90., 'fwhm': 2.}, {'rms': 0.}
            w['i'] = self.Instrument(spatial_unit='rad', spectral_unit='Hz', flux_unit='Jy', default_spatial_response='gauss', default_spatial_kwargs=s, default_spectral_response='gauss',
                                     default_spectral_kwargs=c, default_noise_function='white', default_noise_kwargs=n, best_spatial_res=1.)
            w['i'].add_detector('a', nominal_frequency=90.)
            return [s, c, n]

        def det(w):
            s, c, n, o = {'fwhmx': 1., 'fwhmy': 2.}, {'freq0': 91., 'width': 1.}, {'rms': 0., 'bias': 1.}, A([1., 0.])
            w['i'].add_detector(None, nominal_frequency=90., spatial_response='gauss', spatial_kwargs=s, spectral_response='boxcar', spectral_kwargs=c, noise_function='white', noise_kwargs=n, pointing_offsets=o)
            return [s, c, n, o], None

        def defdet(w):
            w['i'].add_detector(None, nominal_frequency=90.)
            return [], None

        def setall(w):
            s = {'fwhmx': 3., 'fwhmy': 2.}
            w['i'].set_spatial_respones(spatial_response='gauss', spatial_kwargs=s)
            c = {'freq0': 90., 'width': 1.}
            w['i'].set_spectral_respones('a', 'instrument', spectral_response='boxcar', spectral_kwargs=c)
            n = {'rms': 0., 'bias': 2.}
            w['i'].set_noise_functions('instrument', noise_function='white', noise_kwargs=n)
            return [s, c, n], None

        def addf(w):
            g = field()
            w['i'].add_field(g, name=None, field_property_idx=1, in_place=False)
            return [g], None

        def mapbeam(w):
            i = w['i']
            b = self.Grid(1, (0., 0., 90.5), (3., 3., 2.), (1., 1., 1.), axunits=['rad', 'rad', 'Hz'])
            b.init_grid()
            b.grid[1, 1] = 1.
            i.map_fields(input_beam=b)
            return [b], None

        def map_(w):
            w['i'].map_fields()
            return [], None
        pos = A([[-1.2, -.5], [0., .5], [1.2, .2], [.2, -.2], [9., 0.]])

        def sample(w):
            if not w['i'].fields:
                return [], None
            w['i'].map_fields()
            p = pos.copy()
            return [p], w['i'].sample_fields(p, dt=1.)

        def inplace(w):
            # user functions that work in place on what they are given
            def sp(x, y, f):
                out = np.exp(-np.asarray(x)[:, None, None] ** 2 - np.asarray(y)[None, :, None] ** 2) * np.ones(len(f))
                for v in (x, y, f):
                    v[...] = 0
                return out

            def sc(f):
                out = np.ones(len(f)) * (1 + f)
                f[...] = 0
                return out
            w['i'].add_detector(None, nominal_frequency=90., spatial_response=sp, spectral_response=sc)
            return [], None
        ops = {'det': det, 'defdet': defdet, 'set': setall, 'addf': addf, 'mapbeam': mapbeam, 'map': map_, 'sample': sample, 'inplace': inplace}

        def see(w):
            i = w['i']
            out = [list(i.detector_names), {k: v for k, v in i.fields.items()}, {k: v for k, v in i.maps.items()}]
            for d in i.detector_names:
                t = i.detectors[d]
                out.append([t.spatial_kwargs, t.spectral_kwargs, t.noise_kwargs, np.asarray(t.pointing_offsets)])
            if i.fields:
                i.map_fields()
                s = i.sample_fields(pos.copy(), dt=1.)
                out.append(s)
            return out
        return {'make': {'inst': make}, 'ops': ops, 'see': see}

    # ---- exploration
    DEPTH = {'grid': (2, 3), 'snap': (2, 3), 'sim': (2, 3), 'lc': (2, 3), 'am': (2, 4), 'inst': (2, 3)}

    def explore(self, tier, x):
        deep = tier == 'thorough'
        stub = C()
        for k in ('g', 'Grid', 'Snap', 'Sim', 'LC', 'LCI', 'Prop', 'MultiProp', 'am', 'uniform', 'Instrument'):
            setattr(stub, k, None)
        for sc in self.DEPTH:
            s = getattr(stub, 'scene_' + sc)()
            for mk in s['make']:
                d = self.DEPTH[sc][deep]
                if mk not in ('new', 'snap', 'sim', 'lc', 'inst', 'cat'):
                    d = min(d, 2 if deep else 1)
                # what the caller keeps hold of is part of the state, so no two histories are alike
                for n in range(d + 1):
                    x.all({'scene': sc, 'make': mk, 'h': list(h)} for h in itertools.product(s['ops'], repeat=n))

    def play(self, case, ctx, at=None, what=None):
        """The final state of the history; with `at`, the caller overwrites the arguments or result of that call (0: the constructor)."""
        s = self.scenes[case['scene']]
        w = {'scratch': core.fresh_dir(ctx.scratch, 'w')}
        G = self.Grid
        args, results, seen = [], [], []
        refused = []

        def after(n, a, r):
            if n == at:
                if what == 'args':
                    scribble(a, G)
                else:
                    scribble(r, G)
            else:
                args.append((n, a, freeze(a, G)))
                if r is not None:
                    results.append((n, r, freeze(r, G)))
            seen.append(freeze(r, G) if n != at else None)
        r = s['make'][case['make']](w)
        after(0, r, None)
        mutable = [0]
        for n, o in enumerate(case['h'], 1):
            a = r = None
            try:
                a, r = s['ops'][o](w)
            except Exception as e:
                if type(e).__module__ != 'builtins' or isinstance(e, (NameError, AttributeError, ImportError)):
                    raise
                refused.append(n)
                a, r = [], None
            ctx.step()
            after(n, a, r)
            if at is None:
                for i, b, f in args:
                    ctx.expect(freeze(b, G) == f, 'argument', lambda: '{}: arguments of call {} were changed by call {}: {} to {}'.format(case, i, n, f, freeze(b, G)))
                for i, b, f in results:
                    ctx.expect(freeze(b, G) == f, 'result', lambda: '{}: the result of call {} was changed by call {}: {} to {}'.format(case, i, n, f, freeze(b, G)))
        end = freeze(s['see'](w), G)
        if at is None:
            for i, b, f in args:
                ctx.expect(freeze(b, G) == f, 'argument', lambda: '{}: arguments of call {} were changed'.format(case, i))
        has = [n for n, a, f in args if f not in ((), None)], [n for n, r, f in results]
        return end, seen, refused, has

    def run(self, case, ctx):
        end, seen, refused, has = self.play(case, ctx)
        n = len(case['h'])
        for what, at in [('args', k) for k in has[0]] + [('result', k) for k in has[1]]:
            e, s, r, _ = self.play(case, ctx, at, what)
            ctx.interesting()
            ctx.expect(r == refused, what, lambda: '{}: overwriting the {} of call {} changes which calls are refused: {} instead of {}'.format(case, what, at, r, refused))
            for k in range(n + 1):
                ctx.expect(s[k] is None or s[k] == seen[k], what, lambda: '{}: overwriting the {} of call {} changes the result of call {} from {} to {}'.format(case, what, at, k, seen[k], s[k]))
            ctx.expect(e == end, what, lambda: '{}: overwriting the {} of call {} changes the final state from {} to {}'.format(case, what, at, end, e))
        ctx.state((case['scene'], case['make'], end))


CHECK = C()
