"""C23  Instrument maps, samples, responses, noise and unit checks have their documented values."""
import itertools, math, warnings
import numpy as np
from . import core, instmodel as im
from .core import Check

SPATIAL = [('gauss', {}), ('gauss', {'fwhmx': 2., 'fwhmy': 1.}), ('gauss', {'fwhmx': 1., 'fwhmy': 3., 'cx': .5, 'cy': -.25}),
           ('spec-gauss', {'freq0': 100., 'fwhmx': 2., 'fwhmy': 1., 'freq_exp': 2}), ('spec-gauss', {'freq0': 90., 'fwhmx': 1.5, 'fwhmy': 2., 'freq_exp': 0, 'cx': -.5}),
           ('custom', {'a': .5}), ('custom', {'b': .1})]
SPECTRAL = [('gauss', {'freq0': 101., 'fwhm': 2.}), ('gauss', {'A': 3., 'freq0': 100., 'fwhm': 1.}), ('boxcar', {'freq0': 100., 'width': 1.}), ('boxcar', {'A': 2., 'freq0': 101., 'width': 2.5}),
            ('custom', {}), ('custom', {'p': -.002})]
SHAPES = [(1, 1, 1), (3, 2, 1), (2, 4, 2), (4, 3, 3), (5, 1, 2)]
PIXELS = [(1., 1., 1.), (.5, 2., .25)]
CENTER = (1., -2., 100.5)
OFFSETS = [(0, 0), (1., 0.), (0., -2.), (.4, .4)]
UNITS = ['rad', 'deg', None, 'bad']
SUNITS = ['Hz', 'GHz', None, 'bad']
FUNITS = ['Jy', 'mJy', None, 'bad']


class C(Check):
    id = 'C23'
    technique = 'exhaustive enumeration of instrument configurations (responses x normalisation x kernel x padding x field shape and property x detector order x offsets x noise x units), real maps and samples vs. direct sums over cells and frequencies'
    rule = 'one case = one instrument or response configuration; non-trivial if a map with more than one cell was compared'
    assumptions = ('kernels with an odd number of pixels; the weights of a detector do not sum to zero',)
    needs_root = False
    chunk = 20

    def setup(self):
        import simim.instrument as si
        from simim.instrument import spatial_response as sp, spectral_response as sc, noise_functions as nf
        from simim.map import Grid
        self.I, self.D, self.G = si.Instrument, si.Detector, Grid
        self.sp, self.sc, self.nf = sp, sc, nf

    def cases(self, tier):
        deep = tier == 'thorough'
        one = list(itertools.product(range(len(SPATIAL)), range(len(SPECTRAL))))
        for (a, b), norm, k in itertools.product(one, ('peak', 'area', 'none'), (1, 3, 5)):
            yield {'map': dict(shape=3, pix=a % 2, props=1, idx=0, inpl=1, det=[[a, b]], norm=norm, kernel=k, pad=None)}
        for s, pix, k, pad, norm in itertools.product(range(len(SHAPES)), (0, 1), (1, 3, 7, 'res', [3, 1], [1, 5]), (None, 0, 1, 3), ('peak', 'area')):
            for a, b in one:
                yield {'map': dict(shape=s, pix=pix, props=1, idx=0, inpl=1, det=[[a, b]], norm=norm, kernel=k, pad=pad)}
        for props, inpl in itertools.product((1, 2, 3), (0, 1)):
            for idx, (a, b), pad in itertools.product(range(props), ((2, 0), (3, 2), (6, 5)), (None, 1)):
                yield {'map': dict(shape=3, pix=1, props=props, idx=idx, inpl=inpl, det=[[a, b], [1, 2]], norm='peak', kernel=3, pad=pad)}
        for n in (2, 3) + ((4,) if deep else ()):
            for det in itertools.product([[1, 0], [1, 3], [2, 0], [5, 4]], repeat=n):
                yield {'map': dict(shape=3, pix=0, props=1, idx=0, inpl=1, det=list(det), norm='peak', kernel=3, pad=None)}
        for bs, s, nd in itertools.product([(1, 1), (3, 1), (3, 5), (2, 2)], range(len(SHAPES)), (1, 2, 3)):
            yield {'map': dict(shape=s, pix=0, props=1, idx=0, inpl=1, det=[[i, i] for i in range(nd)], norm='peak', kernel=None, pad=None, beam=bs)}
        for bad in ('both', 'neither', 'norm', 'shape'):
            yield {'badmap': bad}
        # samples
        for offs in itertools.product(range(len(OFFSETS)), repeat=3) if deep else itertools.product(range(len(OFFSETS)), repeat=2):
            for kind in ('tuple', 'list', 'array'):
                yield {'sample': dict(offs=list(offs), kind=kind, noise=None, signal=1, dt=None, fields=['f'])}
        for noise, signal, dt, fields in itertools.product((None, 'rec', 'white', 'none', 'mix'), (0, 1), (.25, 1, 4.), (['f'], ['g', 'f'], [])):
            if noise or signal:
                for npos in (0, 1, 7):
                    yield {'sample': dict(offs=[0, 1, 0], kind='tuple', noise=noise, signal=signal, dt=dt, fields=fields, npos=npos)}
        for bad in ('dt', 'nothing', 'shape1', 'shape3', 'field', 'repeat', 'unmapped'):
            yield {'badsample': bad}
        # response functions
        for i in range(len(SPATIAL)):
            for ax in range(5):
                yield {'spatial': [i, ax]}
        for i in range(len(SPECTRAL)):
            for ax in range(5):
                yield {'spectral': [i, ax]}
        for n, dt, rms, bias in itertools.product((0, 1, 2, 5), (.25, 1, 4., 100), (0, 1, 2.5), (0, -3.)):
            yield {'noise': [n, dt, rms, bias]}
        # units
        for axis, tab in ((0, UNITS), (1, UNITS), (2, SUNITS), (3, FUNITS)):
            for u, v in itertools.product(tab, tab):
                for idx in (0, 1):
                    yield {'units': [axis, u, v, idx]}
        for b0, b1, pix in itertools.product((None, .5, 1., 20.), (None, .5, 1., 20.), itertools.product((1., 2.), repeat=3)):
            yield {'res': [b0, b1, list(pix)]}
        for i, (a, b) in enumerate(one):
            yield {'detector': [a, b, i % len(OFFSETS)]}
        for sp, f0, nom in itertools.product(range(4), (3e-4, 1., 250., 1e11), (None, 7.)):
            yield {'freq': [sp, f0, nom]}

    def run(self, case, ctx):
        k = next(iter(case))
        getattr(self, 'run_' + k)(case[k], ctx)
        ctx.step()
        ctx.state(case)

    # ---- maps --------------------------------------------------------------
    def field(self, shape, pix, props=1, seed=0, units='Jy'):
        n, p = SHAPES[shape], PIXELS[pix]
        g = self.G(props, CENTER, [a * b for a, b in zip(n, p)], p, axunits=['rad', 'rad', 'Hz'], gridunits=units if isinstance(units, list) else [units] * props)
        g.init_grid()
        g.grid[...] = ((np.arange(g.grid.size) * 7 + seed) % 13 - 4.).reshape(g.grid.shape)
        lo = [c - a * b / 2 for c, a, b in zip(CENTER, n, p)]
        freqs = [lo[2] + (i + .5) * p[2] for i in range(n[2])]
        return g, lo, p, freqs

    def instrument(self, **kw):
        return self.I(spatial_unit='rad', spectral_unit='Hz', flux_unit='Jy', **kw)

    def add(self, i, a, b, **kw):
        sp, sc = SPATIAL[a], SPECTRAL[b]
        kw.setdefault('noise_function', 'none')
        i.add_detector(nominal_frequency=100., spatial_response=im.arg('spatial', sp[0]), spatial_kwargs=dict(sp[1]),
                       spectral_response=im.arg('spectral', sc[0]), spectral_kwargs=dict(sc[1]), **kw)

    def run_map(self, c, ctx):
        g, lo, p, freqs = self.field(c['shape'], c['pix'], c['props'])
        a = g.grid[..., c['idx']].copy()
        whole = g.grid.copy()
        best = 2.5
        i = self.instrument(best_spatial_res=best if c['kernel'] == 'res' else None)
        for s, t in c['det']:
            self.add(i, s, t)
        want = []
        kw = {} if c['pad'] is None else {'pad': c['pad']}
        k = c['kernel']
        beam = None
        if c.get('beam'):
            b = self.G(1, (0., 0., CENTER[2]), [c['beam'][0] * p[0], c['beam'][1] * p[1], SHAPES[c['shape']][2] * p[2]], p, axunits=['rad', 'rad', 'Hz'])
            b.init_grid()
            b.grid[...] = ((np.arange(b.grid.size) * 3) % 5 + 1.).reshape(b.grid.shape)
            beam = b.grid[..., 0].copy()
            kw['beam'] = b
            size = None
        else:
            size = [int(round(best / p[d])) * 10 + 1 for d in (0, 1)] if k == 'res' else [k, k] if isinstance(k, int) else k
            if k != 'res':
                kw['kernel_size'] = k
            kw['spatial_response_norm'] = c['norm']
        for s, t in c['det']:
            w = im.spectrum(*SPECTRAL[t], freqs)
            if abs(w.sum()) < 1e-12:
                ctx.state('no weight')
                return
            want.append(im.make_map(a, *SPATIAL[s], *SPECTRAL[t], p, freqs, size, c['norm'], beam))
        i.add_field(g, 'f', field_property_idx=c['idx'], in_place=bool(c['inpl']))
        i.map_fields('f', **kw)
        want = np.stack(want, axis=-1)
        if beam is not None:
            ctx.expect(np.array_equal(b.grid[..., 0], beam), 'beam-changed', lambda: '{}: the beam was changed'.format(c))
        ctx.expect(np.array_equal(g.grid, whole) and g.grid.shape == whole.shape, 'field-changed', lambda: '{}: mapping changed the field'.format(c))
        m = i.maps['f']
        ctx.expect(m.grid.shape == want.shape, 'map', lambda: '{}: shape of map {} expected {}'.format(c, m.grid.shape, want.shape))
        scale = np.abs(whole).max() * (1 if c['norm'] != 'none' else 3) * (1 if beam is None else beam.sum())
        ctx.expect(np.allclose(m.grid, want, rtol=1e-8, atol=1e-9 * scale), 'map', lambda: '{}: map\n{}\nexpected\n{}'.format(c, m.grid, want))
        ctx.expect(m.n_dimensions == 2 and np.allclose(m.pixel_size, p[:2]) and np.allclose(m.center_point, CENTER[:2]) and m.n_properties == len(c['det']), 'map-axes', lambda: '{}: {} {} {}'.format(c, m.pixel_size, m.center_point, m.n_properties))
        # sampling the centre of every cell gives the map back
        pos = np.array([[lo[0] + (x + .5) * p[0], lo[1] + (y + .5) * p[1]] for x in range(want.shape[0]) for y in range(want.shape[1])])
        s = i.sample_fields(pos, 'f', sample_noise=False)
        ctx.expect(np.allclose(s, want.reshape(-1, want.shape[2]), rtol=1e-8, atol=1e-9 * scale), 'sample', lambda: '{}: samples at the centres of the cells\n{}\nexpected\n{}'.format(c, s, want))
        if want.size > 1:
            ctx.interesting()

    def refused(self, ctx, f, what):
        try:
            f()
        except Exception:
            return
        raise core.Violation('accepted', '{} did not raise'.format(what))

    def run_badmap(self, bad, ctx):
        g, lo, p, freqs = self.field(3, 0)
        i = self.instrument()
        self.add(i, 1, 0)
        i.add_field(g, 'f')
        b = self.G(1, (0., 0., CENTER[2]), [1., 1., 3.], (1., 1., 1.))
        b.init_grid()
        kw = {'both': dict(beam=b, kernel_size=3), 'neither': {}, 'norm': dict(kernel_size=3, spatial_response_norm='max'), 'shape': dict(kernel_size=3)}[bad]
        if bad == 'shape':
            i.set_spatial_respones(spatial_response=lambda x, y, f: np.ones((len(x), len(y))))
        self.refused(ctx, lambda: i.map_fields('f', **kw), bad)
        self.refused(ctx, lambda: i.sample_fields(np.zeros((1, 2)), 'f', sample_noise=False), bad)

    # ---- samples -----------------------------------------------------------
    def run_sample(self, c, ctx):
        i = self.instrument()
        gs = {}
        for n, (name, s) in enumerate((('f', 3), ('g', 2))):
            gs[name] = self.field(s, n, seed=n)
            i.add_field(gs[name][0], name)
        conv = {'tuple': tuple, 'list': list, 'array': np.array}[c['kind']]
        noises, stubs = [], []
        dets = [(1, 0), (2, 1), (1, 4)]
        for n, o in enumerate(c['offs']):
            kind = c['noise'] if c['noise'] != 'mix' else ('rec', 'white', 'none')[n]
            rec, rng = im.Noise(), im.StubRng()
            kw = {'rec': dict(noise_function=rec, noise_kwargs={'amp': n + 2.}), 'white': dict(noise_function='white', noise_kwargs={'rms': n + 1., 'bias': .5, 'rng': rng})}.get(kind, {})
            noises.append((kind, rec, rng))
            self.add(i, *dets[n], pointing_offsets=conv(OFFSETS[o]), **kw)
        i.map_fields(kernel_size=3)
        pos = []
        for g, lo, p, fr in gs.values():
            pos += [[lo[0], lo[1]], [lo[0] + 1e-6, lo[1] + 2 * p[1] - 1e-6], [lo[0] + 1.5 * p[0], lo[1] + p[1]], [lo[0] - .1, lo[1]], [lo[0] + 1.5 * p[0], lo[1] + .5 * p[1]]]
        pos = np.array(pos + pos[:2])[:c.get('npos', 99)].reshape(-1, 2)
        keep = pos.copy()
        names = c['fields'] or ['f', 'g']
        got = i.sample_fields(pos, *c['fields'], sample_signal=bool(c['signal']), sample_noise=c['noise'] is not None, dt=c['dt'])
        ctx.expect(np.array_equal(pos, keep), 'positions-changed', 'sampling changed the positions')
        if len(names) == 1:
            ctx.expect(isinstance(got, np.ndarray), 'type', lambda: '{}: one field gives {}'.format(c, type(got)))
            got = {names[0]: got}
        ctx.expect(isinstance(got, dict) and set(got) == set(names), 'type', lambda: '{}: {}'.format(c, got))
        left = {}
        for f in names:
            g, lo, p, fr = gs[f]
            ctx.expect(got[f].shape == (len(pos), len(c['offs'])), 'shape', lambda: '{}: {}'.format(c, got[f].shape))
            left[f] = np.array(got[f], dtype=float)
            for n, o in enumerate(c['offs']):
                if c['signal']:
                    m = im.make_map(g.grid[..., 0], *SPATIAL[dets[n][0]], *SPECTRAL[dets[n][1]], p, fr, (3, 3))
                    sig = im.sample(m, lo, p, pos + np.array(OFFSETS[o], dtype=float))
                    ctx.expect((np.isnan(sig) == np.isnan(got[f][:, n])).all(), 'outside', lambda: '{}: detector {} of {}: {} expected {}'.format(c, n, f, got[f][:, n], sig))
                    left[f][:, n] -= sig
                    if np.isfinite(sig).any():
                        ctx.interesting()
        # what is left is the noise: a fresh draw for every field and detector
        for n, (kind, rec, rng) in enumerate(noises):
            vals = [left[f][:, n] for f in names]
            ok = [~np.isnan(v) for v in vals]
            if kind == 'rec':
                ctx.expect(rec.calls == [(len(pos), c['dt'], n + 2.)] * len(names), 'noise', lambda: '{}: the noise function was called with {}'.format(c, rec.calls))
                w = [(n + 2.) * c['dt'] * np.arange(1, len(pos) + 1)] * len(names)
            elif kind == 'white':
                z = im.StubRng().z(len(pos) * len(names))
                w = [.5 + (n + 1.) / math.sqrt(c['dt']) * z[k * len(pos):(k + 1) * len(pos)] for k in range(len(names))]
            else:
                w = [np.zeros(len(pos))] * len(names)
            for v, x, o in zip(vals, w, ok):
                ctx.expect(np.allclose(v[o], x[o], rtol=1e-8, atol=1e-8), 'noise' if c['noise'] else 'sample', lambda: '{}: detector {}: beyond the signal there is {} expected {}'.format(c, n, v, x))

    def run_badsample(self, bad, ctx):
        i = self.instrument()
        for n, name in enumerate('fg'):
            i.add_field(self.field(2, 0)[0], name)
        self.add(i, 1, 0)
        i.map_fields('f', kernel_size=3)
        pos, fields, kw = np.zeros((2, 2)), ['f'], {'dt': 1.}
        if bad == 'dt':
            kw = {}
        if bad == 'nothing':
            kw = dict(dt=1., sample_noise=False, sample_signal=False)
        if bad == 'shape1':
            pos = np.zeros(2)
        if bad == 'shape3':
            pos = np.zeros((2, 3))
        if bad == 'field':
            fields = ['f', 'h']
        if bad == 'repeat':
            fields = ['f', 'f']
        if bad == 'unmapped':
            fields = ['f', 'g']
        self.refused(ctx, lambda: i.sample_fields(pos, *fields, **kw), bad)
        ctx.expect(i.sample_fields(np.zeros((2, 2)), 'f', dt=1.).shape == (2, 1), 'after', 'sampling does not work after a refused request')

    # ---- response functions ------------------------------------------------
    AXES = [([-1., 0., .5], [0., 2.], [90., 101.]), (np.array([0, 1, 2, 3]), np.array([1]), np.array([80, 100])), ([-.5], [.25], [100.]),
            (np.linspace(-3, 3, 7), np.linspace(-1, 1, 4), np.array([100.])), (np.array([2.]), [1, 0, -1], [95, 100, 105])]

    def run_spatial(self, c, ctx):
        name, kw = SPATIAL[c[0]]
        if name == 'custom':
            return
        x, y, f = self.AXES[c[1]]
        fn = {'gauss': self.sp.gauss_psf, 'spec-gauss': self.sp.gauss_psf_freq_dependent}[name]
        got = fn(np.array(x), np.array(y), np.array(f), **kw)
        want = np.array([[[im.SPATIAL[name](float(a), float(b), float(v), **kw) for v in f] for b in y] for a in x])
        ctx.expect(got.shape == want.shape and np.allclose(got, want, rtol=1e-10, atol=1e-300), 'spatial', lambda: '{} {} at {}:\n{}\nexpected\n{}'.format(name, kw, (x, y, f), got, want))
        s = fn(np.array(x), np.array(y), f[0], **kw)
        ctx.expect(np.allclose(s, want[:, :, :1], rtol=1e-10), 'spatial-scalar', lambda: '{} {} at one frequency: {}'.format(name, kw, s))
        ctx.interesting()

    def run_spectral(self, c, ctx):
        name, kw = SPECTRAL[c[0]]
        if name == 'custom':
            return
        f = [[99.5, 100., 100.5, 100.6], [98, 99, 100, 101, 102], [100.], np.linspace(97, 103, 25), [99.75, 102.25, 102.3]][c[1]]
        fn = {'gauss': self.sc.gauss_response, 'boxcar': self.sc.boxcar_response}[name]
        got = fn(np.array(f), **kw)
        want = np.array([im.SPECTRAL[name](float(v), **kw) for v in f])
        ctx.expect(got.shape == want.shape and np.allclose(got, want, rtol=1e-10, atol=1e-300), 'spectral', lambda: '{} {} at {}: {} expected {}'.format(name, kw, f, got, want))
        ctx.interesting()

    def run_noise(self, c, ctx):
        n, dt, rms, bias = c
        z = self.nf.zero_noise(n, dt)
        ctx.expect(z.shape == (n,) and not z.any(), 'noise', lambda: 'zero_noise({}, {}) = {}'.format(n, dt, z))
        got = self.nf.white_noise(n, dt, rms=rms, bias=bias, rng=im.StubRng())
        want = bias + rms / math.sqrt(dt) * im.StubRng().z(n)
        ctx.expect(np.shape(got) == (n,) and np.allclose(got, want), 'noise', lambda: 'white_noise({}, {}, {}, {}) = {} expected {}'.format(n, dt, rms, bias, got, want))
        got = self.nf.white_noise(n, dt, rms=rms, bias=bias)
        ctx.expect(np.shape(got) == (n,) and np.isfinite(got).all(), 'noise', 'white noise without a generator')
        ctx.interesting()

    # ---- units and resolution ----------------------------------------------
    def run_units(self, c, ctx):
        axis, u, v, idx = c
        iu, gu = ['rad', 'Hz', 'Jy'], ['rad', 'rad', 'Hz', 'Jy']
        make = lambda: self.I(spatial_unit=iu[0], spectral_unit=iu[1], flux_unit=iu[2])
        iu[(0, 0, 1, 2)[axis]] = u
        gu[axis] = v
        if axis < 2:        # the other spatial axis follows the instrument
            gu[1 - axis] = u
        if u == 'bad':
            self.refused(ctx, make, c)
            return
        i = make()
        units = ['Jy' if iu[2] == 'Jy' else iu[2], 'mJy']
        units[idx] = gu[3]
        g = self.G(2, (0., 0., 100.), (2., 2., 2.), (1., 1., 1.), axunits=gu[:3], gridunits=units)
        g.init_grid()
        ok = v is None or u is None or u == v
        add = lambda: i.add_field(g, 'f', field_property_idx=idx)
        if u is None and v == 'bad':
            return              # an unknown unit against an unspecified one: either is fine
        if not ok:
            self.refused(ctx, add, 'a field in {} for an instrument in {} (axis {})'.format(v, u, axis))
            ctx.expect(not i.fields and not i.field_names, 'units', 'a refused field was added')
        else:
            add()
            ctx.expect(i.fields['f'] is g and list(i.field_names) == ['f'], 'units', 'the field was not added')
        ctx.interesting()

    def run_res(self, c, ctx):
        b0, b1, pix = c
        i = self.instrument(best_spatial_res=b0, best_spectral_res=b1)
        g = self.G(1, (0., 0., 100.), (4., 4., 4.), tuple(pix), axunits=['rad', 'rad', 'Hz'], gridunits='Jy')
        g.init_grid()
        bad = (b0 is not None and max(pix[:2]) > b0) or (b1 is not None and pix[2] > b1)
        add = lambda: i.add_field(g)
        if bad:
            self.refused(ctx, add, 'resolution {}'.format(c))
            ctx.expect(not i.fields and not i.field_names, 'res', 'a refused field was added')
        else:
            add()
        ctx.interesting()

    # ---- Detector and reference frequency ----------------------------------
    def run_detector(self, c, ctx):
        a, b, o = c
        sp, sc = SPATIAL[a], SPECTRAL[b]
        d = self.D(spatial_unit='rad', spectral_unit='Hz', flux_unit='Jy', spatial_response=im.arg('spatial', sp[0]), spatial_kwargs=dict(sp[1]),
                   spectral_response=im.arg('spectral', sc[0]), spectral_kwargs=dict(sc[1]), noise_function=im.Noise(), noise_kwargs={'amp': 2.},
                   pointing_offsets=OFFSETS[o], nominal_frequency=5., spatial_res=20., spectral_res=30.)
        g, lo, p, freqs = self.field(3, 0)
        ctx.expect(len(d.detectors) == 1 and d.best_spatial_res == 20. and d.best_spectral_res == 30. and list(d.detectors.values())[0].reffreq == 5., 'detector', 'attributes of the detector')
        if abs(im.spectrum(*sc, freqs).sum()) < 1e-12:
            return
        d.add_field(g, 'f')
        d.map_fields(kernel_size=3)
        pos = np.array([[lo[0] + .5, lo[1] + .5], [lo[0] + 2.1, lo[1] + 2.1], [lo[0] + 1.2, lo[1] + .3]])
        got = d.sample_fields(pos, dt=.5)
        m = im.make_map(g.grid[..., 0], *sp, *sc, p, freqs, (3, 3))
        want = im.sample(m, lo, p, pos + np.array(OFFSETS[o], dtype=float)) + np.array([1., 2., 3.])
        ctx.expect(got.shape == (3, 1) and np.allclose(got[:, 0], want, equal_nan=True), 'detector', lambda: '{}: {} expected {}'.format(c, got, want))
        ctx.interesting()

    def run_freq(self, c, ctx):
        k, f0, nom = c
        name, kw = [('gauss', {'freq0': f0, 'fwhm': f0 / 20}), ('gauss', {'freq0': f0, 'fwhm': f0}), ('boxcar', {'freq0': f0, 'width': f0 / 20}), ('boxcar', {'freq0': f0, 'width': f0})][k]
        i = self.I()
        i.add_detector('d', nominal_frequency=nom, spatial_response='gauss', spectral_response=name, spectral_kwargs=kw, noise_function='none')
        got = i.detectors['d'].reffreq
        if nom is not None:
            ctx.expect(got == nom, 'reffreq', lambda: '{}: {}'.format(c, got))
            return
        w = list(kw.values())[1]
        ctx.expect(abs(got - f0) <= w / 2 * 1.01, 'reffreq', lambda: '{} {}: reference frequency {}'.format(name, kw, got))
        ctx.interesting()


CHECK = C()
