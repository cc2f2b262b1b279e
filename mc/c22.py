"""C22  Instrument bookkeeping: maps are never used after the detectors changed, failed changes change nothing."""
import numpy as np
from . import core, instmodel as im
from .core import Check

LO, PIX, N = (-1.5, -1.), (1., 1.), (3, 2, 2)
FREQ = (90., 91.)
POS = np.array([[-1.2, -.5], [0., .5], [1.2, .2], [.2, -.2], [9., 0.]])
SP = {'g1': ('gauss', {'fwhmx': 2., 'fwhmy': 1.}), 'g2': ('gauss', {'fwhmx': 1., 'fwhmy': 2.}), 'c': ('custom', {'a': .5}), 'd': ('gauss', {})}
SC = {'g': ('gauss', {'freq0': 90., 'fwhm': 1.}), 'b': ('boxcar', {'freq0': 91., 'width': 1.}), 'c': ('custom', {'p': .1})}
NO = {'n': ('none', {}), 'w': ('white', {'rms': 2.})}
OFF = {'0': (0, 0), 'x': (1., 0.), 'l': [0., -1.], 'a': np.array([1., 0.])}
KERNEL = 3


class C(Check):
    id = 'C22'
    technique = 'breadth-first search over operation sequences on a real Instrument in lockstep with a reference model of detectors, fields, maps and samples'
    rule = 'one trace = one history of operations on a fresh Instrument; every reached state is compared completely (detectors, defaults, fields, samples); non-trivial if a map existed at some point'
    assumptions = ('changing only a noise function may or may not require re-mapping: both are accepted as long as samples are right',)
    needs_root = False
    chunk = 8

    OPS = (['addD', None, None, None, None, '0'], ['addD', 'a', 'g2', 'b', 'w', 'x'], ['addD', 'b', 'c', 'c', None, 'a'], ['addD', None, 'g1', None, 'n', 'l'],
           ['badD', 'spatial'], ['badD', 'noise'], ['badD', 'offset'], ['badD', 'reserved'],
           ['delD', ['0']], ['delD', ['a']], ['delD', ['b', 'a']], ['delD', ['a', 'zz']],
           ['set', 'spatial', [], 'g2'], ['set', 'spatial', ['a'], 'c'], ['set', 'spatial', ['instrument'], 'g2'], ['set', 'spatial', ['instrument', 'a'], 'g1'], ['set', 'spatial', ['instrument'], 'd'],
           ['set', 'spectral', ['a'], 'g'], ['set', 'spectral', [], 'c'], ['set', 'spectral', ['instrument'], 'b'], ['set', 'noise', ['a'], 'n'], ['set', 'noise', ['instrument'], 'w'],
           ['badset', 'spatial', ['a', 'zz']], ['badset', 'spectral', ['a']], ['badset', 'noise', ['instrument', 'a']],
           ['addF', None, 0, 1], ['addF', 'f', 1, 1], ['addF', 'h', 1, 0], ['badF', 'name'], ['badF', 'idx'], ['badF', 'unit'],
           ['delF', ['0']], ['delF', ['f']], ['delF', ['f', 'zz']],
           ['map', []], ['map', ['f']], ['mapbeam', []], ['badmap', ['f', 'zz']])

    START = {'empty': [], 'one': [['addD', 'a', 'g2', 'b', 'w', 'x'], ['addF', 'f', 1, 1], ['map', []]],
             'two': [['addD', None, None, None, None, '0'], ['addD', 'a', 'g2', 'b', 'w', 'x'], ['addF', None, 0, 1], ['addF', 'f', 1, 1], ['map', []]]}

    def setup(self):
        from simim.instrument import Instrument
        from simim.instrument.spatial_response import gauss_psf, gauss_psf_freq_dependent
        from simim.instrument.spectral_response import gauss_response, boxcar_response
        from simim.instrument.noise_functions import zero_noise, white_noise
        from simim.map import Grid
        self.I, self.G = Instrument, Grid
        self.fn = {'spatial': {'gauss': gauss_psf, 'spec-gauss': gauss_psf_freq_dependent, 'custom': im.vec_spatial},
                   'spectral': {'gauss': gauss_response, 'boxcar': boxcar_response, 'custom': im.vec_spectral},
                   'noise': {'none': zero_noise, 'white': white_noise}}

    def explore(self, tier, x):
        deep = tier == 'thorough'
        ops = [list(o) for o in self.OPS]
        x.bfs(lambda h: {'start': 'empty', 'ops': h}, ops, 5 if deep else 4, 'empty')
        x.bfs(lambda h: {'start': 'one', 'ops': h}, ops, 5 if deep else 3, 'one')
        x.bfs(lambda h: {'start': 'two', 'ops': h}, ops, 5 if deep else 3, 'two')

    # ---- model -------------------------------------------------------------
    def grid(self, which, units=('Jy', 'Jy')):
        g = self.G(2, (0., 0., 90.5), (3., 2., 2.), (1., 1., 1.), axunits=['rad', 'rad', 'Hz'], gridunits=list(units))
        g.init_grid()
        g.grid[...] = ((np.arange(g.grid.size) * 7 + which) % 11 - 3.).reshape(g.grid.shape)
        return g

    def fresh_model(self):
        return {'det': [], 'counter': 0, 'fields': [], 'fcounter': 0,
                'def': {'spatial': ('gauss', {'fwhmx': 2., 'fwhmy': 1.}), 'spectral': ('gauss', {'freq0': 90., 'fwhm': 1.}), 'noise': ('none', {})}}

    def stale(self, m, weak=False):
        for f in m['fields']:
            if f['map'] is not None:
                f['map'] = ('maybe', f['map'][1]) if weak and f['map'][0] != 'no' else ('no', None)

    def run(self, case, ctx):
        i = self.I(spatial_unit='rad', spectral_unit='Hz', flux_unit='Jy',
                   default_spatial_response='gauss', default_spatial_kwargs={'fwhmx': 2., 'fwhmy': 1.},
                   default_spectral_response='gauss', default_spectral_kwargs={'freq0': 90., 'fwhm': 1.},
                   default_noise_function='none', default_noise_kwargs={})
        m = self.fresh_model()
        enabled = None
        mapped = False
        ops = self.START[case['start']] + case['ops']
        for n, op in enumerate(ops):
            if not self.apply(i, m, op, ctx):
                enabled = []
            ctx.step()
            mapped = mapped or any(f['map'] for f in m['fields'])
            if n >= len(self.START[case['start']]) - 1:
                self.observe(i, m, 'after {}'.format(ops[:n + 1]), ctx)
        if not ops:
            self.observe(i, m, 'fresh instrument', ctx)
        if mapped:
            ctx.interesting()
        key = repr([(d['name'], d['spatial'], d['spectral'], d['noise'], tuple(d['off'])) for d in m['det']] + [m['counter'], m['fcounter'], m['def']] +
                   [(f['name'], f['which'], f['idx'], f['map'] and f['map'][0]) for f in m['fields']])
        ctx.end = ctx.state(key)
        if enabled is not None:
            ctx.enabled = enabled

    def det(self, m, name):
        return next((d for d in m['det'] if d['name'] == name), None)

    def fails(self, f, what):
        try:
            f()
        except Exception:
            return
        raise core.Violation('accepted', '{} did not raise'.format(what))

    def apply(self, i, m, op, ctx):
        """Apply to both; False if the operation changes nothing in the model."""
        names = [d['name'] for d in m['det']]
        k = op[0]
        if k == 'addD':
            _, name, sp, sc, no, off = op
            kw, new = {}, {'name': name if name is not None else str(m['counter']), 'off': tuple(float(v) for v in OFF[off])}
            bad = new['name'] in names
            for kind, c, tab, pre in (('spatial', sp, SP, 'spatial_response'), ('spectral', sc, SC, 'spectral_response'), ('noise', no, NO, 'noise_function')):
                if c is None:
                    new[kind] = m['def'][kind]
                    bad = bad or new[kind][1] is None
                else:
                    r, rk = tab[c]
                    kw[pre] = im.arg(kind, r)
                    if rk:
                        kw[kind + '_kwargs'] = dict(rk)
                    new[kind] = (r, rk)
            if off != '0':
                kw['pointing_offsets'] = OFF[off]
            call = lambda: i.add_detector(name=name, nominal_frequency=90., **kw)
            if bad:
                self.fails(call, op)
                return False
            call()
            for v in kw.values():           # what the caller does to its dictionaries later is its own business
                if isinstance(v, dict):
                    v.clear()
            m['det'].append(new)
            m['counter'] += 1
            self.stale(m)
            return True
        if k == 'badD':
            kw = {'spatial': dict(spatial_response=3), 'noise': dict(noise_function='white', noise_kwargs=[1]), 'offset': dict(pointing_offsets=(1, 2, 3)),
                  'reserved': dict(spatial_response='gauss')}[op[1]]
            name = 'instrument' if op[1] == 'reserved' else 'new'
            self.fails(lambda: i.add_detector(name=name, nominal_frequency=90., **kw), op)
            return False
        if k == 'delD':
            if all(n in names for n in op[1]):
                i.del_detectors(*op[1])
                m['det'] = [d for d in m['det'] if d['name'] not in op[1]]
                self.stale(m)
                return True
            self.fails(lambda: i.del_detectors(*op[1]), op)
            return False
        if k in ('set', 'badset'):
            kind, who = op[1], op[2]
            f = {'spatial': i.set_spatial_respones, 'spectral': i.set_spectral_respones, 'noise': i.set_noise_functions}[kind]
            pre = {'spatial': 'spatial_response', 'spectral': 'spectral_response', 'noise': 'noise_function'}[kind]
            if k == 'badset':
                r, rk = {'spatial': ('gauss', {}), 'spectral': (5, {}), 'noise': ('white', 'kw')}[kind]
                self.fails(lambda: f(*who, **{pre: r, kind + '_kwargs': rk}), op)
                return False
            r, rk = {'spatial': SP, 'spectral': SC, 'noise': NO}[kind][op[3]]
            kw = {pre: im.arg(kind, r)}
            d = dict(rk)
            if rk:
                kw[kind + '_kwargs'] = d
            if not all(n in names or n == 'instrument' for n in who):
                self.fails(lambda: f(*who, **kw), op)
                return False
            f(*who, **kw)
            d['x'] = 1
            for t in m['det']:
                if t['name'] in who or not who:
                    t[kind] = (r, rk)
            if 'instrument' in who:
                m['def'][kind] = (r, rk if rk else None)
            if [n for n in (who or names) if n != 'instrument']:
                self.stale(m, weak=kind == 'noise')
            return True
        if k == 'addF':
            _, name, idx, inpl = op
            which = 1 + idx + 2 * inpl
            g = self.grid(which)
            nm = name if name is not None else str(m['fcounter'])
            call = lambda: i.add_field(g, name=name, field_property_idx=idx, in_place=bool(inpl))
            if any(f['name'] == nm for f in m['fields']):
                self.fails(call, op)
                return False
            call()
            a = g.grid[..., idx].copy()
            if not inpl:
                g.grid[...] = 99.
            m['fields'].append({'name': nm, 'which': which, 'idx': idx, 'grid': g, 'a': a, 'map': None, 'inpl': inpl})
            m['fcounter'] += 1
            return True
        if k == 'badF':
            if op[1] == 'name':
                if not m['fields']:
                    return False
                call = lambda: i.add_field(self.grid(0), name=m['fields'][0]['name'])
            elif op[1] == 'idx':
                call = lambda: i.add_field(self.grid(0), name='new', field_property_idx=2)
            else:
                call = lambda: i.add_field(self.grid(0, ('Jy', 'mJy')), name='new', field_property_idx=1)
            self.fails(call, op)
            return False
        if k == 'delF':
            have = [f['name'] for f in m['fields']]
            if all(n in have for n in op[1]):
                i.del_fields(*op[1])
                m['fields'] = [f for f in m['fields'] if f['name'] not in op[1]]
                return True
            self.fails(lambda: i.del_fields(*op[1]), op)
            return False
        if k in ('map', 'mapbeam', 'badmap'):
            have = [f['name'] for f in m['fields']]
            beam = None
            kw = {'kernel_size': KERNEL}
            if k == 'mapbeam':
                b = self.G(1, (0., 0., 90.5), (3., 1., 2.), (1., 1., 1.), axunits=['rad', 'rad', 'Hz'], gridunits='Jy')
                b.init_grid()
                b.grid[...] = np.array([[[1., 2.]], [[3., 5.]], [[0., 1.]]])[..., None]
                kw = {'beam': b}
                beam = b.grid[..., 0].copy()
            if not all(n in have for n in op[1]) or (not m['det'] and m['fields']):
                self.fails(lambda: i.map_fields(*op[1], **kw), op)
                return False
            i.map_fields(*op[1], **kw)
            for f in m['fields']:
                if f['name'] in op[1] or not op[1]:
                    f['map'] = ('yes', [im.make_map(f['a'], *d['spatial'], *d['spectral'], PIX, FREQ, (3, 3), 'peak', beam) for d in m['det']])
            return True
        raise KeyError(k)

    # ---- observation -------------------------------------------------------
    def observe(self, i, m, where, ctx):
        names = [d['name'] for d in m['det']]
        ctx.expect(list(i.detector_names) == names and set(i.detectors) == set(names), 'detectors', lambda: '{}: detectors {} {} expected {}'.format(where, i.detector_names, list(i.detectors), names))
        fn = [f['name'] for f in m['fields']]
        ctx.expect(list(i.field_names) == fn and set(i.fields) == set(fn), 'fields', lambda: '{}: fields {} expected {}'.format(where, i.field_names, fn))
        for d in m['det']:
            r = i.detectors[d['name']]
            for kind, attr in (('spatial', 'spatial_response'), ('spectral', 'spectral_response'), ('noise', 'noise_function')):
                ctx.expect(getattr(r, attr) is self.fn[kind][d[kind][0]], 'response', lambda: '{}: detector {} has {} {}'.format(where, d['name'], kind, getattr(r, attr)))
                got = getattr(r, kind + '_kwargs')
                ctx.expect(got == (d[kind][1] or {}), 'kwargs', lambda: '{}: detector {} has {} kwargs {} expected {}'.format(where, d['name'], kind, got, d[kind][1]))
        for kind, attr in (('spatial', 'default_spatial_response'), ('spectral', 'default_spectral_response'), ('noise', 'default_noise_function')):
            ctx.expect(getattr(i, attr) is self.fn[kind][m['def'][kind][0]], 'default', lambda: '{}: default {} is {}'.format(where, kind, getattr(i, attr)))
            got = getattr(i, 'default_' + kind + '_kwargs')
            ctx.expect(got == m['def'][kind][1], 'default-kwargs', lambda: '{}: default {} kwargs {} expected {}'.format(where, kind, got, m['def'][kind][1]))
        every = {}
        for f in m['fields']:
            got = self.samples(i, f['name'])
            st = f['map'][0] if f['map'] else 'no'
            if st == 'no' or (st == 'maybe' and got is None):
                ctx.expect(got is None, 'stale', lambda: '{}: field {} was sampled although it has not been mapped since the instrument changed: {}'.format(where, f['name'], got))
                every = None
                continue
            ctx.expect(got is not None, 'refused', lambda: '{}: field {} is mapped but sampling it is refused'.format(where, f['name']))
            want = np.stack([im.sample(a, LO, PIX, POS + np.array(d['off'])) for a, d in zip(f['map'][1], m['det'])], axis=1)
            self.same(got, want, where, f['name'], ctx)
            if every is not None:
                every[f['name']] = want
            ctx.expect(np.array_equal(f['grid'].grid, self.grid(f['which']).grid) if f['inpl'] else True, 'field-changed', lambda: where + ': the field was changed')
        if len(m['fields']) > 1:
            got = self.samples(i)
            ctx.expect((got is None) == (every is None), 'all-fields', lambda: '{}: sampling all fields gave {}'.format(where, got))
            if got is not None:
                ctx.expect(isinstance(got, dict) and set(got) == set(every), 'all-fields', lambda: '{}: sampling all fields gave {}'.format(where, got))
                for k, w in every.items():
                    self.same(got[k], w, where, k, ctx)

    def same(self, got, want, where, f, ctx):
        ctx.expect(isinstance(got, np.ndarray) and got.shape == want.shape and np.allclose(got, want, rtol=1e-8, atol=1e-9, equal_nan=True), 'samples',
                   lambda: '{}: samples of {}\n{}\nexpected\n{}'.format(where, f, got, want))

    def samples(self, i, *f):
        try:
            return i.sample_fields(POS.copy(), *f, sample_noise=False)
        except ValueError:
            return None


CHECK = C()
