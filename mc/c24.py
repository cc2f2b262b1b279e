"""C24  Galaxy models assign each halo its own documented value, driven only by the given random numbers."""
import itertools, math, os
import numpy as np
from . import core, fake, galmodel as gm
from .core import Check

MASS = [1e9, 1e10, 3e11, 1e13]
ZED = [0., .5, 3.999, 4., 4.5, 5., 7.]
SFR = [0., .5, 1., 30., 1000.]
NU = 230.538e9
LZ = ['[CII]', '[OI]', '[OIII]']
SETS = [None, 'DGS', 'dwarfs', 'starbursts', 'comp/AGN']
YL = ['CII', 'CI1-0', 'CI2-1', 'CO1-0', 'CO2-1', 'CO3-2', 'CO4-3', 'CO5-4']


class Rng:
    """Stands in for a numpy Generator: unit normals are distinct scripted numbers, uniforms run through a lattice in a fixed irregular order."""

    def __init__(self, lattice=20):
        self.given, self.k, self.lat, self.u = [], 0, lattice, 0

    def _shape(self, size, *like):
        if size is None:
            size = np.broadcast(*like).shape if like else ()
        return tuple(np.atleast_1d(size).astype(int)) if size != () else ()

    def _z(self, shape):
        n = int(np.prod(shape)) if shape else 1
        v = []
        for _ in range(n):
            v.append(round(((self.k * 7) % 23 - 11) / 5.3 + .0007 * self.k, 9))
            self.k += 1
        self.given += v
        return np.array(v).reshape(shape) if shape else v[0]

    def standard_normal(self, size=None, dtype=float, out=None):
        return self._z(self._shape(size))

    def normal(self, loc=0., scale=1., size=None):
        return loc + scale * self._z(self._shape(size, loc, scale))

    def lognormal(self, mean=0., sigma=1., size=None):
        return np.exp(mean + sigma * self._z(self._shape(size, mean, sigma)))

    def random(self, size=None, dtype=float, out=None):
        shape = self._shape(size)
        n = int(np.prod(shape)) if shape else 1
        step = next(s for s in (7, 3, 1) if math.gcd(s, self.lat) == 1)
        v = [(((self.u + i) * step + (self.u + i) // self.lat * 3) % self.lat + .5) / self.lat for i in range(n)]
        self.u += n
        return np.array(v).reshape(shape) if shape else v[0]

    def uniform(self, low=0., high=1., size=None):
        return low + (high - low) * self.random(self._shape(size, low, high))

    def binomial(self, n, p, size=None):
        if n != 1:
            raise NotImplementedError
        return (self.random(self._shape(size, p)) < p).astype(int)


def co_list(kw):
    return [int(j) for j in kw.get('lines', range(1, 14))]


def models(G):
    """name -> function, the kinds of its arguments, settings to try, and the reference."""
    M = {}

    def add(name, fn, args, kws, ref, scatter=None, sig=None, dexkw=None, mean=False, duty=None, dutyflag=None):
        M[name] = dict(fn=fn, args=args, kws=kws, ref=ref, scatter=scatter, sig=sig, dexkw=dexkw, mean=mean, duty=duty, dutyflag=dutyflag)
    co, hcn, fir, ya, be = G['line_co'], G['line_densegas'], G['line_fir'], G['line_fir_yang'], G['sfr_behroozi13']
    add('keating16', co.keating16, ('mass',), [{}, {'m_min': 3e11}, {'A': 2e-6, 'm_min': 0}],
        lambda kw, m: [0. if m < kw.get('m_min', 1e10) else kw.get('A', 6.3e-7) * m], 'scatter_lco', lambda kw, m: .3, 'sig_lco')
    add('li16', co.li16, ('sfr',), [{}, {'d_mf': 1.7}, {'a': 1.1, 'b': .5}, {'nu_rest': NU}],
        lambda kw, s: [gm.power(s / kw.get('d_mf', 1.), kw.get('a', 1.37), kw.get('b', -1.74), 4.9e-5 * (kw.get('nu_rest', 115.2712018e9) / 115.2712018e9) ** 3)],
        'scatter_lco', lambda kw, s: .3, 'sig_lco', mean=True)
    add('hcn_gao', hcn.hcn_gao, ('sfr',), [{}, {'d_mf': 1.7}, {'a': 1.1, 'b': .5}, {'nu_rest': 177.26e9}],
        lambda kw, s: [gm.power(s / kw.get('d_mf', 1.), kw.get('a', 1.), kw.get('b', 2.9), 2.2e-5 * (kw.get('nu_rest', 88.63e9) / 88.63e9) ** 3)],
        'scatter_lhcn', lambda kw, s: .3, 'sig_lhcn', mean=True)
    add('lidz11', co.lidz11, ('mass',), [{}, {'f_duty': .25}, {'f_duty': 1.}, {'f_duty': 0.}], lambda kw, m: [2.8e3 * m / 1e8],
        duty=lambda kw, m: kw.get('f_duty', .1), dutyflag='rand_f_duty')
    add('hcn_breysse', hcn.hcn_breysse, ('mass',), [{}, {'f_duty': .25}, {'f_duty': 1.}, {'f_duty': 0.}], lambda kw, m: [1.7e-15 * m ** 1.67],
        duty=lambda kw, m: kw.get('f_duty', .1), dutyflag='rand_f_duty')
    add('pullen13', co.pullen13, ('mass', 'z', 'cosmo'), [{}, {'sf_length': 2.}, {'sf_length': 20.}], lambda kw, m, z: [1e6 * m / 5e11],
        duty=lambda kw, m, z: min(1., kw.get('sf_length', .1) / gm.age(z)), dutyflag='rand_f_duty')
    add('kamenetzky16', co.kamenetzky16, ('sfr',), [{}, {'break_ulirgs': True}, {'lines': [1]}, {'lines': [3, 1]}, {'lines': [13, 5, 2], 'break_ulirgs': True},
                                                    {'d_mf': 1.7, 'lines': [4]}, {'fircor': .5, 'lines': [6, 7]}],
        lambda kw, s: [gm.kamenetzky(s, j, kw.get('d_mf', 1.), kw.get('fircor', .6), kw.get('break_ulirgs', False)) for j in co_list(kw)],
        'scatter_lco', lambda kw, s: .3, 'sig_lco')
    add('delooze14', fir.delooze14, ('sfr',), [{'line': l, 'set': s} for l in LZ for s in SETS] + [{}, {'set': 'high z'}],
        lambda kw, s: [gm.looze(s, kw.get('line', '[CII]'), kw.get('set'))], 'scatter', lambda kw, s: gm.LOOZE[kw.get('line', '[CII]'), kw.get('set')][2], 'fix_scatter')
    for n, t in (('uzgil14', gm.UZGIL), ('spinoglio12', gm.SPINO)):
        add(n, getattr(fir, n), ('sfr',), [{'line': l} for l in t] + [{}, {'d_mf': 1.7}],
            lambda kw, s, t=t: [gm.erg_line(s, kw.get('d_mf', 1.), t[kw.get('line', '[CII]')])], 'scatter', lambda kw, s: .4, 'sig_scatter')
    add('schaerer20', fir.schaerer20, ('sfr',), [{}] + [{'set': s} for s in gm.SCHAERER], lambda kw, s: [gm.schaerer(s, kw.get('set'))], 'scatter', lambda kw, s: .4, 'sig_scatter')
    add('zhao13', fir.zhao13, ('sfr',), [{}, {'d_mf': 1.7}], lambda kw, s: [gm.power(s / kw.get('d_mf', 1.), .95, 4.51, 1.)], 'scatter', lambda kw, s: .4, 'sig_scatter')
    add('padmanabhan19', fir.padmanabhan19, ('mass', 'z'), [{}, {'m1': 1e-5, 'b': .5, 'n1': 1e11, 'a': 1.5}], lambda kw, m, z: [gm.padmanabhan(m, z, **kw)],
        'scatter', None, 'sig_scatter', mean=True)
    add('yang22', ya.yang22, ('mass', 'z'), [{'line': l} for l in YL] + [{}], lambda kw, m, z: [gm.yang(m, z, kw.get('line', 'CII'))],
        'scatter', lambda kw, m, z: gm.yang_sig(kw.get('line', 'CII'), z), 'fix_scatter', duty=lambda kw, m, z: gm.yang_duty(m, z), dutyflag='fduty')
    for k, n in enumerate(('sfr', 'stellarmass')):
        add('behroozi_' + n, getattr(be, n), ('z', 'mass'), [{}], lambda kw, z, m, k=k: [G['behroozi'].value(k, z, m)], 'scatter', lambda kw, z, m: .3, 'sigma_scatter', mean=True)
    return M


ALPHA = {'mass': MASS, 'z': ZED, 'sfr': SFR}
FORMS = ['f8', 'f4', 'int', 'stride', 'scalar', 'npscalar', 'zscalar', 'zint']
BUILTIN = {'prop_li_co': ('li16', ['LCO']), 'prop_lidz_co': ('lidz11', ['LCO']), 'prop_pullen_co': ('pullen13', ['LCO']), 'prop_keating_co': ('keating16', ['LCO']),
           'prop_gao_hcn': ('hcn_gao', ['LHCN']), 'prop_breysse_hcn': ('hcn_breysse', ['LHCN']), 'prop_delooze_fir': ('delooze14', ['Lfir']), 'prop_uzgil_fir': ('uzgil14', ['Lfir']),
           'prop_spinoglio_fir': ('spinoglio12', ['Lfir']), 'prop_schaerer_cii': ('schaerer20', ['LCII']), 'prop_yang_cii': ('yang22', ['LCII']), 'prop_padmanabhan_cii': ('padmanabhan19', ['LCII']),
           'prop_zhao_nii': ('zhao13', ['LNII']), 'prop_behroozi_sfr': ('behroozi_sfr', ['sfr']), 'prop_behroozi_mass': ('behroozi_stellarmass', ['stellar mass']),
           'prop_co_sled': ('kamenetzky16', ['L10', 'L21', 'L32', 'L43', 'L54', 'L65', 'L76', 'L87', 'L98', 'L109', 'L1110', 'L1211', 'L1312']),
           'prop_delooze_cii': ('delooze14', ['Lfir']), 'prop_uzgil_cii': ('uzgil14', ['Lfir']), 'prop_spinoglio_cii': ('spinoglio12', ['Lfir'])}
UNIT = {'sfr': 'Msun/yr', 'stellar mass': 'Msun'}
BAD = [('delooze14', {'line': '[NII]'}), ('delooze14', {'set': 'x'}), ('delooze14', {'line': '[OI]', 'set': 'high z'}), ('uzgil14', {'line': '[X]'}), ('spinoglio12', {'line': '[X]'}),
       ('uzgil14', {'line': 'CII'}), ('spinoglio12', {'line': 'CII'}), ('schaerer20', {'set': 'x'}), ('yang22', {'line': 'CO6-5'}), ('yang22', {'line': 'CI'}), ('kamenetzky16', {'lines': [0]}),
       ('kamenetzky16', {'lines': [14]}), ('kamenetzky16', {'lines': [1, 2, 20]}), ('padmanabhan19', {'scatter': True})]


class C(Check):
    id = 'C24'
    technique = 'exhaustive enumeration of halo lists x model settings x input forms x scripted random numbers, every galaxy model vs. the published relation evaluated per halo'
    rule = 'one case = (model, settings, list length) with every list over the alphabet, or one built-in property on a snapshot; non-trivial if lists differ in order'
    assumptions = ('redshifts below 8 for the duty cycle of long lists (documented approximation: 1 % of the age)', 'the tables of the published fits')
    chunk = 1

    def setup(self):
        import h5py
        from astropy.cosmology import FlatLambdaCDM
        from simim.galprops import line_co, line_densegas, line_fir, line_fir_yang, galprops_builtin, log10normal, sfr_behroozi13, sfr_bethermin17
        from simim.siminterface import SimHandler
        self.cosmo = FlatLambdaCDM(H0=70, Om0=.3, Tcmb0=0)
        self.behroozi = gm.Behroozi(os.path.join(core.REPO, 'simim', 'resources', 'behroozi13_release.dat'))
        self.M = models(dict(line_co=line_co, line_densegas=line_densegas, line_fir=line_fir, line_fir_yang=line_fir_yang, sfr_behroozi13=sfr_behroozi13, behroozi=self.behroozi))
        self.builtin, self.SH, self.h5py, self.b17 = galprops_builtin, SimHandler, h5py, sfr_bethermin17
        self.l10 = log10normal.log10normal
        p = core.fresh_dir(core.ROOT, 'sim')
        units = {'sfr': ('Msun/yr', 0)}
        halos = {3: {'mass': [7e12, 3e11, 2e9], 'sfr': [30., 1., .5]}, 6: {'mass': [1.4e12, 7e9], 'sfr': [100., 2.]}}
        for d in halos.values():
            for k in ('pos_x', 'pos_y', 'pos_z'):
                d[k] = [float(i + 1) for i in range(len(d['mass']))]
        self.halos = halos
        fake.write_sim(h5py, p, [(3, 4.5), (6, .5)], halos, box=8., h=.7, units=units)
        fake.register('TNG100-2', p)

    def cases(self, tier):
        deep = tier == 'thorough'
        nkw = {'keating16': 3, 'li16': 4, 'hcn_gao': 4, 'lidz11': 4, 'hcn_breysse': 4, 'pullen13': 3, 'kamenetzky16': 7, 'delooze14': 17, 'uzgil14': 12, 'spinoglio12': 12,
               'schaerer20': 5, 'zhao13': 2, 'padmanabhan19': 2, 'yang22': 9, 'behroozi_sfr': 1, 'behroozi_stellarmass': 1}
        two = ('pullen13', 'padmanabhan19', 'yang22', 'behroozi_sfr', 'behroozi_stellarmass')
        for n in range(0, 4):
            for m in nkw:
                if m in two and n == 3 and not deep:
                    continue
                for k in range(nkw[m]):
                    if m in two and n >= 3:
                        for first in range(len(MASS)):
                            yield {'model': m, 'kw': k, 'n': n, 'first': first}
                    else:
                        yield {'model': m, 'kw': k, 'n': n, 'first': None}
            if deep:
                for m in nkw:
                    if m not in two:
                        for k in range(nkw[m]):
                            yield {'model': m, 'kw': k, 'n': n + 4 if n < 2 else n, 'first': None} if n < 2 else {'model': m, 'kw': k, 'n': 0, 'first': None}
        for m in ('lidz11', 'hcn_breysse', 'pullen13', 'yang22'):
            for k in range(nkw[m]):
                for lat in (10, 20, 40) + ((100, 200) if deep else ()):
                    yield {'duty': m, 'kw': k, 'lat': lat}
        for m in nkw:
            yield {'seed': m}
        for i in range(len(BAD)):
            yield {'bad': i}
        for b in sorted(BUILTIN):
            for snap in (3, 6):
                yield {'builtin': b, 'snap': snap}
        for n in (1, 3, 100, 101, 150):
            for z in ('same', 'two', 'range', 'descending', 'high'):
                yield {'age': n, 'z': z}
        for z in range(len(ZED)):
            for lat in (20, 40):
                yield {'b17': z, 'lat': lat}
        yield {'behroozi': 0}
        for dex in (0., .1, .3, 1.):
            for mean in (False, True):
                for sh in ((), (1,), (3,), (2, 3), (0,)):
                    yield {'l10': dex, 'mean': mean, 'shape': list(sh)}

    # ---------------------------------------------------------------- helpers
    def call(self, m, kw, elems, form, rng=None, **more):
        """Call the model on a list of halos in one input form; returns a list (per output) of 1-d arrays."""
        kinds = [a for a in m['args'] if a != 'cosmo']
        cols = {a: np.array([e[i] for e in elems], dtype=float) for i, a in enumerate(kinds)}
        arg, keep = {}, {}
        for a, v in cols.items():
            if form == 'f4':
                v = v.astype('f4')
            elif form == 'int':
                v = v.astype('i8') if a != 'z' and np.all(v == np.floor(v)) else v
            elif form == 'stride':
                w = np.full(2 * len(v), -7.)
                w[::2] = v
                v = w[::2]
            elif form == 'scalar':
                v = float(v[0])
            elif form == 'npscalar':
                v = np.float64(v[0])
            elif form == 'zscalar' and a == 'z':
                v = np.float64(v[0])
            elif form == 'zint' and a == 'z':
                v = int(v[0])
            arg[a] = v
            keep[a] = np.array(v)
        args = [self.cosmo if a == 'cosmo' else arg[a] for a in m['args']]
        kws = dict(kw, **more)
        if rng is not None:
            kws['rng'] = rng
        out = m['fn'](*args, **kws)
        for a in kinds:
            if not np.array_equal(np.array(arg[a]), keep[a]):
                raise core.Violation('input', 'the {} argument was changed from {} to {}'.format(a, keep[a], arg[a]))
        out = list(out) if isinstance(out, (list, tuple)) else [out]
        return [np.array(o, ndmin=1, dtype=float) for o in out]

    def forms(self, m, elems):
        kinds = [a for a in m['args'] if a != 'cosmo']
        f = ['f8', 'f4', 'stride', 'int']
        if len(elems) == 1:
            f += ['scalar', 'npscalar']
        if 'z' in kinds and elems:
            i = kinds.index('z')
            if len({e[i] for e in elems}) == 1:
                f.append('zscalar')
                if elems[0][i] == int(elems[0][i]):
                    f.append('zint')
        return f

    def off(self, m):
        d = {}
        if m['scatter']:
            d[m['scatter']] = False
        if m['dutyflag']:
            d[m['dutyflag']] = False
        return d

    def base(self, m, kw, e, flags):
        v = m['ref'](kw, *e)
        if m['dutyflag'] and m['dutyflag'] == 'rand_f_duty':      # off: all halos get the mean
            v = [x * m['duty'](kw, *e) for x in v]
        return v

    def same(self, got, want, tol):
        return got.shape == want.shape and bool(np.all(np.abs(got - want) <= tol * np.abs(want) + 1e-30))

    # ---------------------------------------------------------------- cases
    def run(self, case, ctx):
        for k in ('model', 'duty', 'seed', 'bad', 'builtin', 'age', 'b17', 'behroozi', 'l10'):
            if k in case:
                return getattr(self, 'run_' + k)(case, ctx)

    def run_model(self, case, ctx):
        m = self.M[case['model']]
        kw = m['kws'][case['kw']]
        kinds = [a for a in m['args'] if a != 'cosmo']
        alpha = list(itertools.product(*[ALPHA[a] for a in kinds]))
        refs = {e: self.base(m, kw, e, None) for e in alpha}
        n = case['n']
        lists = itertools.product(alpha, repeat=n)
        if case['first'] is not None:
            i = kinds.index('mass')
            lists = ((a,) + r for a in alpha if a[i] == MASS[case['first']] for r in itertools.product(alpha, repeat=n - 1))
        ctx.evals = 0
        for elems in lists:
            elems = list(elems)
            ctx.evals += 1
            if n > 1 and len(set(elems)) > 1:
                ctx.interesting()
            want = [np.array(c) for c in zip(*[refs[e] for e in elems])] if n else None
            for form in self.forms(m, elems) if n < 3 else ['f8']:
                got = self.call(m, kw, elems, form, Rng(), **self.off(m))
                ctx.step()
                if n == 0:
                    ctx.expect(all(g.shape == (0,) for g in got), 'empty', lambda: '{} of no halos gives {}'.format(case['model'], got))
                    continue
                ctx.expect(len(got) == len(want), 'outputs', lambda: '{} values returned, expected {}'.format(len(got), len(want)))
                for i, (g, w) in enumerate(zip(got, want)):
                    ctx.expect(self.same(g, w, 2e-4 if form == 'f4' else 1e-5), 'value',
                               lambda: '{} {} of {} ({}) output {}: {} expected {}'.format(case['model'], kw, elems, form, i, g, w))
            if n and m['scatter']:
                self.scatter(ctx, case, m, kw, elems, refs)
        ctx.state((case['model'], case['kw'], n, case['first']))

    def scatter(self, ctx, case, m, kw, elems, refs):
        for dex in (None, 0., .1):
            if dex is None and m['sig'] is None:
                continue
            more = {m['scatter']: True}
            if m['dutyflag']:
                more[m['dutyflag']] = False
            if dex is not None:
                more[m['dexkw']] = dex
            rng = Rng()
            got = self.call(m, kw, elems, 'f8', rng, **more)
            ctx.step()
            used = []
            for i, g in enumerate(got):
                ctx.expect(g.shape == (len(elems),), 'shape', lambda: '{} values for {} halos'.format(g.shape, len(elems)))
                for e, v in zip(elems, g):
                    r = refs[e][i]
                    d = m['sig'](kw, *e) if dex is None else dex
                    if r == 0:
                        ctx.expect(v == 0, 'zero', lambda: '{} of {} with scatter is {}, expected 0'.format(case['model'], e, v))
                        continue
                    ctx.expect(v > 0 and math.isfinite(v), 'positive', lambda: '{} {} of {} with scatter is {}'.format(case['model'], kw, e, v))
                    x = math.log10(v / r) + (d * d * math.log(10) / 2 if m['mean'] else 0)
                    if d == 0:
                        ctx.expect(abs(x) < 1e-5, 'noscatter', lambda: '{} of {} with zero scatter is {} instead of {}'.format(case['model'], e, v, r))
                    else:
                        used.append((x / d, e))
            left = list(rng.given)
            for z, e in used:
                k = min(range(len(left)), key=lambda j: abs(left[j] - z)) if left else None
                ctx.expect(k is not None and abs(left[k] - z) < 1e-4, 'draw',
                           lambda: '{} {} of {} (in {}) is off by {} sigma, which is none of the random numbers {} given'.format(case['model'], kw, e, elems, z, left))
                left.pop(k)

    def run_duty(self, case, ctx):
        m = self.M[case['duty']]
        kw = m['kws'][case['kw']]
        kinds = [a for a in m['args'] if a != 'cosmo']
        lat = case['lat']
        for e in itertools.product(*[ALPHA[a] for a in kinds]):
            f = m['duty'](kw, *e)
            r = m['ref'](kw, *e)[0]
            for form in ('f8', 'zscalar') if 'z' in kinds else ('f8',):
                more = {m['dutyflag']: True}
                if m['scatter']:
                    more[m['scatter']] = False
                got = self.call(m, kw, [e] * lat, form, Rng(lat), **more)[0]
                ctx.step()
                ctx.interesting(0 < f < 1)
                ctx.expect(got.shape == (lat,), 'shape', lambda: '{} values for {} halos'.format(got.shape, lat))
                one = [self.call(m, kw, [e], f, Rng(lat), **more)[0] for f in ('scalar', 'npscalar')]
                ctx.expect(all(len(x) == 1 and (x[0] == 0 or abs(x[0] - r) <= 1e-5 * r) for x in one), 'single', lambda: '{} {} of the single halo {}: {} expected {} or 0'.format(case['duty'], kw, e, one, r))
                on = got != 0
                ctx.expect(np.all(np.abs(got[on] - r) <= 1e-5 * r), 'onvalue', lambda: '{} {} of {}: halos that are on have {}, expected {}'.format(case['duty'], kw, e, got[on], r))
                ctx.expect(abs(on.sum() - f * lat) <= .5 + .011 * lat * (lat > 100) + 1e-6 * lat, 'fraction',
                           lambda: '{} {} of {}: {} of {} halos are on for uniform random numbers on a lattice, expected the fraction {}'.format(case['duty'], kw, e, on.sum(), lat, f))
                if m['scatter']:      # both at once
                    more[m['scatter']] = True
                    more[m['dexkw']] = .2
                    g2 = self.call(m, kw, [e] * lat, form, Rng(lat), **more)[0]
                    ctx.expect(abs((g2 != 0).sum() - f * lat) <= .5 + 1e-6 * lat, 'fraction', lambda: '{} with scatter: {} of {} on, expected fraction {}'.format(case['duty'], (g2 != 0).sum(), lat, f))
        ctx.state((case['duty'], case['kw'], lat))

    def run_seed(self, case, ctx):
        m = self.M[case['seed']]
        kinds = [a for a in m['args'] if a != 'cosmo']
        elems = list(itertools.product(*[ALPHA[a] for a in kinds])) * 8
        ctx.interesting()
        for kw in m['kws']:
            more = {}
            if m['scatter']:
                more[m['scatter']] = True
                if m['sig'] is None:
                    more[m['dexkw']] = .3
            outs = []
            for glob, seed in ((1, 5), (2, 5), (1, 6)):
                np.random.seed(glob)
                before = np.random.get_state()
                self.call(m, kw, elems, 'f8', np.random.default_rng(99), **more)
                outs.append(self.call(m, kw, elems, 'f8', np.random.default_rng(seed), **more))
                after = np.random.get_state()
                ctx.step(2)
                ctx.expect(before[2] == after[2] and np.array_equal(before[1], after[1]), 'global', lambda: '{} {} uses the global random state although a generator was given'.format(case['seed'], kw))
            eq = lambda a, b: all(np.array_equal(x, y) for x, y in zip(a, b))
            ctx.expect(eq(outs[0], outs[1]), 'seed', lambda: '{} {} gives different values for equal seeds: {} {}'.format(case['seed'], kw, outs[0], outs[1]))
            f = [m['duty'](kw, *e) for e in elems] if m['duty'] else []
            if m['scatter'] or any(.2 < v < .8 for v in f):
                ctx.expect(not eq(outs[0], outs[2]), 'noseed', lambda: '{} {} gives the same values for different seeds'.format(case['seed'], kw))
        ctx.state(case['seed'])

    def run_bad(self, case, ctx):
        name, kw = BAD[case['bad']]
        m = self.M[name]
        kinds = [a for a in m['args'] if a != 'cosmo']
        ctx.step()
        try:
            self.call(m, kw, [tuple(ALPHA[a][1] for a in kinds)], 'f8')
        except ValueError:
            ctx.state(case['bad'])
            return
        except Exception as e:
            ctx.fail('bad', '{} with {} fails with {!r} instead of a ValueError'.format(name, kw, e))
            return
        ctx.fail('bad', '{} with {} is accepted'.format(name, kw))

    def run_builtin(self, case, ctx):
        model, names = BUILTIN[case['builtin']]
        m = self.M[model]
        p = getattr(self.builtin, case['builtin'])
        ctx.interesting()
        for flag, sel in itertools.product((False, True), (None, 1)):
            snap = self.SH('TNG100-2', in_h_units=flag).get_snap(case['snap'])
            d = self.halos[case['snap']]
            z = {3: 4.5, 6: .5}[case['snap']]
            keep = list(range(len(d['mass'])))
            if sel is not None:
                snap.set_property_range('mass', 5e9, np.inf, in_h_units=True)
                keep = [i for i in keep if d['mass'][i] >= 5e9]
            snap.make_property(p, other_kws=self.off(m), overwrite=True)
            ctx.step()
            ctx.expect(all(snap.has_property(n) for n in names), 'names', lambda: 'properties {} missing'.format(names))
            for k, n in enumerate(names):
                got = np.asarray(snap.return_property(n), dtype=float)
                want = []
                for i in keep:
                    e = {'mass': d['mass'][i] / .7, 'sfr': d['sfr'][i], 'z': z}
                    want.append(self.base_at(m, snap, [e[a] for a in m['args'] if a != 'cosmo'])[k])
                ctx.expect(self.same(got, np.array(want), 1e-3), 'builtin', lambda: '{} of snapshot {}: {} is {} expected {}'.format(case['builtin'], case['snap'], n, got, want))
                u = UNIT.get(n, 'Lsun')
                ctx.expect(snap.get_units(n) == u if hasattr(snap, 'get_units') else snap.properties_units[n] == u, 'unit', lambda: '{} has unit {}'.format(n, snap.properties_units[n]))
        ctx.state((case['builtin'], case['snap']))

    def base_at(self, m, snap, e):
        if 'cosmo' in m['args']:      # duty cycle in the cosmology of the simulation
            return [m['ref']({}, *e)[0] * min(1, .1 / snap.cosmo.age(e[1]).value)]
        return self.base(m, {}, e, None)

    def run_age(self, case, ctx):
        n = case['age']
        zs = {'same': [2.5] * n, 'two': [1. + (i % 2) for i in range(n)], 'range': [8 * i / max(n - 1, 1) for i in range(n)],
              'descending': [3 - 2 * i / max(n - 1, 1) for i in range(n)], 'high': [7.5 - 1e-3 * (i % 5) for i in range(n)]}[case['z']]
        m = self.M['pullen13']
        ctx.interesting(n > 1)
        got = self.call(m, {'sf_length': .2}, [(3e11, z) for z in zs], 'f8', Rng(), rand_f_duty=False)[0]
        ctx.step(n)
        want = np.array([1e6 * 3e11 / 5e11 * min(1, .2 / gm.age(z)) for z in zs])
        ctx.expect(self.same(got, want, .012), 'age', lambda: 'mean luminosity of {} halos ({}): {} expected {}'.format(n, case['z'], got, want))
        ctx.state((n, case['z']))

    def run_b17(self, case, ctx):
        b = self.b17.bethermin17_base('TNG100-2')
        z = ZED[case['b17']]
        lat = case['lat']
        ms = np.array([1e8, 3e9, 4e10, 1e11, 3e12])
        ctx.interesting()
        for zarg in ('scalar', 'array', 'int'):
            if zarg == 'int' and z != int(z):
                continue
            zz = z if zarg == 'scalar' else int(z) if zarg == 'int' else np.full(len(ms), z)
            keep = ms.copy()
            sfms = np.asarray(b.b17_sfms(ms, zz))
            ctx.expect(self.same(sfms, np.array([gm.b17_sfms(m, z) for m in ms]), 1e-6), 'sfms', lambda: 'main sequence at z={} ({}): {}'.format(z, zarg, sfms))
            fr = np.asarray(b.b17_sffrac(ms, zz))
            ctx.expect(self.same(fr, np.array([gm.b17_sffrac(m, z) for m in ms]), 1e-6), 'sffrac', lambda: 'star forming fraction at z={} ({}): {}'.format(z, zarg, fr))
            sb = np.broadcast_to(np.asarray(b.b17_sbfrac(ms, zz), dtype=float), ms.shape)
            ctx.expect(self.same(sb, np.array([gm.b17_sbfrac(m, z) for m in ms]), 1e-6), 'sbfrac', lambda: 'starburst fraction at z={} ({}): {}'.format(z, zarg, sb))
            ctx.step(3)
            ctx.expect(np.array_equal(ms, keep) and np.all(np.asarray(zz) == z), 'input', 'arguments were changed')
        for m in ms:
            arr = np.full(lat, m)
            zz = np.full(lat, z)
            rng = Rng(lat)
            sfr, issb, isq = b.b17_sfr(arr, zz, rng=rng, return_fracs=True)
            again = b.b17_sfr(arr, zz, rng=Rng(lat))
            ctx.step(2)
            ctx.expect(np.array_equal(sfr, again) and np.all(arr == m) and np.all(zz == z), 'repeat', lambda: 'SFR of equal random numbers differ or arguments changed')
            q = 1 - gm.b17_sffrac(m, z)
            ctx.expect(abs(np.sum(isq) - q * lat) <= .5 + 1e-6 * lat, 'quenched', lambda: '{} of {} galaxies of {} Msun at z={} quenched, expected fraction {}'.format(np.sum(isq), lat, m, z, q))
            ctx.expect(np.sum(issb) <= gm.b17_sbfrac(m, z) * lat + .5, 'starburst', lambda: '{} of {} starbursts'.format(np.sum(issb), lat))
            left = list(rng.given)
            for i in range(lat):
                if isq[i]:
                    ctx.expect(sfr[i] == 0 and not issb[i], 'quenched', lambda: 'a quenched galaxy has SFR {} (starburst {})'.format(sfr[i], issb[i]))
                    continue
                r = gm.b17_sfms(m, z) * (5.3 if issb[i] else .87)
                if abs(sfr[i] - 1e4) < 1e-6:
                    ok = any(r * 10 ** (.3 * x) >= 1e4 * .999 for x in left)
                    k = None
                else:
                    x = math.log10(sfr[i] / r) / .3
                    k = min(range(len(left)), key=lambda j: abs(left[j] - x))
                    ok = abs(left[k] - x) < 1e-4 and sfr[i] <= 1e4
                ctx.expect(ok, 'sfr', lambda: 'SFR {} of a galaxy of {} Msun at z={} (starburst {}): not {} times a scatter that was drawn'.format(sfr[i], m, z, issb[i], r))
                if k is not None:
                    left.pop(k)
            if z <= 4:
                nq = np.sum(isq)
                if nq == 0:
                    ctx.expect(abs(np.sum(issb) - gm.b17_sbfrac(m, z) * lat) <= .5 + 1e-6, 'starburst', lambda: '{} of {} starbursts'.format(np.sum(issb), lat))
        ctx.state((case['b17'], lat))

    def run_behroozi(self, case, ctx):
        zs = [0., 1e-3, .1, 1.2345, 5., 7.9, 9.]
        ms = [1e8, 1e9, 1.5e9, 2.2e11, 3.3e13, 9e14, 1e16]
        ctx.interesting()
        for k, n in enumerate(('behroozi_sfr', 'behroozi_stellarmass')):
            e = list(itertools.product(zs, ms))
            got = self.call(self.M[n], {}, e, 'f8', Rng(), scatter=False)[0]
            want = np.array([self.behroozi.value(k, *x) for x in e])
            ctx.step(len(e))
            bad = [i for i in range(len(e)) if not abs(got[i] - want[i]) <= 2e-4 * abs(want[i])]
            ctx.expect(not bad, 'behroozi', lambda: '{} at {}: {} expected {}'.format(n, e[bad[0]], got[bad[0]], want[bad[0]]))
        ctx.state(0)

    def run_l10(self, case, ctx):
        sh = tuple(case['shape'])
        x = (np.arange(int(np.prod(sh)) or 0) + 1.).reshape(sh) if sh else 3.
        keep = np.array(x)
        rng = Rng()
        got = np.asarray(self.l10(x, case['l10'], preserve_linear_mean=case['mean'], rng=rng))
        ctx.step()
        ctx.interesting(case['l10'] > 0)
        ctx.expect(got.shape == sh and np.array_equal(np.array(x), keep), 'shape', lambda: 'shape {} from {}'.format(got.shape, sh))
        z = np.array(rng.given[:got.size]).reshape(sh) if case['l10'] else 0
        want = keep * 10 ** (case['l10'] * z) / (10 ** (case['l10'] ** 2 * math.log(10) / 2) if case['mean'] else 1)
        ctx.expect(np.allclose(got, want, rtol=1e-9), 'lognormal', lambda: '{} scattered by {} dex: {} expected {}'.format(keep, case['l10'], got, want))
        ctx.state((case['l10'], case['mean'], sh))


CHECK = C()
